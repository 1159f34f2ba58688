#include <swiftnav/common.h>
