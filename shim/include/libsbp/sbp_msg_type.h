#include <libsbp/all.h>
