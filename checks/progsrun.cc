// linked into whole programs
#include "progs.hpp"
static struct Start { Start() { progs::install(); } } start;
