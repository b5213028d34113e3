#define OLD 1
#include "c21.c"
