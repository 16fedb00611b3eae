#include "elements.h"
#include "elements3.inc"
