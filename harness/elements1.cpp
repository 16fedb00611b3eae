#include "elements.h"
#include "elements1.inc"
