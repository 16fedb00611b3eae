#include "elements.h"
#include "elements6.inc"
