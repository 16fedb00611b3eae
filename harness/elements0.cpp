#include "elements.h"
#include "elements0.inc"
