#include "elements.h"
#include "elements4.inc"
