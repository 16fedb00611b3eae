#include "elements.h"
#include "elements5.inc"
