#include "elements.h"
#include "elements7.inc"
