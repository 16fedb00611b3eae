#include "elements.h"
#include "elements2.inc"
