#include "objscip/objscip.h"
#include "scip/scipdefplugins.h"
