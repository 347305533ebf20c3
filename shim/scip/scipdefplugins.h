#include "scip/scip.h"
