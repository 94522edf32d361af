#include "minuitstub.h"
