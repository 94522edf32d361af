#include "../minuitstub.h"
