#define VF_SUMS
#include "C28.cpp"
