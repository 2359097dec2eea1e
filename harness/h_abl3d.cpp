#define WITH_ABLATION 1
#include "h_plan3d.cpp"
