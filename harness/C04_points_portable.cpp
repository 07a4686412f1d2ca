// FLAGS: -DTHEORETICA_DISABLE_X86
#define SYM_PREFIX portable_points_
#include "../harness/C04_points.cpp"
