// FLAGS: -DTHEORETICA_DISABLE_X86
#define SYM_PREFIX portable_
#include "../harness/C34.cpp"
