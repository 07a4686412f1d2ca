// the same claims for the portable (no inline assembly) and the branchless configuration
// FLAGS: -DTHEORETICA_DISABLE_X86
#define SYM_PREFIX portable_
#include "../harness/C02.cpp"
