// FLAGS: -fexceptions -DTHEORETICA_ONLY_EXCEPTIONS -UTHEORETICA_NO_PRINT
#define SYM_PREFIX only_
#include "../harness/C39.cpp"
