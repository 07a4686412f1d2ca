// C13 again with row-first storage
// FLAGS: -DTHEORETICA_ROW_FIRST
#define SYM_PREFIX rowfirst_
#include "../harness/C13.cpp"
