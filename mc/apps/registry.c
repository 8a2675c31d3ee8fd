#include "common.h"
#define M(n) extern void n##_gen(int); extern void n##_main(void); extern void n##_end(void);
#include "modules.inc"
#undef M
#define M(n) { #n, n##_gen, n##_main, n##_end },
RtModule rt_modules[] = {
#include "modules.inc"
    { 0, 0, 0, 0 } };
