#ifndef COMMON_H
#define COMMON_H
#include "laik-internal.h"
#include "rt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <assert.h>
#include <inttypes.h>
typedef struct { const char* name; void (*gen)(int tier); void (*rank_main)(void); void (*end)(void); } RtModule;
extern void* rt_shared;
static inline Laik_Instance* app_init(void) {
    static char* av[] = { "app", 0 }; static char** avp; static int ac; ac = 1; avp = av;
    return laik_init(&ac, &avp);
}
#define DESC(...) do { size_t l_ = strlen(rt_scen->desc); if (l_ < sizeof(rt_scen->desc) - 1) snprintf(rt_scen->desc + l_, sizeof(rt_scen->desc) - l_, __VA_ARGS__); } while(0)
#define CTX(...) snprintf(rt_scen->context, sizeof(rt_scen->context), __VA_ARGS__)
// reject the generated combination
#define REJECT() rt_skip()
#include "tcp.h"
#endif
