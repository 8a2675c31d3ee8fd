#ifndef TCP_H
#define TCP_H
#include "common.h"
// scenario settings shared by all modules on the legacy TCP backend
static inline void tcp_scen(int n, int cfg, int dev) {
    RtScen* s = rt_scen; char t[20]; sprintf(t, "%d", cfg);
    s->nranks = n; s->threads = 1; s->sched_points = 1; s->no_leakcheck = 1; s->dev_bound = dev;
    rt_setenv("LAIK_BACKEND", "tcp"); rt_setenv("LAIK_TCP_CONFIG", t);
}
#endif
