#ifndef TCP2_H
#define TCP2_H
#include "common.h"
// scenario settings shared by all modules on the dynamic TCP backend
static inline void tcp2_scen(int world, int nranks, int dev) {
    RtScen* s = rt_scen;
    s->nranks = nranks; s->dev_bound = dev; s->sched_points = 1;
    rt_setenv("LAIK_BACKEND", "tcp2");
    char t[20]; sprintf(t, "%d", world); rt_setenv("LAIK_SIZE", t);
}
// fragmentation/schedule mode f: 0 whole reads, 1 one byte per read, 2 at most 7 bytes,
// 3 any one read cut at any place (deviation), 4 short writes (deviation)
static inline void tcp2_frag(int f) {
    RtScen* s = rt_scen;
    if (f == 1) s->sock_chunk = 1; if (f == 2) s->sock_chunk = 7; if (f == 3) s->sock_chunk = -60; if (f == 4) s->sock_opts |= 2;
}
#endif
