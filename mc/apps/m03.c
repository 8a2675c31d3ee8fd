// M03: memory of containers along histories, counting allocator
#include "prog.h"
static void fam3(Prog* p, int n) {
    int N = pg_cells(p);
    for (int q = 0; q < 4; q++) { int x = pg_part(p); PPart* P = &p->part[x]; P->tag = q == 2 ? 4 : 1;
        for (int i = 0; i < N; i++) P->own[i] = q == 0 ? 1 << (i * n / N) : q == 1 ? (1 << n) - 1 : q == 2 ? 1 << (i % n) : (i * 2 < N ? 1 : 2); }
}
// single container, all histories
void m03a_gen(int tier) {
    Prog* p = PG; int n = 2; pg_mode(rt_in(2) ? PGM_MPI_ASYNC_RDV : PGM_MPI); int two = rt_in(2);
    if (two) pg_init(p, n, 2, 2, 2, 1); else pg_init(p, n, 1, 4, 1, 1);
    p->alloc = 1; fam3(p, n); if (two) { p->part[2].tag = 1; } int dt = rt_in(2); if (dt) p->part[2].tag = two ? 0 : 3; p->types[0] = two ? 1 : 7;
    int L = tier ? 6 : 5, cur = -1, used = -1, nres = 0, inres = -1, freed[8] = { 0 }, masks[8], hasval = 0;
    int done = 0;
    for (int i = 0; i < L && !done; i++) {
        int k = rt_in(10);
        if (dt && !two && k >= 5 && k < 8) REJECT(); // several mappings with distinct tags: no reservations with different numbers of maps
        if (k < 4) { // preserving switch (first one: without data flow)
            if (cur < 0) { pg_op(p, P_SWITCH, k, LAIK_DF_None, 0); pg_op(p, P_WRITE, 0, 0, 0); hasval = 1; }
            else pg_op(p, P_SWITCH, k, LAIK_DF_Preserve, cur == 1 ? LAIK_RO_Any : 0);
            cur = k; inres = used >= 0 && (masks[used] >> k & 1) ? used : -1;
        } else if (k == 4) { if (cur < 0) REJECT(); pg_op(p, P_SWITCH, -1, LAIK_DF_None, 0); cur = -1; inres = -1; }
        else if (k == 5 || k == 6) { if (nres >= 2) REJECT(); pg_op(p, P_RES, 0, 0, 0); p->op[p->nops - 1].mask = masks[nres] = k == 5 ? 3 : 14; p->op[p->nops - 1].arg = 1; used = nres++; }
        else if (k == 7) { if (nres < 1 || freed[nres - 1] || inres == nres - 1) REJECT(); pg_op(p, P_FREERES, nres - 1, 0, 0); freed[nres - 1] = 1; if (used == nres - 1) used = -1; }
        else if (k == 8) { if (cur < 0) REJECT(); pg_op(p, P_FLOW, 0, LAIK_DF_Preserve, cur == 1 ? LAIK_RO_Any : 0); if (used >= 0) inres = masks[used] >> cur & 1 ? used : -1; else inres = -1; }
        else { for (int r = 0; r < nres; r++) if (!freed[r]) REJECT(); pg_op(p, P_FREE, 0, 0, 0); done = 1; }
        if (!done) pg_op(p, P_CHECK, 0, 0, 0);
    }
    (void)hasval;
    if (!done) { // proper end
        if (cur >= 0 && inres >= 0) { pg_op(p, P_SWITCH, -1, LAIK_DF_None, 0); }
        for (int r = 0; r < nres; r++) if (!freed[r]) pg_op(p, P_FREERES, r, 0, 0);
        pg_op(p, P_FREE, 0, 0, 0);
    }
    pg_desc(p); CTX("history"); if (!pg_valid(p)) REJECT();
}
void m03a_main(void) { pg_run(); }
void m03a_end(void) {}
// two containers of different type, switches of both interleaved; one of them freed in between
void m03b_gen(int tier) {
    Prog* p = PG; int n = 2 + rt_in(2); pg_mode(PGM_MPI_RDV); pg_init(p, n, 1, 4, 1, 1);
    p->alloc = 1; fam3(p, n); p->ndata = 2; p->types[0] = 7; p->types[1] = 0; int cur[2] = { -1, -1 }, live[2] = { 1, 1 }, res[2] = { -1, -1 }, nres = 0;
    int L = tier ? 6 : 5;
    for (int i = 0; i < L; i++) {
        int d = rt_in(2), k = rt_in(tier ? 6 : 5); if (!live[d]) REJECT();
        int o0 = p->nops;
        if (k < 4) { if (k == 2 && res[d] >= 0) REJECT(); if (cur[d] < 0) { pg_op(p, P_SWITCH, k, LAIK_DF_None, 0); pg_op(p, P_WRITE, 0, 0, 0); } else pg_op(p, P_SWITCH, k, LAIK_DF_Preserve, cur[d] == 1 ? LAIK_RO_Any : 0); cur[d] = k; }
        else if (k == 4) { if (res[d] >= 0 && cur[d] >= 0) pg_op(p, P_SWITCH, -1, LAIK_DF_None, 0); if (res[d] >= 0) pg_op(p, P_FREERES, res[d], 0, 0); pg_op(p, P_FREE, 0, 0, 0); live[d] = 0; }
        else { if (res[d] >= 0) REJECT(); pg_op(p, P_RES, 0, 0, 0); p->op[p->nops - 1].mask = 11; p->op[p->nops - 1].arg = 1; res[d] = nres++; }
        for (int j = o0; j < p->nops; j++) p->op[j].d = d;
    }
    for (int d = 0; d < 2; d++) if (live[d]) { int o0 = p->nops; if (res[d] >= 0 && cur[d] >= 0) pg_op(p, P_SWITCH, -1, LAIK_DF_None, 0); if (res[d] >= 0) pg_op(p, P_FREERES, res[d], 0, 0); pg_op(p, P_FREE, 0, 0, 0); for (int j = o0; j < p->nops; j++) p->op[j].d = d; }
    pg_desc(p); CTX("two containers"); if (!pg_valid(p)) REJECT();
}
void m03b_main(void) { pg_run(); }
void m03b_end(void) {}
