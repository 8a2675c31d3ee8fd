#include "prog.h"
// t02e: one process, single and MPI backend: every owner pattern, operation, layout, number of ranges
void t02e_gen(int tier) {
    Prog* p = PG; static const struct { int d, x, y, z; } D[] = { { 1, 3, 1, 1 }, { 2, 2, 2, 1 }, { 3, 2, 1, 2 }, { 1, 4, 1, 1 }, { 2, 3, 2, 1 } };
    int c = rt_in(tier ? 5 : 3); pg_mode(rt_in(2) ? PGM_SINGLE : PGM_MPI); pg_init(p, 1, D[c].d, D[c].x, D[c].y, D[c].z); p->org = c == 1 ? -1 : 0;
    int l = rt_in(4); p->layout = l; if (l == 1) rt_setenv("LAIK_LAYOUT_GENERIC", "1");
    int op = 1 + rt_in(6); static const int ty[7] = { 0, 7, 2, 1, 6, 4, 3 }; p->types[0] = ty[op];
    int N = pg_cells(p), A = pg_part(p), B = pg_part(p);
    int full = D[c].d > 1;
    for (int i = 0; i < N; i++) { p->part[A].own[i] = full ? 1 : rt_in(2); p->part[B].own[i] = full ? 1 : rt_in(2); }
    int k = full ? 0 : rt_in(3); p->part[A].tag = k; p->part[B].tag = k == 2 ? 4 : k; p->part[B].order = k == 1;
    int init = rt_in(2), nf = rt_in(2);
    pg_op(p, P_SWITCH, A, init ? LAIK_DF_Init : LAIK_DF_None, init ? op : 0); if (!init || nf) { pg_op(p, P_WRITE, 0, 0, op); p->op[1].arg = 1; }
    pg_op(p, P_SWITCH, B, LAIK_DF_Preserve, op); pg_op(p, P_CHECK, 0, 0, 0);
    pg_op(p, P_FLOW, 0, LAIK_DF_Preserve, op); pg_op(p, P_CHECK, 0, 0, 0);
    pg_desc(p); CTX("1 process %dd layout %d", D[c].d, l); if (!pg_valid(p)) REJECT();
}
void t02e_main(void) { pg_run(); }
void t02e_end(void) {}
