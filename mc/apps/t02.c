// reductions
#include "prog.h"
static int optype(int op, int alt) {
    static const int ty[2][7] = { { 0, 7, 2, 1, 6, 4, 3 }, { 0, 1, 7, 6, 2, 5, 0 } };
    return ty[alt][op];
}
static const int modes[] = { PGM_MPI, PGM_MPI_OWNRED_RDV, PGM_MPI_OWNRED, PGM_MPI_SYNCOLL, PGM_MPI_ASYNC_RDV };
// t02a: all pairs of owner masks x operations x backend modes
void t02a_gen(int tier) {
    Prog* p = PG;
    static const int nn[] = { 2, 3, 2, 4, 3 }, NN[] = { 2, 1, 3, 1, 2 };
    int c = rt_in(tier ? 5 : 5); int n = nn[c], N = NN[c];
    int mi = c == 4 ? rt_in(2) : rt_in(c == 3 && !tier ? 2 : 5); pg_mode(modes[mi]);
    pg_init(p, n, 1, N, 1, 1);
    int op = c == 4 && !tier ? 1 + 3 * rt_in(2) : 1 + rt_in(6);
    p->types[0] = optype(op, mi & 1);
    int A = pg_part(p), B = pg_part(p);
    pg_masks(&p->part[A], N, n, 0); pg_masks(&p->part[B], N, n, 0);
    int tg = N > 1 && c != 4 ? rt_in(2) : 0; p->part[A].tag = tg ? 4 : 0; p->part[B].tag = tg ? 1 : 0;
    pg_op(p, P_SWITCH, A, LAIK_DF_None, 0); pg_op(p, P_WRITE, 0, 0, op); p->op[p->nops - 1].arg = 1;
    pg_op(p, P_SWITCH, B, LAIK_DF_Preserve, op); pg_op(p, P_CHECK, 0, 0, 0);
    pg_desc(p); CTX("%s", pg_redname[op]);
    if (!pg_valid(p)) REJECT();
}
void t02a_main(void) { pg_run(); }
void t02a_end(void) {}
// t02b: initialise, write on some processes only, reduce (same or other partitioning)
void t02b_gen(int tier) {
    Prog* p = PG; int n = 2 + rt_in(2), N = tier ? 2 : n == 2 ? 2 : 1;
    int mi = rt_in(tier ? 5 : 3); pg_mode(modes[mi]); pg_init(p, n, 1, N, 1, 1);
    int op = 1 + rt_in(6); p->types[0] = optype(op, rt_in(2));
    int A = pg_part(p), B = pg_part(p);
    pg_masks(&p->part[A], N, n, 0); pg_masks(&p->part[B], N, n, 0);
    pg_op(p, P_SWITCH, A, LAIK_DF_Init, op); pg_op(p, P_CHECK, 0, 0, 0);
    int m = rt_in(1 << n);
    if (m) { pg_op(p, P_WRITE, 0, 0, op); p->op[p->nops - 1].arg = 1; p->op[p->nops - 1].mask = m; }
    if (rt_in(2)) { pg_op(p, P_FLOW, 0, LAIK_DF_Preserve, op); pg_op(p, P_CHECK, 0, 0, 0); }
    pg_op(p, P_SWITCH, B, LAIK_DF_Preserve, op); pg_op(p, P_CHECK, 0, 0, 0);
    pg_op(p, P_FLOW, 0, LAIK_DF_Init, op); pg_op(p, P_CHECK, 0, 0, 0);
    pg_desc(p); CTX("init %s", pg_redname[op]);
    if (!pg_valid(p)) REJECT();
}
void t02b_main(void) { pg_run(); }
void t02b_end(void) {}
// t02c: many contributors/receivers (reduction trees), one index
void t02c_gen(int tier) {
    Prog* p = PG; int n = 1 + rt_in(tier ? 12 : 10); if (!tier && n > 8) n = n == 9 ? 10 : 12;
    int mi = rt_in(3); pg_mode(modes[mi]); pg_init(p, n, 1, 2, 1, 1);
    int op = rt_in(2) ? LAIK_RO_Or : LAIK_RO_Sum; p->types[0] = op == LAIK_RO_Sum ? 1 : 2;
    int A = pg_part(p), B = pg_part(p);
    // contributors: a cyclic interval; receivers: a cyclic interval
    int a = rt_in(n), al = rt_in_range(1, n), b = rt_in(n), bl = rt_in_range(0, n);
    if (al == n && a) REJECT(); if (bl == n && b) REJECT(); if (!bl && b) REJECT();
    if (!tier && n > 8 && (al < 9 || a > 1 || b > 1 || (bl != 1 && bl != 2 && bl < n - 1) || (mi && op == LAIK_RO_Or))) REJECT();
    for (int i = 0; i < al; i++) p->part[A].own[0] |= 1 << ((a + i) % n);
    for (int i = 0; i < bl; i++) p->part[B].own[0] |= 1 << ((b + i) % n);
    p->part[A].own[1] = p->part[A].own[0] ^ 1; p->part[B].own[1] = 1 << (n - 1);
    pg_op(p, P_SWITCH, A, LAIK_DF_None, 0); pg_op(p, P_WRITE, 0, 0, op); p->op[p->nops - 1].arg = 1;
    pg_op(p, P_SWITCH, B, LAIK_DF_Preserve, op); pg_op(p, P_CHECK, 0, 0, 0);
    pg_desc(p); CTX("%d contributors", al > 8 ? 9 : al > 2 ? 3 : al);
    if (!pg_valid(p)) REJECT();
}
void t02c_main(void) { pg_run(); }
void t02c_end(void) {}
// t02d: multi-dimensional: everybody to one or all, with several layouts
void t02d_gen(int tier) {
    Prog* p = PG; int n = 1 + rt_in(tier ? 4 : 3), dims = 2 + rt_in(2);
    int mi = rt_in(5); pg_mode(modes[mi]);
    static const int ex[3][3] = { { 2, 2, 2 }, { 3, 2, 1 }, { 1, 3, 2 } }; int e = rt_in(3);
    pg_init(p, n, dims, ex[e][0], ex[e][1], ex[e][2]); p->layout = rt_in(3); p->org = rt_in(2) ? -2 : 0;
    if (p->layout == 1) rt_setenv("LAIK_LAYOUT_GENERIC", "1");
    int op = 1 + rt_in(6); p->types[0] = optype(op, rt_in(2));
    int A = pg_part(p), B = pg_part(p), C = pg_part(p); int N = pg_cells(p);
    int to = rt_in(n + 1);
    for (int i = 0; i < N; i++) { p->part[A].own[i] = (1 << n) - 1; p->part[B].own[i] = to == n ? (1 << n) - 1 : 1 << to; p->part[C].own[i] = (1 << n) - 1; }
    int same = rt_in(2); if (same && to != n) REJECT();
    pg_op(p, P_SWITCH, A, LAIK_DF_None, 0); pg_op(p, P_WRITE, 0, 0, op); p->op[p->nops - 1].arg = 1;
    pg_op(p, P_SWITCH, same ? A : B, LAIK_DF_Preserve, op); pg_op(p, P_CHECK, 0, 0, 0);
    if (to != n) { pg_op(p, P_SWITCH, C, LAIK_DF_Preserve, 0); pg_op(p, P_CHECK, 0, 0, 0); }
    pg_desc(p); CTX("%dd layout %d", dims, p->layout);
    if (!pg_valid(p)) REJECT();
}
void t02d_main(void) { pg_run(); }
void t02d_end(void) {}

// t02f: two indexes reduced in one switch, every pair of contributor sets among more processes
void t02f_gen(int tier) {
    Prog* p = PG; int n = tier ? 5 + rt_in(3) : 6; int m = rt_in(2); pg_mode(m ? PGM_MPI_OWNRED : PGM_MPI); pg_init(p, n, 1, 2, 1, 1);
    p->types[0] = 2; int A = pg_part(p), B = pg_part(p);
    p->part[A].own[0] = 1 + rt_in((1 << n) - 1); p->part[A].own[1] = 1 + rt_in((1 << n) - 1);
    int r = rt_in(2); p->part[B].own[0] = p->part[B].own[1] = r ? 1 << (n - 2) : (1 << n) - 1;
    if (!tier && (m == r || p->part[A].own[1] < p->part[A].own[0])) REJECT();
    if (n == 7 && __builtin_popcount(p->part[A].own[0]) != __builtin_popcount(p->part[A].own[1])) REJECT();
    pg_op(p, P_SWITCH, A, LAIK_DF_None, 0); pg_op(p, P_WRITE, 0, 0, LAIK_RO_Or); p->op[p->nops - 1].arg = 1;
    pg_op(p, P_SWITCH, B, LAIK_DF_Preserve, LAIK_RO_Or); pg_op(p, P_CHECK, 0, 0, 0);
    pg_desc(p); CTX("two contributor sets"); if (!pg_valid(p)) REJECT();
}
void t02f_main(void) { pg_run(); }
void t02f_end(void) {}
