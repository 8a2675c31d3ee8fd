// T03 initialising switches, T04 completion, T05 pre-calculation, T06 modes, T07 transferred amounts, M03 memory
#include "prog.h"
static int optypes(int op, int t) { return !((op == LAIK_RO_And || op == LAIK_RO_Or) && (t == 6 || t == 7)); }
static int modeOf(int i) { static const int m[] = { PGM_MPI, PGM_MPI_OWNRED_RDV, PGM_MPI_ASYNC_RDV, PGM_MPI_SYNCOLL, PGM_MPI_OWNRED }; return m[i]; }
static void lay(Prog* p, int l) { p->layout = l; if (l == 1) rt_setenv("LAIK_LAYOUT_GENERIC", "1"); }
static int covp(Prog* p, int q) { for (int i = 0; i < pg_cells(p); i++) if (!p->part[q].own[i]) return 0; return 1; }
// t03a: every operation x type x layout x dims x set of owners
void t03a_gen(int tier) {
    Prog* p = PG; int op = 1 + rt_in(6), t = rt_in(8); if (!optypes(op, t)) REJECT();
    static const struct { int n, d, x, y, z; } D[] = { { 2, 1, 3, 1, 1 }, { 2, 2, 2, 2, 1 }, { 3, 1, 2, 1, 1 }, { 2, 3, 2, 1, 2 }, { 1, 2, 3, 2, 1 }, { 3, 2, 2, 2, 1 } };
    int c = rt_in(tier ? 6 : 5); pg_mode(PGM_MPI_RDV); pg_init(p, D[c].n, D[c].d, D[c].x, D[c].y, D[c].z); p->types[0] = t; p->org = c == 1 ? -3 : 0;
    int N = pg_cells(p); lay(p, rt_in(4)); if (!tier && p->layout == 1 && c > 1) REJECT();
    p->ndata = 2; p->types[1] = (t + 3) % 8;
    int A = pg_part(p), B = pg_part(p), C = pg_part(p); pg_masks(&p->part[A], N, D[c].n, 0);
    for (int i = 0; i < N; i++) { p->part[B].own[i] = 1 << (i % D[c].n); p->part[C].own[i] = (1 << D[c].n) - 1; }
    int k = rt_in(2); p->part[A].split = k ? 1 : 0; p->part[A].tag = k ? 3 : 0; p->part[B].tag = 1;
    pg_op(p, P_SWITCH, B, LAIK_DF_None, 0); p->op[0].d = 1; pg_op(p, P_WRITE, 0, 0, 0); p->op[1].d = 1;
    if (rt_in(2)) { pg_op(p, P_SWITCH, C, LAIK_DF_None, 0); pg_op(p, P_WRITE, 0, 0, 0); } // dirty memory
    pg_op(p, P_SWITCH, A, LAIK_DF_Init, op); pg_op(p, P_CHECK, 0, 0, 0);
    pg_op(p, P_WRITE, 0, 0, op); p->op[p->nops - 1].arg = 1; p->op[p->nops - 1].mask = 1;
    pg_op(p, P_FLOW, 0, LAIK_DF_Init, op); pg_op(p, P_CHECK, 0, 0, 0);
    pg_op(p, P_CHECK, 0, 0, 0); p->op[p->nops - 1].d = 1;
    pg_desc(p); CTX("%s %s %dd layout %d", pg_redname[op], pg_typename[t], D[c].d, p->layout);
    if (!pg_valid(p)) REJECT();
}
void t03a_main(void) { pg_run(); }
void t03a_end(void) {}
// t03b: sequences of init / write (own subset) / reduce / no-flow switches over partitionings of two containers; nothing is transferred by switches without preserving
void t03b_gen(int tier) {
    Prog* p = PG; int n = 2 + rt_in(2); int op = (int[]){ LAIK_RO_Sum, LAIK_RO_Prod, LAIK_RO_Min, LAIK_RO_And, LAIK_RO_Max, LAIK_RO_Or }[rt_in(tier ? 6 : 4)];
    pg_mode(modeOf(rt_in(tier ? 5 : 3))); pg_init(p, n, 1, 3, 1, 1); p->checkmsgs = 0;
    p->types[0] = op == LAIK_RO_And || op == LAIK_RO_Or ? 2 : op == LAIK_RO_Prod ? 1 : 7;
    for (int q = 0; q < 3; q++) { int x = pg_part(p); for (int i = 0; i < 3; i++) p->part[x].own[i] = q == 0 ? (1 << n) - 1 : q == 1 ? 1 << (i % n) : i == 1 ? 3 : i == 2 ? 1 << (n - 1) : 2; }
    int L = tier ? 5 : 4; pg_op(p, P_SWITCH, 0, LAIK_DF_Init, op);
    for (int i = 0; i < L; i++) {
        int k = rt_in(7);
        if (k == 0) { pg_op(p, P_WRITE, 0, 0, op); p->op[p->nops - 1].arg = 1; p->op[p->nops - 1].mask = 1; }
        else if (k == 1) { pg_op(p, P_WRITE, 0, 0, op); p->op[p->nops - 1].arg = 1; p->op[p->nops - 1].mask = (1 << n) - 2; }
        else if (k == 2) pg_op(p, P_FLOW, 0, LAIK_DF_Init, op);
        else if (k == 3) pg_op(p, P_SWITCH, i % 3, LAIK_DF_Init, op);
        else if (k == 4) pg_op(p, P_SWITCH, 0, LAIK_DF_Preserve, op);
        else if (k == 5) pg_op(p, P_SWITCH, 1 + i % 2, LAIK_DF_Preserve, op);
        else pg_op(p, P_FLOW, 0, LAIK_DF_Preserve, op);
        pg_op(p, P_CHECK, 0, 0, 0);
    }
    pg_desc(p); CTX("sequence %s", pg_redname[op]);
    if (!pg_valid(p)) REJECT();
}
void t03b_main(void) { pg_run(); }
void t03b_end(void) {}
// t03c: switches without data flow and initialising switches send nothing; other containers keep their values
void t03c_gen(int tier) {
    Prog* p = PG; int two = rt_in(2), n = two ? 2 : 2 + rt_in(2); pg_mode(PGM_MPI_RDV);
    if (two) pg_init(p, n, 2, 2, 2, 1); else pg_init(p, n, 1, tier ? 3 : 2, 1, 1);
    int N = pg_cells(p); p->checkmsgs = 1; p->ndata = 2; p->types[1] = 2;
    int A = pg_part(p), B = pg_part(p); pg_masks(&p->part[A], N, n, 0); pg_masks(&p->part[B], N, n, 0);
    if (two && !tier) for (int i = 1; i < N; i += 2) if (p->part[B].own[i] != p->part[B].own[0]) REJECT();
    int fl = rt_in(2) ? LAIK_DF_Init : LAIK_DF_None;
    pg_op(p, P_SWITCH, A, LAIK_DF_None, 0); pg_op(p, P_WRITE, 0, 0, 0);
    pg_op(p, P_SWITCH, A, LAIK_DF_None, 0); p->op[p->nops - 1].d = 1; pg_op(p, P_WRITE, 0, 0, 0); p->op[p->nops - 1].d = 1;
    pg_op(p, P_SWITCH, B, fl, fl == LAIK_DF_Init ? LAIK_RO_Sum : 0); pg_op(p, P_CHECK, 0, 0, 0);
    pg_op(p, P_CHECK, 0, 0, 0); p->op[p->nops - 1].d = 1;
    pg_op(p, P_SWITCH, A, fl, fl == LAIK_DF_Init ? LAIK_RO_Max : 0); p->op[p->nops - 1].d = 1;
    pg_op(p, P_CHECK, 0, 0, 0); p->op[p->nops - 1].d = 1;
    pg_desc(p); CTX("no transfer");
    if (!pg_valid(p)) REJECT();
}
void t03c_main(void) { pg_run(); }
void t03c_end(void) {}

// t04a: reductions under unbuffered transport, all owner sets before and after
void t04a_gen(int tier) {
    Prog* p = PG; static const int nn[] = { 3, 2, 4, 4, 5 }, NN[] = { 2, 3, 1, 2, 1 }; int c = rt_in(tier ? 5 : 3); int n = nn[c], N = NN[c];
    int m = rt_in(c == 0 && !tier ? 2 : 4); pg_mode(m == 0 ? PGM_MPI_OWNRED_RDV : m == 1 ? PGM_MPI_ASYNC_RDV : m == 2 ? PGM_MPI_SYNCOLL : PGM_MPI_RDV);
    if (c == 3 && m > 1) REJECT();
    pg_init(p, n, 1, N, 1, 1); p->types[0] = 1; int A = pg_part(p), B = pg_part(p); pg_masks(&p->part[A], N, n, 0); pg_masks(&p->part[B], N, n, 0);
    pg_op(p, P_SWITCH, A, LAIK_DF_None, 0); pg_op(p, P_WRITE, 0, 0, LAIK_RO_Sum); p->op[1].arg = 1;
    pg_op(p, P_SWITCH, B, LAIK_DF_Preserve, LAIK_RO_Sum); pg_op(p, P_CHECK, 0, 0, 0);
    pg_desc(p); CTX("reduction"); if (!pg_valid(p)) REJECT();
}
void t04a_main(void) { pg_run(); }
void t04a_end(void) {}
// t04b: copies between more processes, unbuffered, several owners, 1-3 dimensions
void t04b_gen(int tier) {
    Prog* p = PG; static const struct { int n, d, x, y, z, multi; } D[] = { { 4, 1, 3, 1, 1, 0 }, { 3, 1, 3, 1, 1, 1 }, { 3, 2, 2, 2, 1, 0 }, { 2, 3, 2, 1, 2, 1 }, { 4, 2, 2, 2, 1, 0 }, { 3, 2, 3, 2, 1, 0 }, { 3, 2, 2, 2, 1, 1 } };
    int c = rt_in(tier ? 7 : 4), n = D[c].n; int m = rt_in(c < 4 ? 2 : 1); pg_mode(m ? PGM_MPI_ASYNC_RDV : PGM_MPI_RDV);
    pg_init(p, n, D[c].d, c == 0 && !tier ? 2 : D[c].x, D[c].y, D[c].z); int N = pg_cells(p); int A = pg_part(p), B = pg_part(p); p->types[0] = 1;
    if (D[c].multi) pg_masks(&p->part[A], N, n, 1); else pg_single(&p->part[A], N, n);
    if ((c == 2 && tier) || c == 0 || c == 1 || c == 3 ) pg_masks(&p->part[B], N, n, 0); else pg_single(&p->part[B], N, n);
    int k = D[c].d == 1 && c != 1 ? rt_in(2) : 0; p->part[A].tag = k; p->part[B].tag = k ? 2 : 0; p->part[B].order = 1;
    pg_op(p, P_SWITCH, A, LAIK_DF_None, 0); pg_op(p, P_WRITE, 0, 0, 0);
    pg_op(p, P_SWITCH, B, LAIK_DF_Preserve, D[c].multi && p->dims == 1 ? LAIK_RO_Any : 0); pg_op(p, P_CHECK, 0, 0, 0);
    pg_desc(p); CTX("copies"); if (!pg_valid(p)) REJECT();
}
void t04b_main(void) { pg_run(); }
void t04b_end(void) {}
// t04c: process schedules: every order up to the preemption bound, buffered and unbuffered
void t04c_gen(int tier) {
    Prog* p = PG; int n = 2 + rt_in(2); static const int ms[] = { PGM_MPI, PGM_MPI_RDV, PGM_MPI_ASYNC, PGM_MPI_ASYNC_RDV, PGM_MPI_OWNRED, PGM_MPI_OWNRED_RDV };
    pg_mode(ms[rt_in(6)]); rt_scen->sched_points = 1; rt_scen->dev_bound = tier ? 3 : n == 2 ? 2 : 1;
    int red = rt_in(2); pg_init(p, n, 1, 2, 1, 1); p->types[0] = 1;
    int A = pg_part(p), B = pg_part(p), lo = 1; if (red) pg_masks(&p->part[A], 2, n, lo); else pg_single(&p->part[A], 2, n);
    pg_masks(&p->part[B], 2, n, 1);
    if (red) { int mx = 0; for (int i = 0; i < 2; i++) if (__builtin_popcount(p->part[A].own[i]) > 1) mx = 1; if (!mx) REJECT(); }
    if (n == 3 && !tier && (p->part[B].own[1] & 1)) REJECT();
    int r = red ? LAIK_RO_Sum : 0;
    pg_op(p, P_SWITCH, A, LAIK_DF_None, 0); pg_op(p, P_WRITE, 0, 0, LAIK_RO_Sum); p->op[1].arg = red;
    pg_op(p, P_SWITCH, B, LAIK_DF_Preserve, r); pg_op(p, P_CHECK, 0, 0, 0);
    pg_op(p, P_SWITCH, A, LAIK_DF_Preserve, LAIK_RO_Any); pg_op(p, P_CHECK, 0, 0, 0);
    pg_desc(p); CTX("schedules"); if (!pg_valid(p)) REJECT();
}
void t04c_main(void) { pg_run(); }
void t04c_end(void) {}

// T05: sequences of equivalent ways to switch between two (three) partitionings
// step kinds: 0 direct switch, 1 pre-calculated transition, 2 pre-calculated actions
static void chain(Prog* p, int A, int B, int red, int resmode, int L, int kinds) {
    // transitions: 0: A->B, 1: B->A
    int nr = p->nr; (void)nr;
    int back = 0; // flow for B->A
    for (int i = 0; i < pg_cells(p); i++) if (__builtin_popcount(p->part[B].own[i]) > 1) back = LAIK_RO_Any;
    int pre = resmode & 4; // pre-calculation happens before the first switch
    int kA = rt_in(2);
    if (resmode & 3) { pg_op(p, P_RES, 0, 0, 0); p->op[p->nops - 1].mask = (1 << A) | (1 << B); p->op[p->nops - 1].arg = (resmode & 3) != 2; }
    pg_op(p, P_SWITCH, A, LAIK_DF_None, 0); pg_op(p, P_WRITE, 0, 0, red); p->op[p->nops - 1].arg = red ? 1 : 0;
    if ((resmode & 3) == 2) { pg_op(p, P_USERES, 0, 0, 0); }
    (void)pre;
    pg_op(p, P_CALC, B, LAIK_DF_Preserve, red); p->op[p->nops - 1].part2 = A;
    pg_op(p, P_CALC, A, LAIK_DF_Preserve, back); p->op[p->nops - 1].part2 = B;
    // actions without or with the reservation given (if it is used for both)
    int aarg = (resmode & 3) == 1 && kA ? 3 : (resmode & 3) == 2 && kA ? 2 : 0;
    if (!(resmode & 3) && kA) REJECT();
    pg_op(p, P_ACALC, 0, 0, 0); p->op[p->nops - 1].arg = aarg; pg_op(p, P_ACALC, 1, 0, 0); p->op[p->nops - 1].arg = aarg;
    int cur = A;
    for (int i = 0; i < L; i++) {
        int k = rt_in(kinds); int to = cur == A ? B : A; int t = to == B ? 0 : 1;
        if (k == 0) pg_op(p, P_SWITCH, to, LAIK_DF_Preserve, t ? back : red);
        else pg_op(p, k == 1 ? P_TRANS : P_ACT, t, 0, 0);
        pg_op(p, P_CHECK, 0, 0, 0);
        if (to == A || i % 3 == 2) { pg_op(p, P_WRITE, 0, 0, red); p->op[p->nops - 1].arg = red && to == A; }
        cur = to;
    }
}
// t05a: all pairs of partitionings, all kinds of switching there and back
void t05a_gen(int tier) {
    Prog* p = PG; static const struct { int n, d, x, y, z; } D[] = { { 2, 1, 3, 1, 1 }, { 2, 2, 2, 2, 1 }, { 3, 1, 3, 1, 1 }, { 2, 1, 4, 1, 1 } };
    int c = rt_in(tier ? 4 : 2), n = D[c].n; static const int ms[] = { PGM_MPI_RDV, PGM_MPI_ASYNC_RDV, PGM_MPI, PGM_MPI_OWNRED }; pg_mode(ms[rt_in(tier ? 4 : 2)]);
    pg_init(p, n, D[c].d, D[c].x, D[c].y, D[c].z); int N = pg_cells(p); p->types[0] = 1;
    lay(p, c == 1 ? rt_in(2) * 2 : 0);
    int A = pg_part(p), B = pg_part(p); int rm = rt_in(3); p->part[A].tag = p->part[B].tag = 1 + (c == 0 ? rt_in(2) : 0);
    pg_single(&p->part[A], N, n); pg_masks(&p->part[B], N, n, 1);
    if (!tier && c == 1) for (int i = 0; i < N; i++) if (p->part[B].own[i] == 3 && i < 2) REJECT();
    chain(p, A, B, 0, rm, 3, 3);
    pg_desc(p); CTX("copies %dd res %d", D[c].d, rm); if (!pg_valid(p)) REJECT();
}
void t05a_main(void) { pg_run(); }
void t05a_end(void) {}
// t05b: reductions
void t05b_gen(int tier) {
    Prog* p = PG; int n = 2 + rt_in(2); static const int ms[] = { PGM_MPI_OWNRED_RDV, PGM_MPI, PGM_MPI_ASYNC_RDV, PGM_MPI_OWNRED }; int m = rt_in(tier ? 4 : 2); pg_mode(ms[m]);
    int two = rt_in(2); int op = rt_in(2) ? LAIK_RO_Sum : LAIK_RO_Min; if (two) pg_init(p, n, 2, 2, 2, 1); else pg_init(p, n, 1, 2, 1, 1);
    p->types[0] = two ? 7 : 1; int N = pg_cells(p); int A = pg_part(p), B = pg_part(p); int rm = rt_in(3); p->part[A].tag = p->part[B].tag = two ? 0 : 1 + rt_in(2);
    if (two) { int to = rt_in(n + 1); for (int i = 0; i < N; i++) { p->part[A].own[i] = (1 << n) - 1; p->part[B].own[i] = to == n ? (1 << n) - 1 : 1 << to; } lay(p, rt_in(3)); }
    else { pg_masks(&p->part[A], N, n, 1); pg_masks(&p->part[B], N, n, 1); if (n == 3 && !tier) { if (p->part[A].own[1] != 7 && p->part[A].own[1] != 5) REJECT(); if (p->part[B].own[1] != 2 && p->part[B].own[1] != 7) REJECT(); } }
    chain(p, A, B, op, rm, 3, 3);
    pg_desc(p); CTX("reductions %dd res %d", two + 1, rm); if (!pg_valid(p)) REJECT();
}
void t05b_main(void) { pg_run(); }
void t05b_end(void) {}
// t05c: longer sequences, reservation in use only part of the time, freed in between
static void fam2(Prog* p, int n) {
    int N = pg_cells(p);
    for (int q = 0; q < 3; q++) { int x = pg_part(p); PPart* P = &p->part[x]; P->tag = 1;
        for (int i = 0; i < N; i++) P->own[i] = q == 0 ? 1 << (i * n / N) : q == 1 ? 1 << ((i + 1) % n) | (i == 0 ? 1 : 0) : (1 << n) - 1; }
}
void t05c_gen(int tier) {
    Prog* p = PG; int n = 2 + rt_in(2); static const int ms[] = { PGM_MPI_RDV, PGM_MPI_ASYNC_RDV }; pg_mode(ms[rt_in(2)]);
    if (rt_in(2)) pg_init(p, n, 2, 3, 2, 1); else pg_init(p, n, 1, 5, 1, 1);
    fam2(p, n); int L = tier ? 5 : 4;
    pg_op(p, P_SWITCH, 0, LAIK_DF_None, 0); pg_op(p, P_WRITE, 0, 0, 0);
    int cur = 0, used = -1, nres = 0, inres = -1; int masks[8]; int freed[8] = { 0 };
    for (int i = 0; i < L; i++) {
        int k = rt_in(7);
        if (k < 3) { // switch to partitioning k
            pg_op(p, P_SWITCH, k, LAIK_DF_Preserve, cur ? LAIK_RO_Any : 0); cur = k;
            inres = used >= 0 && (masks[used] >> k & 1) ? used : -1;
        } else if (k == 3 || k == 4) { if (nres >= 2) REJECT(); pg_op(p, P_RES, 0, 0, 0); p->op[p->nops - 1].mask = masks[nres] = k == 3 ? 3 : 6; p->op[p->nops - 1].arg = 1; used = nres++; }
        else if (k == 5) { if (nres < 1 || freed[nres - 1]) REJECT(); if (inres == nres - 1) REJECT(); pg_op(p, P_FREERES, nres - 1, 0, 0); freed[nres - 1] = 1; if (used == nres - 1) used = -1; }
        else { if (nres < 1 || used == 0 || freed[0]) REJECT(); pg_op(p, P_USERES, 0, 0, 0); used = 0; }
        pg_op(p, P_CHECK, 0, 0, 0); if (i == 1) pg_op(p, P_WRITE, 0, 0, 0);
    }
    pg_desc(p); CTX("reservation changes"); if (!pg_valid(p)) REJECT();
}
void t05c_main(void) { pg_run(); }
void t05c_end(void) {}

// t06a: the same program under every mode (values are judged against the model, therefore equal)
void t06a_gen(int tier) {
    Prog* p = PG; int prog = rt_in(6), n = 1 + rt_in(tier ? 4 : 3); int m = rt_in(PGM_N + 1);
    if (m == PGM_N) { rt_setenv("LAIK_LAYOUT_GENERIC", "1"); m = PGM_MPI_ASYNC; }
    if (m == PGM_SINGLE && n > 1) REJECT();
    int two = rt_in(3); if (two == 2) pg_init(p, n, 3, 2, 2, 2); else if (two) pg_init(p, n, 2, 3, 2, 1); else pg_init(p, n, 1, 5, 1, 1);
    pg_mode(m); p->types[0] = rt_in(8); int N = pg_cells(p); if (!tier && two && p->types[0] % 3) REJECT();
    if ((tier || m == PGM_MPI) && rt_in(2)) rt_setenv("LAIK_LOG", "1"); // logging must not change anything
    int x = rt_in(n);
    for (int q = 0; q < 5; q++) { int a = pg_part(p); PPart* P = &p->part[a]; for (int i = 0; i < N; i++) P->own[i] = q == 0 ? 1 << (i * n / N) : q == 1 ? 1 << (i % n) : q == 2 ? (1 << n) - 1 : q == 3 ? 1 << x : 1 << (i * n / N) | 1 << ((i + 1) % N * n / N); if (q == 1) P->tag = 1; }
    int op = LAIK_RO_Sum; if (p->types[0] < 6 && rt_in(2)) op = LAIK_RO_Or;
    int seq[6], L = tier ? 3 : 2; (void)seq;
    if (prog < 3) { // copy sequences
        pg_op(p, P_SWITCH, prog == 0 ? 0 : prog == 1 ? 1 : 3, LAIK_DF_None, 0); pg_op(p, P_WRITE, 0, 0, 0);
        for (int i = 0; i < L; i++) { int q = rt_in(4); if (q == 3) q = 4; if (i == L - 1) q = rt_in(5); pg_op(p, P_SWITCH, q, LAIK_DF_Preserve, LAIK_RO_Any); pg_op(p, P_CHECK, 0, 0, 0); }
    } else { // reduction sequences
        pg_op(p, P_SWITCH, 2, LAIK_DF_Init, op); pg_op(p, P_WRITE, 0, 0, op); p->op[1].arg = 1; if (prog == 4) p->op[1].mask = 1;
        pg_op(p, P_SWITCH, prog == 3 && n > 1 ? 3 : 2, LAIK_DF_Preserve, op); pg_op(p, P_CHECK, 0, 0, 0);
        if (prog == 5) { pg_op(p, P_FLOW, 0, LAIK_DF_Init, op); pg_op(p, P_WRITE, 0, 0, op); p->op[p->nops - 1].arg = 1; pg_op(p, P_SWITCH, 3, LAIK_DF_Preserve, op); pg_op(p, P_CHECK, 0, 0, 0); }
        pg_op(p, P_SWITCH, rt_in(2), LAIK_DF_Preserve, LAIK_RO_Any); pg_op(p, P_CHECK, 0, 0, 0);
    }
    pg_desc(p); CTX("mode %d %dd", m, p->dims); if (!pg_valid(p)) REJECT();
}
void t06a_main(void) { pg_run(); }
void t06a_end(void) {}
// t07a: amounts transferred, all pairs
void t07a_gen(int tier) {
    Prog* p = PG; static const struct { int n, d, x, y, z, full; } D[] = { { 2, 1, 4, 1, 1, 1 }, { 3, 1, 3, 1, 1, 1 }, { 2, 2, 2, 2, 1, 1 }, { 3, 2, 2, 2, 1, 0 }, { 2, 3, 2, 2, 2, 0 }, { 2, 2, 3, 3, 1, 0 }, { 4, 1, 3, 1, 1, 1 }, { 3, 2, 3, 2, 1, 0 } };
    int c = rt_in(tier ? 8 : 5), n = D[c].n; int m = rt_in(c < 3 ? 2 : 1); pg_mode(m ? PGM_MPI_ASYNC_RDV : PGM_MPI_RDV);
    pg_init(p, n, D[c].d, D[c].x, D[c].y, D[c].z); int N = pg_cells(p); p->types[0] = (c * 3 + 1) % 8; p->checkmsgs = 1; p->org = c == 1 ? -1 : 0;
    int A = pg_part(p), B = pg_part(p); int k = rt_in(c < 3 ? 3 : 1); p->part[A].tag = k == 1; p->part[B].tag = k == 1 ? 2 : 0; if (k == 2) { p->part[A].split = p->part[B].split = 1; p->part[B].tag = 1; }
    pg_single(&p->part[A], N, n); if (D[c].full || (tier && c == 3)) pg_masks(&p->part[B], N, n, 0); else pg_single(&p->part[B], N, n);
    pg_op(p, P_SWITCH, A, LAIK_DF_None, 0); pg_op(p, P_WRITE, 0, 0, 0);
    pg_op(p, P_FLOW, 0, LAIK_DF_Preserve, 0);
    pg_op(p, P_SWITCH, B, LAIK_DF_Preserve, 0); pg_op(p, P_CHECK, 0, 0, 0);
    pg_op(p, P_SWITCH, B, LAIK_DF_None, 0);
    pg_desc(p); CTX("%dd ranges %d", D[c].d, k); if (!pg_valid(p)) REJECT();
}
void t07a_main(void) { pg_run(); }
void t07a_end(void) {}
// t07b: equal (but different) partitionings, pre-calculated transitions, sequences
void t07b_gen(int tier) {
    Prog* p = PG; int n = 2 + rt_in(2); pg_mode(rt_in(2) ? PGM_MPI_ASYNC_RDV : PGM_MPI_RDV); int two = rt_in(2); if (two) pg_init(p, n, 2, 3, 2, 1); else pg_init(p, n, 1, 5, 1, 1);
    int N = pg_cells(p); p->checkmsgs = 1;
    for (int q = 0; q < 5; q++) { int a = pg_part(p); PPart* P = &p->part[a]; for (int i = 0; i < N; i++) P->own[i] = q < 2 ? 1 << (i * n / N) : q == 2 ? 1 << (i % n) : q == 3 ? 1 << (n - 1) : 1 << ((N - 1 - i) * n / N); P->tag = q == 2; if (q == 1) { P->tag = 1; } }
    int L = tier ? 5 : 4, cur = 0; pg_op(p, P_SWITCH, 0, LAIK_DF_None, 0); pg_op(p, P_WRITE, 0, 0, 0);
    for (int i = 0; i < L; i++) { int q = rt_in(5), k = rt_in(2);
        if (k) { pg_op(p, P_CALC, q, LAIK_DF_Preserve, 0); p->op[p->nops - 1].part2 = cur; int tn = 0; for (int j = 0; j < p->nops; j++) tn += p->op[j].op == P_CALC; pg_op(p, P_TRANS, tn - 1, 0, 0); }
        else pg_op(p, P_SWITCH, q, LAIK_DF_Preserve, 0);
        pg_op(p, P_CHECK, 0, 0, 0); cur = q; }
    pg_desc(p); CTX("sequence"); if (!pg_valid(p)) REJECT();
}
void t07b_main(void) { pg_run(); }
void t07b_end(void) {}
