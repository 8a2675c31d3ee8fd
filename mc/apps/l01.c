// L01: messages and collective operations of the mini-MPI below the legacy
// TCP backend: every message arrives exactly once, in order per flow and
// intact; collectives deliver the defined result; nobody hangs or fails.
// Threads of all processes are scheduled by the explorer.
#ifdef VARIANT_TCP
#include "tcp.h"
#include "backends/tcp/minimpi.h"
enum { O_P2P, O_BCAST, O_REDUCE, O_ALLRED, O_BARRIER, O_XTAG, O_DUP, O_SPLIT, O_N };
typedef struct { int op, a, b, n, c; } Op;   // c: communicator used
typedef struct { int n, R, L, cfg; Op op[8]; int done; int ent[8]; } Sh;
#define S ((Sh*)rt_shared)
static void genop(Op* o, int R, int full) {
    o->op = rt_in(full ? O_N : O_XTAG);
    o->a = o->b = o->n = o->c = 0;
    switch (o->op) {
    case O_P2P: o->a = rt_in(R); o->b = (o->a + 1 + rt_in(R - 1)) % R; o->n = rt_in(2) ? 2 : 0; break;
    case O_BCAST: o->a = rt_in(R); o->n = 1; break;
    case O_REDUCE: o->a = rt_in(R); o->b = rt_in(2); o->n = 2; break; // b: in place
    case O_ALLRED: o->b = rt_in(2); o->n = 1; break;
    case O_XTAG: o->a = rt_in(R); o->b = (o->a + 1 + rt_in(R - 1)) % R; o->n = 1; break;
    }
}
static void l01_gen(int tier) {
    memset(S, 0, sizeof *S);
    int R = rt_in_range(2, 3), L = R == 2 ? 2 + tier : 1 + tier;
    S->R = R; S->L = L; S->cfg = rt_in(RT_TCP_CONFIGS);
    for (int i = 0; i < L; i++) { genop(&S->op[i], R, 1); if (S->op[i].op == O_XTAG && (S->cfg == 2 || S->cfg == 3 || S->cfg == 5 || S->cfg == 6)) REJECT();
        if (S->op[i].op >= O_DUP) REJECT(); }
    tcp_scen(R, S->cfg, 1);
    static const char* on[] = { "p2p", "bcast", "reduce", "allreduce", "barrier", "crossed tags", "dup", "split" };
    DESC("%d processes, config '%s':", R, rt_tcp_config_name(S->cfg));
    for (int i = 0; i < L; i++) DESC(" %s(%d,%d,n%d)", on[S->op[i].op], S->op[i].a, S->op[i].b, S->op[i].n);
    CTX("%s", rt_tcp_config_name(S->cfg));
}
#define OK(x, what) do { int e_ = (x); if (e_ != LAIK_TCP_MINIMPI_SUCCESS) { char s_[2000]; int l_; laik_tcp_minimpi_error_string(e_, s_, &l_); \
    for (char* q_ = s_; *q_; q_++) if (*q_ == '\n') *q_ = ' '; rt_fail("l01:error:" what, "%s failed: %s", what, s_); } } while (0)
static int64_t val(int op, int rank, int i) { return (op + 1) * 1000 + rank * 100 + i * 7 + 3; }
static void chk(int64_t* b, int n, int op, int rank, const char* what) {
    for (int i = 0; i < n; i++) RT_CHECK(b[i] == val(op, rank, i), "l01:value", "operation %d (%s): element %d is %ld, expected %ld", op, what, i, (long)b[i], (long)val(op, rank, i));
    rt_count(RTC_EVAL, n + 1);
}
static void run_op(int i, Op* o, Laik_Tcp_MiniMpiComm* cm, int me, int R) {
    int64_t b[4], c[4]; Laik_Tcp_MiniMpiStatus st; int cnt;
    switch (o->op) {
    case O_P2P:
        if (me == o->a) { for (int k = 0; k < o->n; k++) b[k] = val(i, me, k); OK(laik_tcp_minimpi_send(b, o->n, LAIK_TCP_MINIMPI_INT64, o->b, 1, cm), "send"); memset(b, 0x77, sizeof b); }
        else if (me == o->b) {
            OK(laik_tcp_minimpi_recv(b, 4, LAIK_TCP_MINIMPI_INT64, o->a, 1, cm, &st), "recv");
            OK(laik_tcp_minimpi_get_count(&st, LAIK_TCP_MINIMPI_INT64, &cnt), "count");
            RT_CHECK(cnt == o->n, "l01:count", "operation %d: received %d elements, expected %d", i, cnt, o->n);
            chk(b, cnt, i, o->a, "recv");
        } break;
    case O_XTAG:
        if (me == o->a) for (int t = 0; t < 2; t++) { b[0] = val(i, me, t); OK(laik_tcp_minimpi_send(b, 1, LAIK_TCP_MINIMPI_INT64, o->b, 10 + t, cm), "send"); }
        else if (me == o->b) for (int t = 1; t >= 0; t--) {
            OK(laik_tcp_minimpi_recv(b, 1, LAIK_TCP_MINIMPI_INT64, o->a, 10 + t, cm, &st), "recv");
            RT_CHECK(b[0] == val(i, o->a, t), "l01:value", "operation %d: wrong message for tag %d", i, t);
        } break;
    case O_BCAST:
        b[0] = me == o->a ? val(i, me, 0) : 0;
        OK(laik_tcp_minimpi_bcast(b, 1, LAIK_TCP_MINIMPI_INT64, o->a, cm), "bcast"); chk(b, 1, i, o->a, "bcast"); break;
    case O_REDUCE: case O_ALLRED: {
        for (int k = 0; k < o->n; k++) { b[k] = val(i, me, k); c[k] = 0x5555; }
        if (o->op == O_REDUCE) {
            if (o->b && me == o->a) { memcpy(c, b, sizeof b); OK(laik_tcp_minimpi_reduce(LAIK_TCP_MINIMPI_IN_PLACE, c, o->n, LAIK_TCP_MINIMPI_INT64, LAIK_TCP_MINIMPI_SUM, o->a, cm), "reduce"); }
            else OK(laik_tcp_minimpi_reduce(b, c, o->n, LAIK_TCP_MINIMPI_INT64, LAIK_TCP_MINIMPI_SUM, o->a, cm), "reduce");
            if (me != o->a) break;
        } else if (o->b) { memcpy(c, b, sizeof b); OK(laik_tcp_minimpi_allreduce(LAIK_TCP_MINIMPI_IN_PLACE, c, o->n, LAIK_TCP_MINIMPI_INT64, LAIK_TCP_MINIMPI_SUM, cm), "allreduce"); }
        else OK(laik_tcp_minimpi_allreduce(b, c, o->n, LAIK_TCP_MINIMPI_INT64, LAIK_TCP_MINIMPI_SUM, cm), "allreduce");
        for (int k = 0; k < o->n; k++) { int64_t s = 0; for (int r = 0; r < R; r++) s += val(i, r, k);
            RT_CHECK(c[k] == s, "l01:reduce", "operation %d: reduction gives %ld, expected %ld", i, (long)c[k], (long)s); rt_count(RTC_EVAL, 1); }
        } break;
    case O_BARRIER:
        S->ent[i]++;
        OK(laik_tcp_minimpi_barrier(cm), "barrier");
        RT_CHECK(S->ent[i] == R, "l01:barrier", "operation %d: barrier left when only %d of %d entered it", i, S->ent[i], R); rt_count(RTC_EVAL, 1);
        break;
    }
}
static void l01_main(void) {
    int me, R;
    OK(laik_tcp_minimpi_init(0, 0), "init");
    Laik_Tcp_MiniMpiComm* w = LAIK_TCP_MINIMPI_COMM_WORLD;
    OK(laik_tcp_minimpi_comm_rank(w, &me), "rank"); OK(laik_tcp_minimpi_comm_size(w, &R), "size");
    RT_CHECK(R == S->R && me >= 0 && me < R, "l01:rank", "rank %d of %d", me, R);
    for (int i = 0; i < S->L; i++) run_op(i, &S->op[i], w, me, R);
    OK(laik_tcp_minimpi_finalize(), "finalize");
    RT_CHECK(rt_open_fds(rt_rank()) == 0, "l01:fds", "%d file descriptors left open", rt_open_fds(rt_rank()));
    S->done++;
}
void l01a_gen(int t) { l01_gen(t); }
void l01a_main(void) { l01_main(); }
void l01a_end(void) {}
// ---- l01b: derived communicators; messages stay within theirs, in any order
// of use of communicators having members in common
typedef struct { int kind, par, col[4], hint[4], list[4], ln; } Der;
typedef struct { int n, cfg, R, nd; Der d[3]; int mem[4][4], ms[4]; int x; } CB; // communicator 0: world; mem: world ranks
#define SC ((CB*)rt_shared)
static int rankof(CB* s, int c, int w) { for (int i = 0; i < s->ms[c]; i++) if (s->mem[c][i] == w) return i; return -1; }
static int colour(CB* s, Der* d, int w) { return d->col[w]; }
// members of derived communicator <k> as seen by process w (colours give different ones)
static int members(CB* s, int k, int w, int* out) {
    if (k == 0) { for (int i = 0; i < s->R; i++) out[i] = i; return s->R; }
    Der* d = &s->d[k - 1]; int p[4], n = members(s, d->par, w, p), m = 0;
    if (d->kind == 0) { memcpy(out, p, sizeof p); return n; }
    if (d->kind == 2) { int in = 0; for (int i = 0; i < d->ln; i++) if (d->list[i] == w) in = 1; if (!in) return 0; memcpy(out, d->list, sizeof p); return d->ln; }
    int in = 0; for (int i = 0; i < n; i++) if (p[i] == w) in = 1;
    if (!in || d->col[w] < 0) return 0;
    for (int i = 0; i < n; i++) if (d->col[p[i]] == d->col[w]) out[m++] = p[i];
    for (int i = 1; i < m; i++) for (int j = i; j > 0 && d->hint[out[j - 1]] > d->hint[out[j]]; j--) { int t = out[j]; out[j] = out[j - 1]; out[j - 1] = t; }
    return m;
}
void l01b_gen(int tier) {
    CB* s = SC; memset(s, 0, sizeof *s); s->R = rt_in_range(2, 3); static const int CF[] = { 0, 5, 7, 3 }; s->cfg = CF[rt_in(tier ? 4 : 2)]; s->nd = 2;
    int dev = 1; tcp_scen(s->R, s->cfg, dev); DESC("%d processes, config '%s'", s->R, rt_tcp_config_name(s->cfg)); CTX("communicators");
    for (int k = 0; k < s->nd; k++) {
        Der* d = &s->d[k]; d->par = rt_in(k + 1); d->kind = rt_in(3); DESC(", %d: ", k + 1);
        if (d->kind == 0) DESC("duplicate of %d", d->par);
        else if (d->kind == 1) {
            int h = rt_in(s->R == 2 || tier ? 3 : 2); DESC("split of %d", d->par);
            for (int w = 0; w < s->R; w++) { d->col[w] = rt_in(s->R == 2 || tier ? 3 : 2) - 1; if (s->R == 3 && !tier && d->col[w] >= 0) d->col[w] = 1; d->hint[w] = h == 0 ? 0 : h == 1 ? -w : w == 0 ? 2147483647 : w == 1 ? -2147483647 - 1 : 0; DESC(" %d/%d", d->col[w], d->hint[w]); }
        } else { // any ordered list of members
            d->par = 0; int m = 1 + rt_in((1 << s->R) - 1), o = rt_in(2); for (int w = 0; w < s->R; w++) { int v = o ? s->R - 1 - w : w; if ((m >> v) & 1) d->list[d->ln++] = v; }
            if (o && d->ln < 2) REJECT(); DESC("created of"); for (int i = 0; i < d->ln; i++) DESC(" %d", d->list[i]);
        }
    }
    s->x = rt_in(2); DESC(s->x ? ", interleaved sums" : ", crossed messages");
    if (!s->x && (s->cfg == 5 || s->cfg == 3)) REJECT(); // may block, as with MPI
    // schedules: default one for permuted ranks and processes staying out
    for (int k = 0; k < s->nd; k++) for (int w = 0; w < s->R; w++) if (s->d[k].hint[w] || s->d[k].col[w] < 0 || (s->R == 3 && (!tier || s->d[k].col[w] > 0 || s->d[k].ln == 2))) dev = 0;
    rt_scen->dev_bound = dev;
}
static void l01b_msgs(CB* s, Laik_Tcp_MiniMpiComm** cm, int me) {
    Laik_Tcp_MiniMpiStatus st; int64_t v; int p[4];
    for (int a = 0; a < s->R; a++) for (int b = 0; b < s->R; b++) if (a != b) {
        if (me == a) for (int k = 0; k <= s->nd; k++) { int n = members(s, k, me, p), i; for (i = 0; i < n && p[i] != b; i++) ; if (i < n) { v = 1000 * k + 10 * a + b; OK(laik_tcp_minimpi_send(&v, 1, LAIK_TCP_MINIMPI_INT64, i, 1, cm[k]), "send"); } }
        if (me == b) for (int k = s->nd; k >= 0; k--) { int n = members(s, k, me, p), i; for (i = 0; i < n && p[i] != a; i++) ; if (i < n) {
            OK(laik_tcp_minimpi_recv(&v, 1, LAIK_TCP_MINIMPI_INT64, i, 1, cm[k], &st), "recv");
            RT_CHECK(v == 1000 * k + 10 * a + b, "l01:value", "communicator %d: got message %ld from process %d", k, (long)v, a); rt_count(RTC_EVAL, 1); } }
    }
}
static void l01b_sums(CB* s, Laik_Tcp_MiniMpiComm** cm, int me) {
    int p[4]; int64_t v, r;
    for (int k = s->nd; k >= 0; k--) { int n = members(s, k, me, p); if (!n) continue;
        v = (int64_t)(k + 1) << (8 * me); r = 0; for (int i = 0; i < n; i++) r += (int64_t)(k + 1) << (8 * p[i]);
        int64_t o = 0; OK(laik_tcp_minimpi_allreduce(&v, &o, 1, LAIK_TCP_MINIMPI_INT64, LAIK_TCP_MINIMPI_SUM, cm[k]), "allreduce");
        RT_CHECK(o == r, "l01:reduce", "communicator %d: sum is %lx instead of %lx", k, (long)o, (long)r); rt_count(RTC_EVAL, 1);
        int64_t bc = me == p[n - 1] ? 5 + k : 0; OK(laik_tcp_minimpi_bcast(&bc, 1, LAIK_TCP_MINIMPI_INT64, n - 1, cm[k]), "bcast");
        RT_CHECK(bc == 5 + k, "l01:value", "communicator %d: broadcast gives %ld", k, (long)bc); rt_count(RTC_EVAL, 1);
    }
}
void l01b_main(void) {
    CB* s = SC; int me, n, p[4]; Laik_Tcp_MiniMpiComm* cm[4] = { 0 };
    OK(laik_tcp_minimpi_init(0, 0), "init"); cm[0] = LAIK_TCP_MINIMPI_COMM_WORLD; OK(laik_tcp_minimpi_comm_rank(cm[0], &me), "rank");
    for (int k = 1; k <= s->nd; k++) { Der* d = &s->d[k - 1];
        if (d->kind == 2) { if (members(s, k, me, p)) OK(laik_tcp_minimpi_comm_create(cm[0], d->list, d->ln, &cm[k]), "create"); }
        else if (members(s, d->par, me, p)) {
            if (d->kind == 0) OK(laik_tcp_minimpi_comm_dup(cm[d->par], &cm[k]), "dup");
            else OK(laik_tcp_minimpi_comm_split(cm[d->par], d->col[me] < 0 ? LAIK_TCP_MINIMPI_UNDEFINED : d->col[me], d->hint[me], &cm[k]), "split");
        }
    }
    for (int k = 0; k <= s->nd; k++) { int m = members(s, k, me, p); if (!m) continue; int r;
        OK(laik_tcp_minimpi_comm_rank(cm[k], &r), "rank"); OK(laik_tcp_minimpi_comm_size(cm[k], &n), "size");
        RT_CHECK(n == m, "l01:size", "communicator %d has %d members instead of %d", k, n, m);
        RT_CHECK(r >= 0 && r < n && p[r] == me, "l01:rank", "communicator %d: process %d has rank %d", k, me, r); rt_count(RTC_EVAL, 2); }
    if (s->x) l01b_sums(s, cm, me); else l01b_msgs(s, cm, me);
    OK(laik_tcp_minimpi_finalize(), "finalize");
    RT_CHECK(rt_open_fds(rt_rank()) == 0, "l01:fds", "%d file descriptors left open", rt_open_fds(rt_rank()));
}
void l01b_end(void) {}
// ---- l01c: contents and sizes of messages, cut anywhere on the way
typedef struct { int n, cfg, sz[3], op; } FR;
#define SF ((FR*)rt_shared)
void l01c_gen(int tier) {
    FR* s = SF; memset(s, 0, sizeof *s); static const int SZ[] = { 0, 1, 7, 8, 9, 100, 5000, 70000 }; s->n = 2;
    s->cfg = rt_in(RT_TCP_CONFIGS); int f = rt_in(6); s->op = rt_in(3); int z = tier ? 8 : 6;
    tcp_scen(2, s->cfg, f >= 3 ? 1 : 0);
    rt_scen->sock_chunk = f == 1 ? 1 : f == 2 ? 7 : f == 3 ? -60 : 0; if (f == 4) rt_scen->sock_opts |= 2; if (f == 5) { rt_scen->sock_cap = 40; rt_scen->dev_bound = 0; }
    for (int i = 0; i < 2 + (f < 3); i++) s->sz[i] = SZ[rt_in(f >= 3 && !tier ? 4 : z)];
    rt_scen->maxmem = 1L << 40;
    static const char* O[] = { "messages", "broadcasts", "sums" }; DESC("2 processes, config '%s', fragmentation %d, %s of %d, %d, %d bytes", rt_tcp_config_name(s->cfg), f, O[s->op], s->sz[0], s->sz[1], s->sz[2]); CTX("sizes");
}
static uint8_t fb(int i, int k, int r) { return (uint8_t)(i * 57 + k * 31 + (k >> 8) * 7 + r * 3 + 1); }
void l01c_main(void) {
    FR* s = SF; int me; static uint8_t b[80000], o[80000]; Laik_Tcp_MiniMpiComm* w; Laik_Tcp_MiniMpiStatus st;
    OK(laik_tcp_minimpi_init(0, 0), "init"); w = LAIK_TCP_MINIMPI_COMM_WORLD; OK(laik_tcp_minimpi_comm_rank(w, &me), "rank");
    for (int i = 0; i < 3; i++) { int n = s->sz[i]; memset(b, 0xEE, n + 10); memset(o, 0xEE, n + 10);
        if (s->op == 0) {
            if (me == i % 2) { for (int k = 0; k < n; k++) b[k] = fb(i, k, me); OK(laik_tcp_minimpi_send(b, n, LAIK_TCP_MINIMPI_UINT8, !me, 3, w), "send"); memset(b, 0x11, n); }
            else { int c; OK(laik_tcp_minimpi_recv(b, n + 5, LAIK_TCP_MINIMPI_UINT8, !me, 3, w, &st), "recv"); OK(laik_tcp_minimpi_get_count(&st, LAIK_TCP_MINIMPI_UINT8, &c), "count");
                RT_CHECK(c == n, "l01:count", "message %d: %d instead of %d bytes", i, c, n); for (int k = 0; k < n; k++) RT_CHECK(b[k] == fb(i, k, !me), "l01:value", "message %d: byte %d is %d", i, k, b[k]);
                for (int k = n; k < n + 10; k++) RT_CHECK(b[k] == 0xEE, "l01:overflow", "message %d: byte %d behind message written", i, k - n); }
        } else if (s->op == 1) {
            if (me == i % 2) for (int k = 0; k < n; k++) b[k] = fb(i, k, me);
            OK(laik_tcp_minimpi_bcast(b, n, LAIK_TCP_MINIMPI_INT8, i % 2, w), "bcast"); for (int k = 0; k < n; k++) RT_CHECK(b[k] == fb(i, k, i % 2), "l01:value", "broadcast %d: byte %d is %d", i, k, b[k]);
            RT_CHECK(b[n] == 0xEE, "l01:overflow", "broadcast %d: byte behind message written", i);
        } else {
            for (int k = 0; k < n; k++) b[k] = fb(i, k, me);
            OK(laik_tcp_minimpi_allreduce(b, o, n, LAIK_TCP_MINIMPI_UINT8, LAIK_TCP_MINIMPI_SUM, w), "allreduce");
            for (int k = 0; k < n; k++) RT_CHECK(o[k] == (uint8_t)(fb(i, k, 0) + fb(i, k, 1)), "l01:reduce", "sum %d: byte %d is %d", i, k, o[k]); RT_CHECK(o[n] == 0xEE, "l01:overflow", "sum %d: byte behind message written", i);
        }
        rt_count(RTC_EVAL, n + 1);
    }
    OK(laik_tcp_minimpi_finalize(), "finalize");
}
void l01c_end(void) {}
// ---- l02a: data programs, all schedules of the threads during the exchange
#include "prog.h"
static int l02_start(Prog* p, int k) { (void)p; (void)k; rt_scen->sched_points = 1; return 0; }
void l02a_gen(int tier) {
    Prog* p = PG; int n = 2 + rt_in(2), cfg = rt_in(RT_TCP_CONFIGS), own = rt_in(2);
    tcp_scen(n, cfg, 1); rt_scen->sched_points = 0; if (own) rt_setenv("LAIK_TCP_REDUCE", "0");
    pg_init(p, n, 1, 2, 1, 1); p->types[0] = 1;
    int red = rt_in(2); int A = pg_part(p), B = pg_part(p); if (own && (!red || (!tier && cfg != 0 && cfg != 5))) REJECT(); if (!tier && (cfg == 1 || cfg == 2 || cfg == 6) && red) REJECT();
    if (red) pg_masks(&p->part[A], 2, n, 1); else pg_single(&p->part[A], 2, n);
    pg_masks(&p->part[B], 2, n, 1);
    if (red) { int mx = 0; for (int i = 0; i < 2; i++) if (__builtin_popcount(p->part[A].own[i]) > 1) mx = 1; if (!mx) REJECT(); }
    if (n == 3 && (p->part[A].own[1] != (red ? 7 : 2) || (!tier && p->part[B].own[1] != 5))) REJECT();
    if (!tier && n == 3 && cfg != 0 && cfg != 5 && cfg != 7) REJECT();
    int r = red ? LAIK_RO_Sum : 0;
    pg_op(p, P_SWITCH, A, LAIK_DF_None, 0); pg_op(p, P_WRITE, 0, 0, LAIK_RO_Sum); p->op[1].arg = red;
    pg_op(p, P_SWITCH, B, LAIK_DF_Preserve, r); pg_op(p, P_CHECK, 0, 0, 0);
    if (tier || n == 2) { pg_op(p, P_SWITCH, A, LAIK_DF_Preserve, LAIK_RO_Any); pg_op(p, P_CHECK, 0, 0, 0); }
    DESC("config '%s'%s, ", rt_tcp_config_name(cfg), own ? ", own reduction" : ""); pg_desc(p); CTX("exchange%s", red ? " reduction" : ""); if (!pg_valid(p)) REJECT();
}
void l02a_main(void) { pg_hook = l02_start; pg_run(); }
void l02a_end(void) {}
#endif
