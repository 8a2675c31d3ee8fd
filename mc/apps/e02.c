// E02: data exchange over the dynamic TCP backend
#include "prog.h"
#include "tcp2.h"
// ---- e02a: schedules and fragmentations of the data phase
// deviations are spent after the first process has left startup
static int fr;
static int e02_start(Prog* p, int k) { (void)p; (void)k; rt_scen->sched_points = 1; tcp2_frag(fr); return 0; }
void e02a_gen(int tier) {
    Prog* p = PG; int n = 2 + rt_in(2); int f = rt_in(5), text = rt_in(2);
    tcp2_scen(n, n, n == 2 ? 2 + tier : 1 + tier); rt_scen->sched_points = 0; if (text) rt_setenv("LAIK_TCP2_BIN", "0");
    if (n == 3 && f == 0 && !text && !tier) rt_scen->dev_bound = 2;
    if (n == 2 && f == 0 && !text && !tier) rt_scen->dev_bound = 3;
    fr = f;
    pg_init(p, n, 1, 2, 1, 1); p->types[0] = 1;
    int cap = rt_in(2); if (cap && (f == 1 || f == 4)) REJECT(); rt_scen->sock_cap = cap ? 40 : 0;
    int red = rt_in(2); int A = pg_part(p), B = pg_part(p);
    if (red) pg_masks(&p->part[A], 2, n, 1); else pg_single(&p->part[A], 2, n);
    pg_masks(&p->part[B], 2, n, 1);
    if (red) { int mx = 0; for (int i = 0; i < 2; i++) if (__builtin_popcount(p->part[A].own[i]) > 1) mx = 1; if (!mx) REJECT(); }
    if (!tier) { // second index: representative owners
        if (n == 3 && (text || cap) && (f == 3 || f == 4)) REJECT();
        if (n == 3 && ((f != 0 && p->part[B].own[1] != 5) || (p->part[A].own[1] != (red ? 7 : 2)))) REJECT();
        if (red && p->part[A].own[1] != (1 << n) - 1) REJECT();
        if (n == 2 && f == 4 && (text || p->part[B].own[1] != 3)) REJECT();
    } else if (n == 3 && p->part[A].own[1] != (red ? 7 : 2)) REJECT();
    int r = red ? LAIK_RO_Sum : 0;
    pg_op(p, P_SWITCH, A, LAIK_DF_None, 0); pg_op(p, P_WRITE, 0, 0, LAIK_RO_Sum); p->op[1].arg = red;
    pg_op(p, P_SWITCH, B, LAIK_DF_Preserve, r); pg_op(p, P_CHECK, 0, 0, 0);
    if (tier || n == 2) { pg_op(p, P_SWITCH, A, LAIK_DF_Preserve, LAIK_RO_Any); pg_op(p, P_CHECK, 0, 0, 0); }
    DESC("%s, fragmentation %d, capacity %d, deviations %d, ", text ? "text" : "binary", f, rt_scen->sock_cap, rt_scen->dev_bound);
    pg_desc(p); CTX("%s exchange%s", text ? "text" : "binary", red ? " reduction" : ""); if (!pg_valid(p)) REJECT();
}
void e02a_main(void) { pg_hook = e02_start; pg_run(); }
void e02a_end(void) {}

// ---- e02b: sizes around the buffer limits, element sizes, fragments
typedef struct { int n, es, dims, c[3], text, ro, rep, pos; } B;
#define SB ((B*)rt_shared)
static void part_b(Laik_RangeReceiver* rr, Laik_PartitionerParams* pp) {
    int to = *(int*)laik_partitioner_data(pp->partitioner);
    if (to < 2) laik_append_range(rr, to, laik_space_asrange(pp->space), 0, 0);
    else for (int i = 0; i < 2; i++) laik_append_range(rr, i, laik_space_asrange(pp->space), 0, 0);
}
static unsigned char bval(int64_t e, int b, int rep) { return (e * 131 + b * 29 + (e >> 7) * 3 + rep * 57 + 1) & 255; }
void e02b_gen(int tier) {
    B* b = SB; tcp2_scen(2, 2, 0); rt_scen->sched_points = 0;
    static const int ES[] = { 8, 1, 4, 24, 100, 1000, 2690, 4096, 8188, 8189 }, TS[] = { 8, 1, 1000, 2690 };
    b->text = rt_in(2); if (b->text) rt_setenv("LAIK_TCP2_BIN", "0");
    b->es = b->text ? TS[rt_in(tier ? 4 : 3)] : ES[rt_in(tier ? 10 : 9)];
    int full = 8189 / b->es; // elements per binary message
    int k = rt_in(tier ? 40 : 12); int m = b->text ? 1 : full;
    // sizes: 1.., and around multiples of the message size
    int half = tier ? 20 : 6;
    if (k < half) b->n = k + 1; else b->n = m * (1 + (k - half) / 5) + (k - half) % 5 - 2;
    if (tier && k >= half && b->es == 1 && !b->text) b->n = m * (1 + (k - half) / 7) + (k - half) % 7 - 3;
    if (b->n < 1 || b->n > 30000 || (b->text && (long)b->n * b->es > 60000)) REJECT();
    static const int CH[] = { 0, 7, 1, 3, 1460, 4096, 8000, 8191, 8192 };
    rt_scen->sock_chunk = CH[rt_in(tier ? 9 : 5)];
    static const int CA[] = { 0, 40, 8192, 5000 }; int ca = rt_in(tier ? 4 : 2); rt_scen->sock_cap = CA[ca];
    if (b->text && b->es >= 1000 && rt_scen->sock_chunk && rt_scen->sock_chunk < 100 && (b->n > 2 || b->es > 1000)) REJECT();
    if ((rt_scen->sock_chunk == 1 || ca == 1) && (long)b->n * b->es > 12000 && !(k == half || k == half + 3)) REJECT();
    b->dims = 1 + (b->es <= 8 ? rt_in(2) * 1 : 0); if (b->dims == 2 && b->n % 3) REJECT();
    b->ro = b->es == 8 && !b->text ? rt_in(2) : 0;
    b->rep = 2;
    DESC("%d elements of %d bytes (%dd), %s, reads %d, capacity %d%s", b->n, b->es, b->dims, b->text ? "text" : "binary", rt_scen->sock_chunk, rt_scen->sock_cap, b->ro ? ", sum" : "");
    CTX("large messages %s", b->text ? "text" : "binary");
}
static void each(Laik_Data* d, int n, int es, int dims, int rep, int write, int me, int ro, const char* when) {
    for (int e = 0; e < n; e++) {
        Laik_Index ix = { { dims == 2 ? e % (n / 3) : e, dims == 2 ? e / (n / 3) : 0, 0 } };
        unsigned char* a = (unsigned char*)laik_get_map_addr(d, 0, &ix);
        if (e % 97 == 0) RT_CHECK(a && rt_mem_ok(a, es) != 0, "address-invalid", "%s: element %d outside of live memory", when, e);
        if (ro) { int64_t v = (int64_t)e * 1000003 + rep * 77; if (write) { v += me * 12345; memcpy(a, &v, 8); } else { int64_t g; memcpy(&g, a, 8); v = 2 * v + 12345; RT_CHECK(g == v, "value", "%s: element %d is %ld instead of %ld", when, e, (long)g, (long)v); } continue; }
        if (write) for (int j = 0; j < es; j++) a[j] = bval(e, j, rep);
        else for (int j = 0; j < es; j++) RT_CHECK(a[j] == bval(e, j, rep), "value", "%s: byte %d of element %d is %d instead of %d", when, j, e, a[j], bval(e, j, rep));
    }
    rt_count(RTC_EVAL, n);
}
void e02b_main(void) {
    B* b = SB; Laik_Instance* inst = app_init(); Laik_Group* w = laik_world(inst); int me = laik_myid(w);
    Laik_Space* sp = b->dims == 1 ? laik_new_space_1d(inst, b->n) : laik_new_space_2d(inst, b->n / 3, 3);
    Laik_Type* t = b->ro ? laik_Int64 : laik_type_register("blob", b->es);
    Laik_Data* d = laik_new_data(sp, t);
    static const int to[4] = { 0, 1, 2, 0 }; Laik_Partitioning* p[3];
    for (int i = 0; i < 3; i++) p[i] = laik_new_partitioning(laik_new_partitioner("e02b", part_b, (void*)&to[i], 0), w, sp, 0);
    for (int rep = 0; rep < b->rep; rep++) {
        if (b->ro) {
            laik_switchto_partitioning(d, p[2], LAIK_DF_None, LAIK_RO_None); each(d, b->n, b->es, b->dims, rep, 1, me, 1, "");
            laik_switchto_partitioning(d, p[rep], LAIK_DF_Preserve, LAIK_RO_Sum);
            if (me == rep) each(d, b->n, b->es, b->dims, rep, 0, me, 1, "after reduction");
            continue;
        }
        laik_switchto_partitioning(d, p[rep & 1], LAIK_DF_None, LAIK_RO_None); if (me == (rep & 1)) each(d, b->n, b->es, b->dims, rep, 1, me, 0, "");
        laik_switchto_partitioning(d, p[2], LAIK_DF_Preserve, LAIK_RO_None); each(d, b->n, b->es, b->dims, rep, 0, me, 0, "after copy to all");
        laik_switchto_partitioning(d, p[!(rep & 1)], LAIK_DF_Preserve, LAIK_RO_Any); if (me != (rep & 1)) each(d, b->n, b->es, b->dims, rep, 0, me, 0, "after move");
        laik_switchto_partitioning(d, p[rep & 1], LAIK_DF_Preserve, LAIK_RO_None); if (me == (rep & 1)) each(d, b->n, b->es, b->dims, rep, 0, me, 0, "after move back");
    }
    rt_event(0x77); laik_finalize(inst);
}
void e02b_end(void) {}
