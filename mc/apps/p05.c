// P05: ranges kept for the own process or intersecting own ranges only, against all ranges
#include "part.h"
#include <stdarg.h>
#include "prog.h"
#define MC_ 8
typedef struct { int n, nt, split, tag, order; int own[2][MC_]; } S;
#define SH ((S*)rt_shared)
static const S* cs; static int64_t ORG, STR;
static void runp(Laik_RangeReceiver* rr, Laik_PartitionerParams* pp) {
    const S* s = cs; int which = (int)(uintptr_t)laik_partitioner_data(pp->partitioner);
    for (int k = 0; k < s->nt; k++) {
        int t = s->order ? s->nt - 1 - k : k; struct { int a, b; } r[MC_]; int c = 0;
        for (int i = 0; i < s->n; i++) if (s->own[which][i] >> t & 1) { if (c && !s->split && r[c - 1].b == i) r[c - 1].b++; else { r[c].a = i; r[c++].b = i + 1; } }
        for (int j = 0; j < c; j++) { int x = s->order ? c - 1 - j : j; if (s->split == 2) { laik_append_index_1d(rr, t, ORG + r[x].a); continue; }
            Laik_Range g; laik_range_init_1d(&g, pp->space, ORG + STR * r[x].a, ORG + STR * r[x].b); laik_append_range(rr, t, &g, s->tag == 0 ? 0 : s->tag == 1 ? 1 : s->tag == 2 ? c - x : x % 2 + 1, 0); }
    }
}
static Laik_Partitioner* pr[2];
typedef struct { int lo[2], hi[2]; } X2;
static char* put(char* b, const char* f, ...) { va_list a; va_start(a, f); b += vsprintf(b, f, a); va_end(a); return b; }
// the actions of a transition, index by index
static void expand(Laik_Transition* t, const S* s, char* out) {
    char* b = out; *b = 0; if (!t) { strcpy(out, "none"); return; }
    int N = s->n;
    for (int i = 0; i < N; i++) {
        int64_t x = ORG + STR * i; b = put(b, "%d:", i);
#define IN(r) ((r).from.i[0] <= x && x < (r).to.i[0])
        for (int k = 0; k < t->localCount; k++) if (IN(t->local[k].range)) b = put(b, " local %d.%d>%d.%d", t->local[k].fromMapNo, t->local[k].fromRangeNo, t->local[k].toMapNo, t->local[k].toRangeNo);
        for (int k = 0; k < t->initCount; k++) if (IN(t->init[k].range)) b = put(b, " init %d.%d %d", t->init[k].mapNo, t->init[k].rangeNo, t->init[k].redOp);
        for (int to = 0; to < s->nt; to++) for (int k = 0; k < t->sendCount; k++) if (t->send[k].toTask == to && IN(t->send[k].range)) b = put(b, " send %d.%d>T%d", t->send[k].mapNo, t->send[k].rangeNo, to);
        for (int to = 0; to < s->nt; to++) for (int k = 0; k < t->recvCount; k++) if (t->recv[k].fromTask == to && IN(t->recv[k].range)) b = put(b, " recv %d.%d<T%d", t->recv[k].mapNo, t->recv[k].rangeNo, to);
        for (int k = 0; k < t->redCount; k++) if (IN(t->red[k].range)) { b = put(b, " red %d ", t->red[k].redOp); for (int to = 0; to < s->nt; to++) if (laik_trans_isInGroup(t, t->red[k].inputGroup, to)) b = put(b, "%d", to); b = put(b, ">"); for (int to = 0; to < s->nt; to++) if (laik_trans_isInGroup(t, t->red[k].outputGroup, to)) b = put(b, "%d", to);
            if (laik_trans_isInGroup(t, t->red[k].inputGroup, t->group->myid)) b = put(b, " in %d.%d", t->red[k].myInputMapNo, t->red[k].myInputRangeNo); if (laik_trans_isInGroup(t, t->red[k].outputGroup, t->group->myid)) b = put(b, " out %d.%d", t->red[k].myOutputMapNo, t->red[k].myOutputRangeNo); }
        b = put(b, "\n");
    }
}
static void samemine(Laik_Partitioning* a, Laik_Partitioning* b, const char* what) {
    int k = laik_my_rangecount(a); RT_CHECK(laik_my_rangecount(b) == k, "P05:own-count", "%s: %d own ranges instead of %d", what, laik_my_rangecount(b), k); RT_CHECK(laik_my_mapcount(a) == laik_my_mapcount(b), "P05:own-maps", "%s: number of own mappings differs", what);
    for (int i = 0; i < k; i++) { int64_t f, t, f2, t2; Laik_TaskRange* x = laik_my_range_1d(a, i, &f, &t); int tag = laik_taskrange_get_tag(x), m = laik_taskrange_get_mapNo(x); x = laik_my_range_1d(b, i, &f2, &t2); RT_CHECK(x && f == f2 && t == t2 && laik_taskrange_get_tag(x) == tag && laik_taskrange_get_mapNo(x) == m, "P05:own-range", "%s: own range %d differs", what, i); }
    for (int m = 0; m < laik_my_mapcount(a); m++) { RT_CHECK(laik_my_maprangecount(a, m) == laik_my_maprangecount(b, m), "P05:own-maprange", "%s: ranges in mapping %d", what, m); for (int i = 0; i < laik_my_maprangecount(a, m); i++) { Laik_Range r = *laik_taskrange_get_range(laik_my_maprange(a, m, i)); RT_CHECK(laik_range_isEqual(&r, (Laik_Range*)laik_taskrange_get_range(laik_my_maprange(b, m, i))), "P05:own-maprange", "%s: range %d in mapping %d", what, i, m); } }
}
void p05a_gen(int tier) {
    S* s = SH; memset(s, 0, sizeof *s); int k = rt_in(tier ? 4 : 3); s->nt = k == 0 ? 2 : k == 3 ? 2 : 3; s->n = k == 0 ? (tier ? 5 : 4) : k == 1 ? 2 : k == 2 ? 3 : 6; int lo = k == 0 || k == 3 ? 1 : 0, hi = k == 0 || k == 3 ? 3 : 7; if (k == 2 && !tier) lo = 1; if (k == 2 && !tier) hi = 6;
    s->split = rt_in(3); if (s->split < 2) { s->tag = rt_in(4); s->order = rt_in(2); }
    for (int w = 0; w < 2; w++) for (int i = 0; i < s->n; i++) s->own[w][i] = lo + rt_in(hi - lo + 1);
    if (!tier && k == 0 && s->order) REJECT();
    rt_setenv("LAIK_BACKEND", "single"); CTX("split %d, tags %d", s->split, s->tag); DESC("%d cells, %d processes, split %d, tags %d, order %d; owner masks ", s->n, s->nt, s->split, s->tag, s->order); for (int w = 0; w < 2; w++) { for (int i = 0; i < s->n; i++) DESC("%d", s->own[w][i]); DESC(w ? "" : " and "); }
}
void p05a_main(void) {
    const S* s = cs = SH; Laik_Instance* inst = app_init(); static const int64_t strs[] = { 1, 1ll << 33 };
    for (int c = 0; c < (s->split == 2 ? 1 : 2); c++) for (int me = 0; me < s->nt; me++) {
        ORG = c ? -(1ll << 34) : 0; STR = strs[c]; rt_ctx("split %d, tags %d, process %d, coordinates %d", s->split, s->tag, me, c);
        Laik_Group* g = pm_group(inst, s->nt, me); Laik_Space* sp = laik_new_space_1d(inst, 1); laik_change_space_1d(sp, ORG, ORG + STR * s->n);
        Laik_Partitioning *all[2], *loc[2]; for (int w = 0; w < 2; w++) pr[w] = laik_new_partitioner("masks", runp, (void*)(uintptr_t)w, LAIK_PF_NoFullCoverage);
        for (int w = 0; w < 2; w++) all[w] = laik_new_partitioning(pr[w], g, sp, 0);
        for (int w = 0; w < 2; w++) { loc[w] = laik_new_empty_partitioning(g, sp, pr[w], 0); RT_CHECK(laik_partitioning_myranges(loc[w]) == 0, "P05:empty", "empty partitioning with ranges"); laik_partitioning_store_myranges(loc[w]); samemine(all[w], loc[w], "own ranges only"); RT_CHECK(laik_partitioning_allranges(loc[w]) == 0, "P05:all", "all ranges available"); }
        laik_partitioning_store_intersectranges(loc[0], loc[1]); laik_partitioning_store_intersectranges(loc[1], loc[0]);
        for (int w = 0; w < 2; w++) samemine(all[w], loc[w], "intersecting ranges");
        // what is kept: exactly the ranges intersecting own ones
        for (int w = 0; w < 2; w++) {
            Laik_RangeList *a = laik_partitioning_allranges(all[w]), *l = laik_partitioning_interranges(loc[w], loc[1 - w]); RT_CHECK(a && l, "P05:inter", "no intersecting ranges"); int li = 0, lc = laik_rangelist_rangecount(l);
            for (int i = 0; i < laik_rangelist_rangecount(a); i++) {
                Laik_TaskRange* t = laik_rangelist_taskrange(a, i); Laik_Range r = *laik_taskrange_get_range(t); int task = laik_taskrange_get_task(t), need = 0;
                for (int x = 0; x < s->n; x++) if (ORG + STR * x >= r.from.i[0] && ORG + STR * x < r.to.i[0] && ((s->own[0][x] | s->own[1][x]) >> me & 1)) need = 1;
                if (!need || s->split == 2) continue;
                while (li < lc && !(laik_taskrange_get_task(laik_rangelist_taskrange(l, li)) == task && laik_range_isEqual((Laik_Range*)laik_taskrange_get_range(laik_rangelist_taskrange(l, li)), &r))) li++;
                RT_CHECK(li < lc, "P05:inter-missing", "range [%lld;%lld[ of process %d intersects own ranges, but is missing", (long long)r.from.i[0], (long long)r.to.i[0], task); li++;
            }
        }
        static const int fl[][2] = { { LAIK_DF_Preserve, LAIK_RO_Sum }, { LAIK_DF_Preserve, LAIK_RO_Any }, { LAIK_DF_Init, LAIK_RO_Min } }; static char ea[4000], el[4000];
        for (int f = 0; f < 3; f++) {
            Laik_Transition* t = laik_calc_transition(sp, all[0], all[1], fl[f][0], fl[f][1]); expand(t, s, ea); if (t) laik_free_transition(t);
            t = laik_calc_transition(sp, loc[0], loc[1], fl[f][0], fl[f][1]); expand(t, s, el); if (t) laik_free_transition(t);
            RT_CHECK(!strcmp(ea, el), "P05:transition", "transition %d differs: with all ranges\n%swith local view\n%s", f, ea, el); rt_count(RTC_EVAL, 1);
        }
        for (int w = 0; w < 2; w++) { laik_free_partitioning(all[w]); laik_free_partitioning(loc[w]); }
    }
    rt_state(rt_hash(1, s, sizeof *s)); laik_finalize(inst);
}
void p05a_end(void) {}
