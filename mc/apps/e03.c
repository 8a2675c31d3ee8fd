// E03: processes joining and leaving a running program
#include "tcp2.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <unistd.h>
#define MR 8
#define MP 5
#define N 6
typedef struct { int set, epoch, phase, size, myid, lid, lids[MR + 4], hasp, psize, pmyid, plids[MR + 4], from[MR + 4], to[MR + 4]; } View;
typedef struct {
    int n0, nj, nx, maxp, data, fin, jat[3], jsync[3];
    struct { int at, sync, keep; char cmd[40]; int matchlid; } x[3];
    // shared progress
    int mphase, master;            // phase the master has entered
    int inwork;            // master is before its resize call
    int jstarted[MR], xdone[3];
    int done[MR], removed[MR], mylid[MR], member[MR][MP];
    View v[MR][MP];
    int njoin_must[MP], jmust[MP][MR], xmust[MP][3];
} S;
#define SH ((S*)rt_shared)
static int bval(int i, int ph) { return (i + 1) * 100 + ph; }
static void run_block(Laik_RangeReceiver* r, Laik_PartitionerParams* p) {
    int n = laik_size(p->group);
    for (int i = 0; i < n; i++) { int a = N * i / n, b = N * (i + 1) / n; Laik_Range g; if (a == b) continue; laik_range_init_1d(&g, p->space, a, b); laik_append_range(r, i, &g, 0, 0); }
}
static void run_all(Laik_RangeReceiver* r, Laik_PartitionerParams* p) {
    int n = laik_size(p->group); Laik_Range g; laik_range_init_1d(&g, p->space, 0, N);
    for (int i = 0; i < n; i++) laik_append_range(r, i, &g, 0, 0);
}
static void take(View* v, Laik_Instance* inst, Laik_Group* w, int lid) {
    RT_CHECK(!v->set, "E03:twice", "a phase was seen twice");
    memset(v, 0, sizeof *v); v->set = 1; v->epoch = laik_epoch(inst); v->phase = laik_phase(inst); v->size = laik_size(w); v->myid = laik_myid(w); v->lid = lid;
    RT_CHECK(v->size >= 1 && v->size <= MR, "E03:size", "world has size %d", v->size);
    for (int i = 0; i < v->size; i++) v->lids[i] = laik_group_locationid(w, i);
    Laik_Group* p = laik_group_parent(w); v->hasp = p != 0;
    if (p) {
        v->psize = laik_size(p); v->pmyid = laik_myid(p);
        RT_CHECK(v->psize >= 1 && v->psize <= MR, "E03:size", "parent of world has size %d", v->psize);
        for (int i = 0; i < v->psize; i++) { v->plids[i] = laik_group_locationid(p, i); v->from[i] = w->fromParent[i]; }
        for (int i = 0; i < v->size; i++) v->to[i] = w->toParent[i];
    }
    rt_event(rt_hash(0xE03, v, sizeof *v));
}
static void check_vals(Laik_Data* d, Laik_Partitioning* p, int ph, const char* when) {
    int n = 0;
    for (int i = 0; i < laik_my_rangecount(p); i++) {
        Laik_TaskRange* tr = laik_my_range(p, i); const Laik_Range* r = laik_taskrange_get_range(tr); int m = laik_taskrange_get_mapNo(tr);
        for (int64_t x = r->from.i[0]; x < r->to.i[0]; x++) {
            Laik_Index ix = { { x, 0, 0 } }; int32_t* a = (int32_t*)laik_get_map_addr(d, m, &ix);
            RT_CHECK(a && rt_mem_ok(a, 4), "E03:address", "%s: index %d not accessible", when, (int)x);
            RT_CHECK(*a == bval(x, ph), "E03:value", "%s: index %d is %d instead of %d", when, (int)x, *a, bval(x, ph));
            n++;
        }
    }
    rt_count(RTC_EVAL, n + 1);
}
static void set_vals(Laik_Data* d, Laik_Partitioning* p, int ph) {
    for (int i = 0; i < laik_my_rangecount(p); i++) {
        Laik_TaskRange* tr = laik_my_range(p, i); const Laik_Range* r = laik_taskrange_get_range(tr); int m = laik_taskrange_get_mapNo(tr);
        for (int64_t x = r->from.i[0]; x < r->to.i[0]; x++) { Laik_Index ix = { { x, 0, 0 } }; *(int32_t*)laik_get_map_addr(d, m, &ix) = bval(x, ph); }
    }
}
static int can_start(void* a) { S* s = SH; int r = (int)(intptr_t)a; return s->mphase >= s->jat[r - s->n0]; }
static int rt_up(void);
static int x_can(void* a) { S* s = SH; int k = (int)(intptr_t)a; return s->mphase >= s->x[k].at && (s->mphase >= 0 || rt_up()); }
static int rt_up(void) { for (int r = 0; r < SH->n0 + SH->nj; r++) if (rt_listening(r, 7777)) return 1; return 0; }
static int reqs_in(void* a) { // all requests the master waits for were sent
    S* s = SH; int ph = (int)(intptr_t)a;
    for (int j = 0; j < s->nj; j++) if (s->jsync[j] && (s->jat[j] == ph - 1 || (s->jat[j] < 0 && ph == 1)) && !(s->jstarted[s->n0 + j] && (rt_blocked(s->n0 + j) || s->v[s->n0 + j][ph - 1].set))) return 0;
    for (int k = 0; k < s->nx; k++) if (s->x[k].sync && (s->x[k].at == ph - 1 || (s->x[k].at < 0 && ph == 1)) && !s->xdone[k]) return 0;
    return 1;
}
static int joiners_wait(void* a) { (void)a; S* s = SH; for (int q = 0; q < s->n0 + s->nj; q++) if (s->jstarted[q] && s->mylid[q] < 0 && !rt_blocked(q) && !rt_finished(q)) return 0; return 1; }
static void external(int k) { // a tool asking for removal
    S* s = SH; rt_block(x_can, (void*)(intptr_t)k, "start of tool");
    int fd = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a = { 0 }; a.sin_family = AF_INET; a.sin_port = htons(7777); a.sin_addr.s_addr = htonl(0x7f000001);
    if (connect(fd, (struct sockaddr*)&a, sizeof a)) { close(fd); return; }
    int n = strlen(s->x[k].cmd);
    if (write(fd, s->x[k].cmd, n) != n) { close(fd); return; }
    if (s->x[k].cmd[0] != 'r') s->xdone[k] = 1;
    if (s->x[k].keep) { char b[200]; for (;;) { fd_set f; FD_ZERO(&f); FD_SET(fd, &f); select(fd + 1, &f, 0, 0, 0); if (read(fd, b, sizeof b) <= 0) break; } }
    close(fd); s->xdone[k] = 1;
}
void e03_main(void) {
    S* s = SH; int r = rt_rank();
    if (r >= s->n0 + s->nj) { external(r - s->n0 - s->nj); return; }
    s->jstarted[r] = 1;
    if (r >= s->n0) { s->jstarted[r] = 0; rt_block(can_start, (void*)(intptr_t)r, "start of joining process"); if (s->mphase >= 0 && (s->done[s->master] || rt_finished(s->master))) return; s->jstarted[r] = 1; }
    Laik_Instance* inst = app_init(); Laik_Group* w = laik_world(inst);
    int lid = s->mylid[r] = laik_mylocationid(inst);
    if (lid == 0) {
        if (s->mphase >= 0) { // too late: became a program of its own
            RT_CHECK(rt_finished(s->master), "E03:two-masters", "a second process became master"); s->mylid[r] = -2; laik_finalize(inst); return; }
        s->master = r; s->mphase = 0;
    }
    int ph = laik_phase(inst), joined = ph > 0;
    RT_CHECK(ph >= 0 && ph <= s->maxp, "E03:phase", "process starts in phase %d", ph);
    Laik_Space* sp = laik_new_space_1d(inst, N); Laik_Data* d = 0, *sum = 0; Laik_Partitioning* p1 = 0, *p2 = 0;
    Laik_Partitioner* bp = laik_new_partitioner("mc-block", s->data == 2 ? run_all : run_block, 0, 0), *all = laik_new_partitioner("mc-all", run_all, 0, 0);
    take(&s->v[r][ph], inst, w, lid); s->member[r][ph] = 1;
    RT_CHECK(laik_myid(w) >= 0, "E03:id", "process starts outside of the world");
    if (s->data) {
        d = laik_new_data(sp, laik_Int32); sum = laik_new_data(sp, laik_Int32);
        if (!joined) { p1 = laik_new_partitioning(laik_Master, w, sp, 0); laik_switchto_partitioning(d, p1, LAIK_DF_None, LAIK_RO_None); set_vals(d, p1, 0); }
        else { RT_CHECK(laik_group_parent(w), "E03:parent", "world of a joining process has no parent"); p1 = laik_new_partitioning(bp, laik_group_parent(w), sp, 0); laik_set_initial_partitioning(d, p1); }
    }
    for (;;) {
        if (s->data) {
            p2 = laik_new_partitioning(bp, w, sp, 0);
            // values were set in the phase before (by the old world)
            laik_switchto_partitioning(d, p2, LAIK_DF_Preserve, s->data == 2 ? LAIK_RO_Any : LAIK_RO_None);
            if (laik_myid(w) >= 0) check_vals(d, p2, ph ? ph - 1 : 0, "after migration");
        }
        if (laik_myid(w) < 0) { s->removed[r] = 1; break; }
        if (s->fin) laik_finish_world_resize(inst);
        if (s->data) {
            set_vals(d, p2, ph);
            Laik_Partitioning* sa = laik_new_partitioning(all, w, sp, 0); laik_switchto_partitioning(sum, sa, LAIK_DF_None, LAIK_RO_None);
            for (int i = 0; i < N; i++) { Laik_Index ix = { { i, 0, 0 } }; *(int32_t*)laik_get_map_addr(sum, 0, &ix) = i + 10; }
            laik_switchto_partitioning(sum, sa, LAIK_DF_Preserve, LAIK_RO_Sum);
            for (int i = 0; i < N; i++) { Laik_Index ix = { { i, 0, 0 } }; int v = *(int32_t*)laik_get_map_addr(sum, 0, &ix); RT_CHECK(v == laik_size(w) * (i + 10), "E03:reduction", "sum over the world is %d instead of %d", v, laik_size(w) * (i + 10)); }
            laik_switchto_partitioning(sum, 0, LAIK_DF_None, LAIK_RO_None);
        }
        if (ph >= s->maxp) break;
        ph++;
        if (lid == 0) {
            rt_block(reqs_in, (void*)(intptr_t)ph, "requests to be sent");
            for (int q = 0; q < s->n0 + s->nj; q++) { if (s->jstarted[q] && rt_blocked(q) && !s->v[q][ph - 1].set && !s->member[q][ph - 1] && s->mylid[q] < 0) s->jmust[ph][q] = 1; }
            for (int k = 0; k < s->nx; k++) if (s->xdone[k]) s->xmust[ph][k] = 1;
        }
        Laik_Group* nw = laik_allow_world_resize(inst, ph);
        if (lid == 0) s->mphase = ph;
        if (nw != w) { w = nw; }
        take(&s->v[r][ph], inst, w, lid); s->member[r][ph] = laik_myid(w) >= 0;
        p1 = p2;
    }
    if (lid == 0) rt_block(joiners_wait, 0, "joining processes to wait"); // asking a program which just ended is an error
    s->done[r] = 1; rt_event(0x77);
    laik_finalize(inst);
}
void e03_end(void) {
    S* s = SH; int np = s->n0 + s->nj;
    RT_CHECK(s->mphase >= 0 && s->done[s->master], "E03:stuck", "master process %d never finished", s->master);
    int M = s->master;
    for (int r = 0; r < np; r++) { int any = 0; for (int p = 0; p <= s->maxp; p++) any |= s->v[r][p].set; RT_CHECK(!any || s->done[r], "E03:stuck", "joined process %d never finished", r); }
    for (int p = 0; p <= s->maxp; p++) {
        View* m = &s->v[M][p]; RT_CHECK(m->set && m->myid == 0, "E03:master", "master not in world in phase %d", p);
        for (int i = 0; i < m->size; i++) for (int j = 0; j < i; j++) RT_CHECK(m->lids[i] != m->lids[j], "E03:same-location", "phase %d: ids %d and %d have the same location", p, j, i);
        for (int i = 1; i < m->size; i++) RT_CHECK(m->lids[i] > m->lids[i - 1], "E03:order", "phase %d: world not ordered", p);
        int cnt = 0;
        for (int r = 0; r < np; r++) {
            View* v = &s->v[r][p]; if (!v->set) continue;
            RT_CHECK(v->phase == p, "E03:phase", "process %d reports phase %d in phase %d", r, v->phase, p);
            RT_CHECK(v->epoch == m->epoch, "E03:epoch", "phase %d: process %d is in epoch %d, master in %d", p, r, v->epoch, m->epoch);
            RT_CHECK(v->size == m->size && !memcmp(v->lids, m->lids, sizeof(int) * m->size), "E03:world", "phase %d: process %d and master disagree on the world (sizes %d, %d)", p, r, v->size, m->size);
            RT_CHECK(v->hasp == m->hasp, "E03:parent", "phase %d: parent known %d at process %d, %d at master", p, v->hasp, r, m->hasp);
            if (v->hasp) {
                RT_CHECK(v->psize == m->psize && !memcmp(v->plids, m->plids, sizeof(int) * m->psize) && !memcmp(v->from, m->from, sizeof(int) * m->psize) && !memcmp(v->to, m->to, sizeof(int) * m->size), "E03:parent", "phase %d: process %d and master disagree on the parent", p, r);
                int pm = -1; for (int i = 0; i < v->psize; i++) if (v->plids[i] == v->lid) pm = i;
                RT_CHECK(v->pmyid == pm, "E03:parent-id", "phase %d: process %d has id %d in the parent, expected %d", p, r, v->pmyid, pm);
            }
            int me = -1; for (int i = 0; i < v->size; i++) if (v->lids[i] == v->lid) me = i;
            RT_CHECK(v->myid == me, "E03:id", "phase %d: process %d has id %d, but its location is at %d", p, r, v->myid, me);
            if (me >= 0) cnt++;
            rt_count(RTC_EVAL, 6);
        }
        RT_CHECK(cnt == m->size, "E03:members", "phase %d: %d processes think to be in the world of size %d", p, cnt, m->size);
        if (m->hasp) {
            for (int i = 0; i < m->psize; i++) { int q = -1; for (int k = 0; k < m->size; k++) if (m->lids[k] == m->plids[i]) q = k; RT_CHECK(m->from[i] == q, "E03:fromParent", "phase %d: process %d of parent maps to %d, expected %d", p, i, m->from[i], q); }
            for (int i = 0; i < m->size; i++) { int q = -1; for (int k = 0; k < m->psize; k++) if (m->plids[k] == m->lids[i]) q = k; RT_CHECK(m->to[i] == q, "E03:toParent", "phase %d: process %d maps to %d in parent, expected %d", p, i, m->to[i], q); }
        }
        if (p > 0) {
            View* o = &s->v[M][p - 1]; int changed = o->size != m->size || memcmp(o->lids, m->lids, sizeof(int) * m->size);
            RT_CHECK(m->epoch == o->epoch + (changed != 0), "E03:epoch-count", "phase %d: epoch %d after %d, world %s", p, m->epoch, o->epoch, changed ? "changed" : "unchanged");
            if (changed) RT_CHECK(m->hasp && m->psize == o->size && !memcmp(m->plids, o->lids, sizeof(int) * o->size), "E03:parent", "phase %d: parent is not the world before", p);
            // everybody in the old world took part in the resize
            for (int r = 0; r < np; r++) if (s->v[r][p - 1].set && s->v[r][p - 1].myid >= 0) RT_CHECK(s->v[r][p].set, "E03:missing", "process %d of phase %d is not in phase %d", r, p - 1, p);
            for (int r = 0; r < np; r++) if (s->jmust[p][r]) RT_CHECK(s->v[r][p].set, "E03:join-lost", "process %d asked to join before phase %d, but did not", r, p);
            for (int k = 0; k < s->nx; k++) if (s->xmust[p][k]) for (int i = 0; i < o->size; i++) {
                int l = o->lids[i]; if (!l || l >= 31 || !(s->x[k].matchlid >> l & 1)) continue;
                int q = 0; for (int j = 0; j < m->size; j++) if (m->lids[j] == l) q = 1;
                // members at the time of the request
                int since = 0; for (int e = 0; e < p; e++) if (s->xmust[e + 1][k] && (e == 0 || !s->xmust[e][k])) { // sent while the world was that of phase e-1 or e
                    int in = 1; for (int f = e ? e - 1 : 0; f <= e; f++) { int h = 0; for (int j = 0; j < s->v[M][f].size; j++) h |= s->v[M][f].lids[j] == l; in &= h; } since |= in; }
                RT_CHECK(!since || !q, "E03:removal-lost", "removal of location %d was requested before phase %d, but it is still in the world", l, p);
            }
            // only processes asked for are removed
            for (int i = 0; i < o->size; i++) { int q = 0, asked = 0; for (int j = 0; j < m->size; j++) q |= m->lids[j] == o->lids[i];
                for (int k = 0; k < s->nx; k++) asked |= s->xdone[k] && (s->x[k].matchlid >> o->lids[i] & 1);
                RT_CHECK(q || (asked && o->lids[i]), "E03:wrong-removal", "phase %d: location %d removed without request", p, o->lids[i]); }
        } else RT_CHECK(m->size == s->n0 && m->epoch == 0, "E03:start", "initial world has size %d, epoch %d", m->size, m->epoch);
    }
}
static void setup(int n0, int nj, int nx, int dev) {
    S* s = SH; s->mphase = -1; s->n0 = n0; s->nj = nj; s->nx = nx; for (int r = 0; r < MR; r++) s->mylid[r] = -1;
    tcp2_scen(n0, n0 + nj + nx, dev); rt_scen->allow_unfinished = nj > 0;
}
static const struct { const char* re; int m; } PAT[] = { { "cutoff L1:\n", 2 }, { "c L[12]:\n", 6 }, { "cutoff .\n", ~0 }, { "cutoff L2\n", 4 }, { "c L1:\nc L1:\n", 2 }, { "cutoff L9\n", 512 }, { "c L1:\nc L2:\nc L1:\n", 6 }, { "c ((\nc L2:\n", 4 }, { "register X\n", 0 }, { "register X\nregister Y h 1 b\n", 0 } };
static void xset(int k, int pat, int at, int sync, int keep) { S* s = SH; strcpy(s->x[k].cmd, PAT[pat].re); s->x[k].matchlid = PAT[pat].m; s->x[k].at = at; s->x[k].sync = sync; s->x[k].keep = keep; }
static void desc(void) {
    S* s = SH; DESC("%d processes, %d phases, data %d%s, deviations %d", s->n0, s->maxp, s->data, s->fin ? ", explicit finish" : "", rt_scen->dev_bound);
    for (int j = 0; j < s->nj; j++) DESC("; join from phase %d%s", s->jat[j], s->jsync[j] ? " (waited for)" : "");
    for (int k = 0; k < s->nx; k++) { char t[40]; strcpy(t, s->x[k].cmd); for (char* c = t; *c; c++) if (*c == '\n') *c = '|'; DESC("; tool sends '%s' from phase %d%s%s", t, s->x[k].at, s->x[k].sync ? " (waited for)" : "", s->x[k].keep ? ", stays connected" : ""); }
}
// e03a: joins, then removals, one of each at chosen phases
void e03a_gen(int tier) {
    S* s = SH; int n0 = 1 + rt_in(3), nj = rt_in(3), nx = rt_in(2); if (!nj && !nx) REJECT(); if (!tier && n0 + nj > 3) REJECT();
    setup(n0, nj, nx, tier ? 2 : 1); s->maxp = tier ? 3 : 2; s->data = rt_in(3); s->fin = rt_in(2);
    for (int j = 0; j < nj; j++) { s->jat[j] = rt_in_range(tier ? -1 : 0, s->maxp - 1); s->jsync[j] = rt_in(2); if (j && (s->jat[j] < s->jat[j - 1])) REJECT(); }
    if (nx) { int k = rt_in(10); int keep = rt_in(2); if (keep && k) REJECT(); xset(0, k, rt_in_range(-1, s->maxp - 1), rt_in(2), keep); if (k >= 8 && (!s->x[0].sync || s->x[0].at < 0)) REJECT(); }
    if (rt_in(2)) rt_setenv("LAIK_TCP2_BIN", "0");
    if (!tier && rt_scen->nenv == 3 && s->data != 1) REJECT();
    int f = rt_in(tier ? 4 : 2); if (f && (s->fin || s->data != 1)) REJECT(); tcp2_frag(f);
    if (!tier && (s->fin || s->data != 1 || rt_scen->nenv == 3 || f)) rt_scen->dev_bound = 0;
    if (!tier && rt_scen->dev_bound) { // reduced patterns
        if (nx && (s->x[0].matchlid == 512 || s->x[0].keep)) REJECT();
        if (nj == 2 && nx && (s->jsync[0] == s->jsync[1] || s->x[0].at < 0)) REJECT();
    }
    desc(); CTX("%s%s", nj ? "join " : "", nx ? "remove" : "");
}
void e03a_main(void) { e03_main(); }
void e03a_end(void) { e03_end(); }
// e03b: several successive joins and removals
void e03b_gen(int tier) {
    S* s = SH; int n0 = 1 + rt_in(tier ? 4 : 3), nj = rt_in(4), nx = rt_in(3); if (nj + nx < 2) REJECT(); if (n0 + nj > (tier ? 6 : 5)) REJECT();
    setup(n0, nj, nx, tier ? 1 : 0); s->maxp = 4; s->data = 1 + rt_in(tier ? 2 : 1); s->fin = rt_in(2);
    for (int j = 0; j < nj; j++) { s->jat[j] = rt_in(s->maxp); s->jsync[j] = 1; if (j && (s->jat[j] < s->jat[j - 1])) REJECT(); }
    for (int k = 0; k < nx; k++) { int c = rt_in(6); static const int P[] = { 0, 1, 2, 3, 4, 6 }; xset(k, P[c], rt_in(s->maxp), 1, 0); if (k && s->x[k].at < s->x[k - 1].at) REJECT(); }
    if (!tier && nj == 3 && nx == 2 && s->fin) REJECT();
    desc(); CTX("successive %s%s", nj ? "join " : "", nx ? "remove" : "");
}
void e03b_main(void) { e03_main(); }
void e03b_end(void) { e03_end(); }
