// E01: startup of the dynamic TCP backend
#include "tcp2.h"
typedef struct { int n, myid[12], size[12], lid[12], lids[12][12], epoch[12], phase[12], done[12]; char loc[12][100]; char seen[12][12][100]; int sync, x, started[12]; } S;
#define SH ((S*)rt_shared)
static void common(S* s, int n) { s->n = n; s->sync = rt_in(2); if (rt_in(2)) rt_setenv("LAIK_TCP2_BIN", "0"); }
void e01a_gen(int tier) {
    S* s = SH; int n = 1 + rt_in(tier ? 4 : 3); int f = rt_in(5);
    tcp2_scen(n, n, tier ? (n <= 2 ? 3 : n == 3 ? 2 : 1) : n <= 2 ? 2 : 1); tcp2_frag(f);
    common(s, n);
    if (n == 3 && f == 0 && s->sync == 0 && rt_scen->nenv == 2) rt_scen->dev_bound++;
    int hosts = rt_in(2);
    if (hosts && n == 1) REJECT();
    if (hosts) { rt_scen->sock_opts |= 1; for (int i = 1; i < n; i++) rt_scen->sock_host[i] = i == n - 1 ? 1 : rt_in(2); rt_setenv("LAIK_TCP2_HOST", "h0"); }
    if (f != 1 && rt_in(2)) rt_setenv("LAIK_TCP2_PORT", "5000");
    DESC("startup of %d processes, fragmentation %d, %s, deviations %d, hosts", n, f, s->sync ? "location sync" : "no sync", rt_scen->dev_bound);
    for (int i = 0; i < n; i++) DESC(" %d", rt_scen->sock_host[i]);
    CTX("startup");
}
// more processes started than asked for
void e01b_gen(int tier) {
    S* s = SH; int n = 1 + rt_in(tier ? 3 : 2), x = 1 + rt_in(2), f = rt_in(tier ? 5 : 3);
    if (n + x > (tier ? 5 : 4)) REJECT();
    tcp2_scen(n, n + x, n + x == 2 ? 3 + tier : n + x == 3 ? 2 + tier : 1 + tier); tcp2_frag(f);
    common(s, n); s->x = x; rt_scen->allow_unfinished = 1;
    if (f && !tier && rt_scen->nenv == 3) REJECT();
    DESC("startup of %d processes and %d more, fragmentation %d, %s, deviations %d", n, x, f, s->sync ? "location sync" : "no sync", rt_scen->dev_bound);
    CTX("startup with surplus");
}
static int home_up(void* a) { (void)a; return rt_listening(0, 0); }
// surplus processes which ask for taking part wait (until a resize, which is
// not done here); asking a program which just ended is an error
static int surplus_wait(void* a) { (void)a; S* s = SH; for (int q = 0; q < s->n + s->x; q++) if (s->started[q] && !s->done[q] && !rt_blocked(q)) return 0; return 1; }
void e01a_main(void) {
    S* s = SH; int r = rt_rank();
    // processes of other hosts are started when the home process is up
    if (rt_scen->sock_host[r]) rt_block(home_up, 0, "start");
    s->started[r] = 1;
    if (s->x) { int over = 0; for (int q = 0; q < s->n + s->x; q++) over |= s->done[q] == 2; if (over) { s->started[r] = 0; return; } } // too late: would be a program of its own
    Laik_Instance* inst = app_init(); Laik_Group* w = laik_world(inst);
    s->size[r] = laik_size(w); s->myid[r] = laik_myid(w); s->lid[r] = laik_mylocationid(inst);
    s->epoch[r] = laik_epoch(inst); s->phase[r] = laik_phase(inst);
    RT_CHECK(s->size[r] == s->n, "E01:size", "world has size %d instead of %d", s->size[r], s->n);
    RT_CHECK(s->myid[r] >= 0 && s->myid[r] < s->n, "E01:id", "own id is %d", s->myid[r]);
    for (int i = 0; i < s->n; i++) s->lids[r][i] = laik_group_locationid(w, i);
    snprintf(s->loc[r], 100, "%s", laik_mylocation(inst));
    if (s->sync) {
        laik_sync_location(inst);
        for (int i = 0; i < s->n; i++) { char* l = laik_group_location(w, i); RT_CHECK(l, "E01:location-missing", "location of process %d unknown after synchronisation", i); snprintf(s->seen[r][i], 100, "%s", l); }
    }
    s->done[r] = 1;
    rt_event(s->myid[r]); rt_count(RTC_EVAL, 3 + s->n);
    if (s->x && s->lid[r] == 0) { rt_block(surplus_wait, 0, "surplus processes to wait"); s->done[r] = 2; }
    laik_finalize(inst);
}
void e01a_end(void) {
    S* s = SH; int n = s->n, used = 0, m[12], k = 0;
    for (int r = 0; r < n + s->x; r++) if (s->done[r]) { RT_CHECK(k < n, "E01:too-many", "more than %d processes left initialisation", n); m[k++] = r; }
    RT_CHECK(k == n, "E01:not-done", "only %d of %d processes left initialisation", k, n);
    for (int i = 0; i < n; i++) {
        int r = m[i];
        RT_CHECK(!(used >> s->myid[r] & 1), "E01:same-id", "two processes have id %d", s->myid[r]);
        used |= 1 << s->myid[r];
        RT_CHECK(s->lid[r] == s->lids[r][s->myid[r]], "E01:locationid", "own location id %d differs from that in the world (%d)", s->lid[r], s->lids[r][s->myid[r]]);
        RT_CHECK(s->epoch[r] == 0 && s->phase[r] == 0, "E01:epoch", "epoch %d phase %d after startup", s->epoch[r], s->phase[r]);
        for (int j = 0; j < n; j++) {
            int q = m[j];
            for (int i = 0; i < n; i++) {
                RT_CHECK(s->lids[r][i] == s->lids[q][i], "E01:view", "processes disagree on the location of id %d", i);
                if (s->sync && s->myid[q] == i) RT_CHECK(!strcmp(s->seen[r][i], s->loc[q]), "E01:location", "process %d sees location '%s' for id %d, which is at '%s'", r, s->seen[r][i], i, s->loc[q]);
            }
            if (q != r) RT_CHECK(strcmp(s->loc[r], s->loc[q]), "E01:same-location", "two processes have location '%s'", s->loc[r]);
        }
    }
}
void e01b_main(void) { e01a_main(); }
void e01b_end(void) { e01a_end(); }
