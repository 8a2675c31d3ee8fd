// K02/E04: synchronisation of key-value stores, against an explicit map
#include "kvs.h"
#ifdef VARIANT_TCP2
#include "tcp2.h"
#endif
#define KR 3
#define KP 5
typedef struct { int np, nr, nst, op[KP][KR], loc; } S;
#define SH ((S*)rt_shared)
static const char* ABS[] = { "k", "kk", "sp a ce", "", "own0", "own1", "own2", "own3", "own4", "never" };
#define NABS 10
static char LV[390];
enum { O_NONE, O_A, O_B, O_RM, O_ARM, O_OWN, O_AB, O_RMA, O_BYTE, O_EMPTY, O_CLEAN, O_OWNRM, O_LONG, O_BIN, O_ABA, O_MANY, O_MANY2, O_N };
static const char* ON[] = { "nothing", "k=A", "k=AB", "remove k", "k=A,remove k", "own key=version", "k=A,k=AB", "remove k,k=A", "kk=1 byte", "empty key=empty value", "clean", "remove own key", "long value", "binary value", "k=AB,k=A", "many keys", "many keys updated" };
static void st(Laik_KVStore* s, KMap* m, const char* k, const char* v, int n) {
    if (m) km_set(m, k, v, n);
    if (!s) return;
    char* kk = kx_buf(k, strlen(k) + 1), *vv = kx_buf(v, n); RT_CHECK(laik_kvs_set(s, kk, n, vv), "K:set", "no entry returned"); rt_free(kk); rt_free(vv);
}
static void rm(Laik_KVStore* s, KMap* m, const char* k) { int x = -1; if (m) x = km_del(m, k); if (s) { int r = laik_kvs_remove(s, (char*)k); RT_CHECK(x < 0 || r == x, "K:remove", "remove of '%s' returns %d instead of %d", k, r, x); } }
// one process' operations before a sync, on store and/or model
static void ops(Laik_KVStore* s, KMap* m, int op, int rank, int round, int store) {
    char own[20], t[40]; sprintf(own, "own%d", rank); for (int i = 0; i < 390; i++) LV[i] = (char)(i * 41 + 1);
    const char* A = store ? "A2" : "A", *B = store ? "A2B" : "AB"; int la = strlen(A) + 1, lb = la + 1;
    switch (op) {
        case O_A: st(s, m, "k", A, la); break;
        case O_B: st(s, m, "k", B, lb); break;
        case O_RM: rm(s, m, "k"); break;
        case O_ARM: st(s, m, "k", A, la); rm(s, m, "k"); break;
        case O_OWN: sprintf(t, "v%d", round); st(s, m, own, t, strlen(t) + 1); break;
        case O_AB: st(s, m, "k", A, la); st(s, m, "k", B, lb); break;
        case O_ABA: st(s, m, "k", B, lb); st(s, m, "k", A, la); break;
        case O_RMA: rm(s, m, "k"); st(s, m, "k", A, la); break;
        case O_BYTE: st(s, m, "kk", "x", 1); break;
        case O_EMPTY: st(s, m, "", "", 0); break;
        case O_CLEAN: if (s) laik_kvs_clean(s); if (m) memset(m, 0, sizeof *m); break;
        case O_OWNRM: rm(s, m, own); break;
        case O_LONG: st(s, m, "kk", LV, 390); break;
        case O_BIN: st(s, m, "sp a ce", "a b\n\0%c \x80\xff", 10); break;
        case O_MANY: case O_MANY2: for (int i = 0; i < KBIG; i++) { char k[30], v[30]; big_kv(i, op - O_MANY + 1, k, v); if (s) laik_kvs_sets(s, k, v); } if (m) m->big = op - O_MANY + 1; break;
    }
}
// changed keys of one process: touched since last sync in a way which is to be propagated
static int touched(KMap* before, int op, const char* k, int rank, int round, int store, KMap* after) {
    KEnt* b = km_get(before, k), *a = km_get(after, k);
    if (!ke_same(a, b)) return 1;
    // set away and back is a change, too: counts as conflicting with other changes
    int isk = !strcmp(k, "k"); return (isk && (op == O_ARM || op == O_AB || op == O_RMA || op == O_ABA));
}
// expected outcome of a round; 0 if the processes' changes are in conflict
static int merge(const S* s, KMap* base, int round, int store, KMap* out, KMap* own /* [np] */) {
    *out = *base; int big = base->big;
    for (int p = 0; p < s->np; p++) { own[p] = *base; ops(0, &own[p], s->op[p][round], p, round, store); }
    for (int i = 0; i < NABS; i++) {
        int who = -1;
        for (int p = 0; p < s->np; p++) if (touched(base, s->op[p][round], ABS[i], p, round, store, &own[p])) {
            if (who >= 0 && !ke_same(km_get(&own[who], ABS[i]), km_get(&own[p], ABS[i]))) return 0;
            if (who < 0) who = p;
        }
        if (who < 0) continue;
        KEnt* e = km_get(&own[who], ABS[i]); if (e) km_set(out, ABS[i], e->val, e->vlen); else km_del(out, ABS[i]);
    }
    for (int p = 0; p < s->np; p++) if (own[p].big != base->big) { if (big != base->big && big != own[p].big) return 0; big = own[p].big; }
    out->big = big; return 1;
}
// callbacks
typedef struct { int c, u, r; } CB; static CB cb[2][NABS + 1]; static Laik_KVStore* STO[2];
static int kidx(const char* k) { for (int i = 0; i < NABS; i++) if (!strcmp(ABS[i], k)) return i; return NABS; }
static int sidx(Laik_KVStore* s) { return s == STO[1]; }
static void on_c(Laik_KVStore* s, Laik_KVS_Entry* e) { cb[sidx(s)][kidx(laik_kvs_key(e))].c++; RT_CHECK(laik_kvs_data(e, 0), "K:callback", "created entry without value"); }
static void on_u(Laik_KVStore* s, Laik_KVS_Entry* e) { cb[sidx(s)][kidx(laik_kvs_key(e))].u++; RT_CHECK(laik_kvs_data(e, 0), "K:callback", "changed entry without value"); }
static void on_r(Laik_KVStore* s, char* k) { cb[sidx(s)][kidx(k)].r++; }
void k02_main(void) {
    S* s = SH; Laik_Instance* inst = app_init(); Laik_Group* w = laik_world(inst); int me = laik_myid(w);
    RT_CHECK(laik_size(w) == s->np, "K:world", "world has size %d", laik_size(w));
    KMap* base = rt_malloc(2 * sizeof(KMap)), *own = rt_malloc(KP * sizeof(KMap)), *out = rt_malloc(sizeof(KMap)); memset(base, 0, 2 * sizeof(KMap)); memset(cb, 0, sizeof cb);
    for (int i = 0; i < s->nst; i++) { STO[i] = laik_kvs_new(i ? "a second store with quite a long name" : "first", inst); laik_kvs_reg_callbacks(STO[i], on_c, on_u, on_r); }
    if (s->nst == 1) STO[1] = 0;
    char wh[100];
    for (int r = 0; r < s->nr; r++) {
        if (s->loc) laik_sync_location(inst);
        for (int i = 0; i < s->nst; i++) ops(STO[i], 0, s->op[me][r], me, r, i);
        for (int i = 0; i < s->nst; i++) {
            int ok = merge(s, &base[i], r, i, out, own); assert(ok);
            sprintf(wh, "round %d, store %d, before sync", r, i); kvs_check(STO[i], &own[me], ABS, NABS, wh);
            memset(cb[i], 0, sizeof cb[i]); laik_kvs_sync(STO[i]);
            sprintf(wh, "round %d, store %d, after sync", r, i); kvs_check(STO[i], out, ABS, NABS, wh);
            for (int k = 0; k < NABS; k++) {
                KEnt* a = km_get(&own[me], ABS[k]), *b = km_get(out, ABS[k]); int c = !a && b, u = a && b && !ke_same(a, b), rr = a && !b;
                RT_CHECK(cb[i][k].c == c && cb[i][k].u == u && cb[i][k].r == rr, "K:callback", "%s: key '%s': %d created, %d changed, %d removed callbacks instead of %d, %d, %d", wh, ABS[k], cb[i][k].c, cb[i][k].u, cb[i][k].r, c, u, rr);
            }
            int bc = !own[me].big && out->big ? KBIG : 0, br = own[me].big && !out->big ? KBIG : 0, bu = own[me].big && out->big && own[me].big != out->big ? KBIG : 0;
            RT_CHECK(cb[i][NABS].c == bc && cb[i][NABS].u == bu && cb[i][NABS].r == br, "K:callback", "%s: %d/%d/%d callbacks for many keys instead of %d/%d/%d", wh, cb[i][NABS].c, cb[i][NABS].u, cb[i][NABS].r, bc, bu, br);
            base[i] = *out;
        }
        if (s->loc) for (int i = 0; i < s->np; i++) {
            char* l = laik_group_location(w, i); RT_CHECK(l && rt_mem_ok(l, 1), "K:location", "no location of process %d known", i);
            for (int j = 0; j < i; j++) RT_CHECK(strcmp(l, laik_group_location(w, j)), "K:location", "processes %d and %d have same location", i, j);
            if (i == me) RT_CHECK(!strcmp(l, laik_mylocation(inst)), "K:location", "own location is '%s'", l);
            rt_event(rt_hash(0x10c, l, strlen(l)));
        }
        // for the next round, differently sized stores with unsynced lookups
    }
    for (int i = 0; i < s->nst; i++) laik_kvs_free(STO[i]);
    rt_free(base); rt_free(own); rt_free(out);
    laik_finalize(inst);
}
#ifdef VARIANT_TCP
static void backend(void) { int c = rt_in(2) * 5; tcp_scen(rt_scen->nranks, c, 0); DESC("%s, ", rt_tcp_config_name(c)); }
#else
static void backend(void) { rt_setenv("LAIK_BACKEND", "mpi"); }
#endif
static int possible(void) { // no conflicting changes in any round
    S* s = SH; static KMap base, out, own[KP]; memset(&base, 0, sizeof base);
    for (int r = 0; r < s->nr; r++) { if (!merge(s, &base, r, 0, &out, own)) return 0; base = out; }
    return 1;
}
static void kdesc(void) { S* s = SH; DESC("%d processes, %d stores%s;", s->np, s->nst, s->loc ? ", locations" : ""); for (int r = 0; r < s->nr; r++) { DESC(" round %d:", r); for (int p = 0; p < s->np; p++) DESC(" [%s]", ON[s->op[p][r]]); } }
// a: pairs of processes, two rounds of any operations
void k02a_gen(int tier) {
    S* s = SH; s->np = 1 + rt_in(2); s->nr = 2; s->nst = 1; rt_scen->nranks = s->np;
    int n = O_N; for (int r = 0; r < s->nr; r++) for (int p = 0; p < s->np; p++) s->op[p][r] = rt_in(n);
    if (!possible()) REJECT();
    backend(); rt_scen->mpi_rendezvous = tier ? rt_in(2) : 1; if (tier) s->nst = 1 + rt_in(2); kdesc(); CTX("sync, %d processes", s->np);
}
void k02a_main(void) { k02_main(); }
void k02a_end(void) { }
// b: three rounds / more processes with fewer operations
void k02b_gen(int tier) {
    S* s = SH; static const int Q3[] = { O_NONE, O_A, O_RM, O_OWN, O_AB, O_OWNRM }, Q2[] = { O_NONE, O_B, O_RM, O_OWN, O_MANY, O_EMPTY, O_CLEAN };
    int f = rt_in(tier ? 4 : 3); rt_scen->nranks = s->np = f == 0 ? 2 : f == 1 ? 3 : f == 2 ? 4 : 5; s->nr = f == 0 ? 3 : f == 1 ? 2 : f == 2 ? (tier ? 2 : 1) : 1; s->nst = 1 + (tier ? rt_in(2) : f == 1);
    for (int r = 0; r < s->nr; r++) for (int p = 0; p < s->np; p++) s->op[p][r] = f == 0 ? Q3[rt_in(6)] : f == 2 && tier ? Q2[rt_in(4)] : Q2[rt_in(f == 1 && !tier ? 5 : 7)];
    if (!possible()) REJECT();
    s->loc = rt_in(2); if (f != 1 && s->loc) REJECT(); if (f == 1 && !tier && s->loc != (s->op[0][0] == O_NONE)) REJECT();
    backend(); rt_scen->mpi_rendezvous = 1; kdesc(); CTX("sync, %d processes", s->np);
}
void k02b_main(void) { k02_main(); }
void k02b_end(void) { }
#ifdef VARIANT_TCP
// L02b: several stores over the legacy TCP backend, thread schedules
void l02b_gen(int tier) {
    S* s = SH; static const int Q[] = { O_NONE, O_A, O_RM, O_OWN, O_BIN, O_EMPTY, O_LONG, O_ARM, O_MANY }, QS[] = { O_NONE, O_A, O_OWN, O_LONG, O_RM }; static const int CF[] = { 0, 5, 7, 3 };
    int form = rt_in(3), cfg = CF[rt_in(form <= 1 && !tier ? 2 : 4)]; s->np = form == 0 ? 2 : form == 1 ? 2 + rt_in(2) : 4; s->nst = 1 + (form == 2 || (form == 1 && tier) ? rt_in(2) : form == 1 && s->np == 2 && cfg == 0); s->nr = form == 1 && s->np == 3 && !tier ? 1 : 2;
    tcp_scen(s->np, cfg, form == 1 ? 1 : 0); s->loc = form == 2;
    for (int r = 0; r < s->nr; r++) for (int p = 0; p < s->np; p++) s->op[p][r] = form == 0 ? Q[rt_in(r && !tier ? 8 : 9)] : form == 1 ? (r && p && !tier ? O_RM : QS[rt_in(s->np == 2 ? 5 : tier ? 4 : 3)]) : r ? (p == 1 ? O_RM : p == 2 ? O_OWN : O_NONE) : Q[rt_in(4)];
    if (!possible()) REJECT();
    DESC("config '%s', ", rt_tcp_config_name(cfg)); kdesc(); CTX("sync tcp, %d processes", s->np);
}
void l02b_main(void) { k02_main(); }
void l02b_end(void) { }
#endif
#ifdef VARIANT_TCP2
// E04a: several stores over the dynamic TCP backend, any schedule and fragmentation
void e04a_gen(int tier) {
    S* s = SH; static const int Q[] = { O_NONE, O_A, O_RM, O_OWN, O_BIN, O_EMPTY, O_LONG, O_ARM, O_MANY }; int form = rt_in(4);
    if (form == 0) { // all operations, default schedule and byte-wise reads
        s->np = 2; s->nr = 2; s->nst = 1; tcp2_scen(2, 2, 0); tcp2_frag(rt_in(2) * 2);
        for (int p = 0; p < 2; p++) s->op[p][0] = Q[rt_in(9)];
        for (int p = 0; p < 2; p++) s->op[p][1] = tier ? rt_in(O_N) : Q[rt_in(8)];
    } else if (form == 1) { // schedules
        static const int QS[] = { O_NONE, O_A, O_OWN, O_LONG, O_RM };
        s->np = 2 + rt_in(2); s->nst = 1 + rt_in(2); s->loc = rt_in(2); int f = rt_in(5); if (f && (s->np == 3 || s->loc) && !tier) REJECT(); s->nr = s->np == 2 || tier ? 2 : 1;
        tcp2_scen(s->np, s->np, tier ? 2 : 1); tcp2_frag(f);
        for (int r = 0; r < s->nr; r++) for (int p = 0; p < s->np; p++) s->op[p][r] = r && p && !tier ? O_RM : QS[rt_in(s->np == 2 ? (tier ? 5 : 4) : 3)];
        if (!tier && s->np == 3 && s->loc && s->nst == 2) REJECT();
    } else if (form == 2) { // more processes
        s->np = 4 + rt_in(2); s->nst = 2; s->nr = 2; s->loc = 1; tcp2_scen(s->np, s->np, 0); tcp2_frag(rt_in(2));
        for (int r = 0; r < 2; r++) for (int p = 0; p < s->np; p++) s->op[p][r] = r ? (p == 1 ? O_RM : p == 2 ? O_OWN : O_NONE) : Q[rt_in(tier ? 4 : s->np == 4 ? 4 : 2)];
    } else { // large stores
        s->np = 2 + rt_in(2); s->nr = 2; s->nst = 1 + rt_in(2); tcp2_scen(s->np, s->np, 0); tcp2_frag(rt_in(2)); rt_scen->maxmem = 1L << 40;
        for (int p = 0; p < s->np; p++) { s->op[p][0] = rt_in(2) ? O_MANY : O_NONE; s->op[p][1] = rt_in(2) ? O_MANY2 : O_NONE; }
        if (rt_in(2)) { if (rt_scen->sock_chunk) REJECT(); rt_scen->sock_cap = 500; }
    }
    if (!possible()) REJECT();
    kdesc(); DESC(", fragmentation %d, capacity %d, deviations %d", rt_scen->sock_chunk, rt_scen->sock_cap, rt_scen->dev_bound); CTX("sync tcp2, %d processes", s->np);
}
void e04a_main(void) { k02_main(); }
void e04a_end(void) { }
// E04b: stores and locations while the world is resized
#include <sys/socket.h>
#include <netinet/in.h>
#include <unistd.h>
#define BP 4
typedef struct { int n0, np, op[8][BP], jat[4], nj, nx, xat[3], xlid[3], alive[BP][8], fresh[BP][8], loc, fin, late; int mphase, jstarted[12], mylid[12], xdone[3], mdone; KMap base[BP]; } B;
#define BH ((B*)rt_shared)
static int b_merge(B* s, int ph, KMap* base, KMap* out, KMap* own) {
    KMap empty; memset(&empty, 0, sizeof empty); *out = *base;
    for (int i = 0; i < 8; i++) if (s->alive[ph][i]) { own[i] = s->fresh[ph][i] ? empty : *base; ops(0, &own[i], s->op[i][ph], i, ph, 0); }
    for (int k = 0; k < NABS; k++) {
        int who = -1;
        for (int i = 0; i < 8; i++) if (s->alive[ph][i] && touched(s->fresh[ph][i] ? &empty : base, s->op[i][ph], ABS[k], i, ph, 0, &own[i])) {
            if (who >= 0 && !ke_same(km_get(&own[who], ABS[k]), km_get(&own[i], ABS[k]))) return 0;
            who = i;
        }
        if (who < 0) continue;
        KEnt* e = km_get(&own[who], ABS[k]); if (e) km_set(out, ABS[k], e->val, e->vlen); else km_del(out, ABS[k]);
    }
    return 1;
}
static int b_start(void* a) { return BH->mphase >= (int)(intptr_t)a; }
static int b_reqs(void* a) { B* s = BH; int t = (int)(intptr_t)a;
    for (int j = 0; j < s->nj; j++) if (s->jat[j] == t && !(s->jstarted[s->n0 + j] && rt_blocked(s->n0 + j))) return 0;
    for (int k = 0; k < s->nx; k++) if (s->xat[k] == t && !s->xdone[k]) return 0; return 1; }
void e04b_gen(int tier) {
    B* s = BH; s->n0 = 1 + rt_in(3); s->mphase = -1; int P = 3;
    int next = s->n0, alive[8] = { 0 }; for (int i = 0; i < s->n0; i++) alive[i] = 1;
    for (int p = 0; p < P; p++) {
        memset(s->fresh[p], 0, sizeof s->fresh[p]);
        if (p) {
            int j = rt_in(2), x = rt_in(3); // one joins, L1 or L2 is removed
            if (x) { if (!alive[x]) REJECT(); alive[x] = 0; s->xat[s->nx] = p - 1; s->xlid[s->nx++] = x; }
            if (j) { s->jat[s->nj++] = p - 1; alive[next] = 1; s->fresh[p][next++] = 1; }
        }
        memcpy(s->alive[p], alive, sizeof alive);
    }
    if (!s->nj && !s->nx) REJECT();
    s->np = s->n0 + s->nj; s->loc = rt_in(2); s->fin = rt_in(2); s->late = rt_in(2); int f = rt_in(tier ? 3 : 2);
    static const int Q[] = { O_NONE, O_A, O_OWN, O_RM, O_BIN }; int form = rt_in(tier ? 5 : 3);
    for (int i = 0; i < 8; i++) for (int p = 0; p < P; p++) if (s->alive[p][i]) s->op[i][p] = s->fresh[p][i] ? Q[rt_in(3)] : Q[(i * 2 + p + form) % 5];
    if (!tier && s->fin && (s->late || f)) REJECT();
    KMap base, out, own[8]; memset(&base, 0, sizeof base);
    for (int p = 0; p < P; p++) { if (!b_merge(s, p, &base, &out, own)) REJECT(); base = out; }
    tcp2_scen(s->n0, s->np + s->nx, tier ? 2 : s->np <= 2 ? 1 : 0); tcp2_frag(f);
    DESC("%d processes, %d join, %d removed%s%s;", s->n0, s->nj, s->nx, s->loc ? ", locations" : "", s->late ? ", store created after first resize" : ""); for (int p = 0; p < P; p++) { DESC(" phase %d:", p); for (int i = 0; i < 8; i++) if (s->alive[p][i]) DESC(" L%d%s[%s]", i, s->fresh[p][i] ? "(new)" : "", ON[s->op[i][p]]); }
    CTX("sync tcp2, resize");
}
void e04b_main(void) {
    B* s = BH; int r = rt_rank();
    if (r >= s->np) { // tool
        int k = r - s->np; rt_block(b_start, (void*)(intptr_t)s->xat[k], "start of tool");
        int fd = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a = { 0 }; a.sin_family = AF_INET; a.sin_port = htons(7777); a.sin_addr.s_addr = htonl(0x7f000001);
        RT_CHECK(!connect(fd, (struct sockaddr*)&a, sizeof a), "E04:connect", "connect failed"); char c[20]; sprintf(c, "cutoff L%d:\n", s->xlid[k]);
        write(fd, c, strlen(c)); close(fd); s->xdone[k] = 1; return;
    }
    if (r >= s->n0) { rt_block(b_start, (void*)(intptr_t)s->jat[r - s->n0], "start of joining process"); s->jstarted[r] = 1; }
    Laik_Instance* inst = app_init(); Laik_Group* w = laik_world(inst); int lid = laik_mylocationid(inst), ph = laik_phase(inst), fresh = 1;
    KMap* out = rt_malloc(sizeof *out), *own = rt_malloc(8 * sizeof *own), *base = rt_malloc(sizeof *base); memset(base, 0, sizeof *base);
    Laik_KVStore* k = s->late && ph == 0 ? 0 : laik_kvs_new("store", inst); char wh[80];
    for (;;) {
        for (int i = 0; i < 8; i++) RT_CHECK(!s->alive[ph][i] || i < laik_size(w) + 8, "E04:size", "impossible");
        int n = 0; for (int i = 0; i < 8; i++) n += s->alive[ph][i];
        RT_CHECK(laik_size(w) == n && s->alive[ph][lid], "E04:world", "phase %d: world has size %d instead of %d", ph, laik_size(w), n);
        if (!k && ph == 1) { k = laik_kvs_new("store", inst); }
        if (k) {
            // stores created late: nothing happened in phase 0
            KMap b; memset(&b, 0, sizeof b); if (ph > (s->late ? 1 : 0)) b = s->base[ph - 1];
            int sv[8]; if (s->late && ph == 1) for (int i = 0; i < 8; i++) { sv[i] = s->fresh[ph][i]; s->fresh[ph][i] = 1; }
            int ok = b_merge(s, ph, &b, out, own);
            if (s->late && ph == 1) for (int i = 0; i < 8; i++) s->fresh[ph][i] = sv[i];
            if (!ok) rt_skip();
            ops(k, 0, s->op[lid][ph], lid, ph, 0); sprintf(wh, "phase %d, before sync", ph); kvs_check(k, &own[lid], ABS, NABS, wh);
            laik_kvs_sync(k); sprintf(wh, "phase %d, after sync", ph); kvs_check(k, out, ABS, NABS, wh); if (lid == 0) s->base[ph] = *out;
        }
        if (s->loc && !(s->late && ph == 0)) {
            laik_sync_location(inst);
            for (int i = 0; i < laik_size(w); i++) {
                char* l = laik_group_location(w, i); RT_CHECK(l && rt_mem_ok(l, 1), "E04:location", "phase %d: location of process %d not known", ph, i);
                char t[20]; int tl = sprintf(t, "L%d:", laik_group_locationid(w, i)); RT_CHECK(!strncmp(l, t, tl), "E04:location", "phase %d: location of process %d (id %d) is '%s'", ph, i, laik_group_locationid(w, i), l);
            }
        }
        rt_event(ph); if (ph == 2) break;
        if (lid == 0) { s->mphase = ph; rt_block(b_reqs, (void*)(intptr_t)ph, "requests"); }
        ph++;
        w = laik_allow_world_resize(inst, ph); if (laik_myid(w) < 0) break;
        if (s->loc) for (int i = 0; i < laik_size(w); i++) { char* l = laik_group_location(w, i); RT_CHECK(!l || rt_mem_ok(l, 1), "E04:location", "dangling location"); }
        if (s->fin) laik_finish_world_resize(inst);
    }
    s->jstarted[r] = 2; rt_free(out); rt_free(own); rt_free(base); if (k) laik_kvs_free(k);
    laik_finalize(inst);
}
void e04b_end(void) { B* s = BH; for (int r = 0; r < s->np; r++) RT_CHECK(rt_finished(r), "E04:stuck", "process %d did not finish", r); }
#endif
