// E05: tools connecting to processes of a running program
#include "tcp2.h"
#include <sys/socket.h>
#include <sys/select.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <unistd.h>
#define NT 2
#define NV 8
typedef struct { int target, at, n, cmd[3], join, end; } Tool;
typedef struct { int n, nt, prog; Tool t[NT]; int step, done[8], left[8]; } S;
#define SH ((S*)rt_shared)
static const struct { const char* s; int len; } C[] = {
    { "help\n" }, { "status\n" }, { "# a comment\n" }, { "xyz 1 2\n" }, { "quit\n" }, { "\004" }, { "\n" }, { "cutoff L9:\n" }, { "cutoff ((\n" }, { "c\n" },
    { "Bla bla\n" }, { "st\r\n" }, { "allowsend 5 4\n" }, { "cutoff L1:\n" }, { "help" }, { "quit" }, { "B" }, { 0, 9000 }, { 0, 8192 }, { 0, 8191 },
    { "data 1 00\n" }, { "kvs allow x\n" }, { "id 5 a b 1 -\n" }, { "phase 1 1\n" }, { "getready\n" }, { "ok\n" }, { "enterresize 0 0\n" }, { "backedout 1\n" }, { "myid\n" }, { "newid 0 a b 1 -\n" }, { "kvs changes 1\n" }, { "kvs data 00\n" }, { "status" }, { "B\x10" }, { "help\nhelp\nhelp\nhelp\n" }, { "#" }, { " help\n" }, { "\0\n", 2 }, { "myid 77\n" }, { "myid -3\n" }, { "myid x\n" } };
#define NC ((int)(sizeof C / sizeof *C))
static char LONGL[9002];
static int started(void* a) { Tool* t = a; S* s = SH; return s->step >= t->at && (rt_listening(t->target, 0) || rt_finished(t->target)); }
static int all_done(void* a) { (void)a; for (int r = 0; r < SH->n; r++) if (!rt_finished(r)) return 0; return 1; }
static void tool(Tool* t) {
    rt_block(started, t, "start of tool");
    int port = rt_listening(t->target, 0); if (!port) return;
    int fd = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a = { 0 }; a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(0x7f000001);
    if (connect(fd, (struct sockaddr*)&a, sizeof a)) { close(fd); return; }
    char buf[28000]; int n = 0, dead = 0;
    for (int i = 0; i < t->n && !dead; i++) {
        const char* c = C[t->cmd[i]].s; int l = C[t->cmd[i]].len ? C[t->cmd[i]].len : (int)strlen(c);
        if (!c) { memset(LONGL, 'x', sizeof LONGL); LONGL[l] = '\n'; c = LONGL; l++; }
        memcpy(buf + n, c, l); n += l;
        if (!t->join) { if (send(fd, buf, n, MSG_NOSIGNAL) < 0) dead = 1; n = 0; }
    }
    if (n && send(fd, buf, n, MSG_NOSIGNAL) < 0) dead = 1;
    if (t->end == 0) { close(fd); return; }            // closes at once
    if (t->end == 1) { rt_block(all_done, 0, "end of program"); close(fd); return; } // stays connected, never reads
    // reads all replies: complete lines starting with '#'
    int col = 0, lines = 0; char last = '\n';
    for (;;) {
        fd_set f; FD_ZERO(&f); FD_SET(fd, &f); select(fd + 1, &f, 0, 0, 0); int k = read(fd, buf, sizeof buf); if (k <= 0) break;
        for (int i = 0; i < k; i++) { if (col == 0) RT_CHECK(buf[i] == '#', "E05:reply", "tool gets a line starting with '%c'", buf[i]); last = buf[i]; col = last == '\n' ? 0 : col + 1; lines += last == '\n'; }
        if (t->end == 3 && lines) break;               // closes after the greeting
    }
    if (t->end == 2 && !rt_scen->sock_cap) RT_CHECK(last == '\n', "E05:reply", "the last line for the tool is incomplete");
    rt_count(RTC_EVAL, lines + 1);
    close(fd);
}
static int val(int i, int k) { return i * 1000003 + k * 77; }
static void exch(Laik_Instance* inst, Laik_Group* w, Laik_Space* sp, int k) {
    Laik_Data* d = laik_new_data(sp, laik_Int32); Laik_Partitioning* m = laik_new_partitioning(laik_Master, w, sp, 0), *b = laik_new_partitioning(laik_new_block_partitioner1(), w, sp, 0), *all = laik_new_partitioning(laik_All, w, sp, 0);
    laik_switchto_partitioning(d, m, LAIK_DF_None, LAIK_RO_None); int32_t* p; uint64_t c;
    if (laik_myid(w) == 0) { laik_get_map_1d(d, 0, (void**)&p, &c); RT_CHECK(c == NV, "E05:map", "map has %d elements", (int)c); for (int i = 0; i < NV; i++) p[i] = val(i, k); }
    laik_switchto_partitioning(d, b, LAIK_DF_Preserve, LAIK_RO_None);
    if (laik_get_map_1d(d, 0, (void**)&p, &c)) for (unsigned i = 0; i < c; i++) { int64_t g = laik_local2global_1d(d, i); RT_CHECK(p[i] == val(g, k), "E05:value", "exchange %d: element %d is %d instead of %d", k, (int)g, p[i], val(g, k)); p[i] += 1; }
    laik_switchto_partitioning(d, all, LAIK_DF_Preserve, LAIK_RO_None); laik_get_map_1d(d, 0, (void**)&p, &c); RT_CHECK(c == NV, "E05:map", "map has %d elements", (int)c);
    for (int i = 0; i < NV; i++) { RT_CHECK(p[i] == val(i, k) + 1, "E05:value", "exchange %d: element %d is %d instead of %d", k, i, p[i], val(i, k) + 1); p[i] = i + k; }
    laik_switchto_partitioning(d, all, LAIK_DF_Preserve, LAIK_RO_Sum); laik_get_map_1d(d, 0, (void**)&p, &c);
    for (int i = 0; i < NV; i++) RT_CHECK(p[i] == (i + k) * laik_size(w), "E05:reduction", "sum %d is %d", i, p[i]);
    rt_count(RTC_EVAL, 2 * NV);
}
void e05_main(void) {
    S* s = SH; int r = rt_rank(); if (r >= s->n) { tool(&s->t[r - s->n]); return; }
    Laik_Instance* inst = app_init(); Laik_Group* w = laik_world(inst); Laik_Space* sp = laik_new_space_1d(inst, NV);
    RT_CHECK(laik_size(w) == s->n, "E05:world", "world has size %d", laik_size(w));
    if (s->step < 1) s->step = 1;
    exch(inst, w, sp, 0);
    if (s->step < 2) s->step = 2;
    if (s->prog) {
        Laik_Group* nw = laik_allow_world_resize(inst, 1);
        if (laik_myid(nw) < 0) { s->left[r] = 1; s->done[r] = 1; laik_finalize(inst); return; }
        laik_finish_world_resize(inst); w = nw;
    }
    exch(inst, w, sp, 1); Laik_KVStore* k = laik_kvs_new("s", inst); char key[10]; sprintf(key, "k%d", laik_mylocationid(inst)); laik_kvs_sets(k, key, key); laik_kvs_sync(k);
    RT_CHECK((int)laik_kvs_count(k) == laik_size(w), "E05:kvs", "%d entries instead of %d", laik_kvs_count(k), laik_size(w));
    s->done[r] = 1; rt_event(0x99); laik_finalize(inst);
}
void e05_end(void) {
    S* s = SH; for (int r = 0; r < s->n; r++) RT_CHECK(s->done[r], "E05:stuck", "process %d did not finish", r);
    int cut = 0, left = 0; for (int i = 0; i < s->nt; i++) for (int j = 0; j < s->t[i].n; j++) cut |= s->t[i].cmd[j] == 13; for (int r = 0; r < s->n; r++) left += s->left[r];
    RT_CHECK(left <= cut, "E05:removed", "%d processes removed without request", left);
}
static void setup(int n, int nt, int dev) { S* s = SH; s->n = n; s->nt = nt; tcp2_scen(n, n + nt, dev); rt_scen->maxmem = 1L << 40; }
static void desc(void) { S* s = SH; DESC("%d processes%s, deviations %d, fragmentation %d, capacity %d", s->n, s->prog ? " with resize" : "", rt_scen->dev_bound, rt_scen->sock_chunk, rt_scen->sock_cap);
    for (int i = 0; i < s->nt; i++) { Tool* t = &s->t[i]; DESC("; tool to process %d at step %d%s, end %d:", t->target, t->at, t->join ? " in one write" : "", t->end); for (int j = 0; j < t->n; j++) { const char* c = C[t->cmd[j]].s; if (!c) DESC(" <%d bytes>", C[t->cmd[j]].len); else { DESC(" '"); for (; *c; c++) if (*c < 32) DESC("\\%d", *c); else DESC("%c", *c); DESC("'"); } } } CTX("tool"); }
// a: one tool, one or two commands, any schedule up to a bound
void e05a_gen(int tier) {
    S* s = SH; int n = 1 + rt_in(tier ? 3 : 2), prog = rt_in(2); setup(n, 1, tier ? 2 : 1); s->prog = prog; Tool* t = &s->t[0];
    t->target = rt_in(n); t->at = rt_in(3); t->n = 1 + rt_in(2); int m = t->n == 1 ? NC : tier ? 20 : 10; for (int j = 0; j < t->n; j++) t->cmd[j] = rt_in(m); t->join = t->n > 1 && rt_in(2); t->end = rt_in(4);
    if (!tier && (t->n == 2 || prog)) { rt_scen->dev_bound = 0; if (n == 1 && t->at == 2) REJECT(); if (t->n == 2 && prog) REJECT(); }
    rt_scen->sock_opts |= 4; desc();
}
void e05a_main(void) { e05_main(); }
void e05a_end(void) { e05_end(); }
// b: longer command sequences in all fragmentations
void e05b_gen(int tier) {
    S* s = SH; int n = 1 + rt_in(2); setup(n, 1, 0); Tool* t = &s->t[0]; t->target = rt_in(n); t->at = rt_in(2); t->end = rt_in(4); t->join = 1; int f = rt_in(4);
    tcp2_frag(f); if (f == 3) rt_scen->dev_bound = 1;
    t->n = 2 + rt_in(2); for (int j = 0; j < t->n; j++) { static const int Q[] = { 0, 4, 14, 15, 10, 3, 5, 11, 16, 6, 1 }; t->cmd[j] = Q[rt_in(tier ? 11 : t->n == 3 ? 4 : 9)]; }
    if (!tier && f == 3 && t->end) REJECT();
    desc();
}
void e05b_main(void) { e05_main(); }
void e05b_end(void) { e05_end(); }
// c: two tools, tools which never read while the output fills up
void e05c_gen(int tier) {
    S* s = SH; int n = 1 + rt_in(2), form = rt_in(2); setup(n, form ? 1 : 2, tier ? 1 : 0);
    if (form == 0) for (int i = 0; i < 2; i++) { Tool* t = &s->t[i]; t->target = rt_in(n); t->at = rt_in(3); t->n = 1; static const int Q[] = { 0, 1, 4, 3, 13, 14 }; t->cmd[0] = Q[rt_in(6)]; t->end = rt_in(4); s->prog = 1; }
    else { Tool* t = &s->t[0]; t->target = rt_in(n); t->at = rt_in(3); t->n = 1 + rt_in(3); for (int j = 0; j < t->n; j++) { static const int Q[] = { 0, 34, 1 }; t->cmd[j] = Q[rt_in(3)]; } t->end = rt_in(3); t->join = rt_in(2); rt_scen->sock_cap = rt_in(2) ? 100 : 1500; s->prog = rt_in(2); }
    desc();
}
void e05c_main(void) { e05_main(); }
void e05c_end(void) { e05_end(); }
