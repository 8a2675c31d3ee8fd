// MPI under control of the explorer: every matching, blocking and buffering
// decision is explicit; semantics errors of the caller are reported.
#include "rtpriv.h"
#include "mockmpi/mpi.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>

#define MAXCOMM 256
#define MAXMSG 20000
#define MAXREQ 4096
#define MAXSLOT 4096
typedef struct { int used, size, w[RT_MAXRANKS]; int seq[RT_MAXRANKS]; int freed[RT_MAXRANKS]; } Comm;
static Comm comms[MAXCOMM]; static int ncomms;
typedef struct { int src, dst, comm, tag; long bytes; char* data; int matched, consumed; MPI_Datatype dt; int ssend; } Msg;
static Msg* msgs; static int nmsgs; static int first_live;
typedef struct { int used, rank, isrecv, done; int msg; // matched/sent message
    int src, tag, comm; void* buf; long cap; uint64_t sum; int bytes; MPI_Status st; MPI_Datatype dt; int active; } Req;
static Req reqs[MAXREQ]; static int nreqs;
typedef struct { int used, comm, seq, kind, root, op; MPI_Datatype dt; long count; int arrived, left; char* data[RT_MAXRANKS]; long len[RT_MAXRANKS]; int aux[RT_MAXRANKS][2]; int res[RT_MAXRANKS]; int has[RT_MAXRANKS]; } Slot;
static Slot* slots; static int nslots;
static int inited[RT_MAXRANKS], finalized[RT_MAXRANKS];
static RtMsg* acct; static int nacct;
static struct { long size; } dtypes[64]; static int ndtypes;

int rt_msg_count(void) { return nacct; }
RtMsg* rt_msg(int i) { return &acct[i]; }
void rt_msg_reset(void) { nacct = 0; }
static void account(int s, int d, int t, int c, long b, int k) { if (nacct < MAXMSG) acct[nacct++] = (RtMsg){ s, d, t, c, b, k }; }

static void groups_reset(void);
#define MAXRANKGRP 256
void mock_mpi_reset(void) {
    groups_reset();
    if (!msgs) { msgs = calloc(MAXMSG, sizeof(Msg)); slots = calloc(MAXSLOT, sizeof(Slot)); acct = calloc(MAXMSG, sizeof(RtMsg)); }
    for (int i = 0; i < nmsgs; i++) { free(msgs[i].data); msgs[i].data = 0; }
    for (int i = 0; i < nslots; i++) for (int r = 0; r < RT_MAXRANKS; r++) { free(slots[i].data[r]); }
    memset(slots, 0, sizeof(Slot) * nslots);
    nmsgs = nslots = nreqs = nacct = 0; first_live = 0; ndtypes = 0;
    memset(comms, 0, sizeof(Comm) * (ncomms + 3)); memset(inited, 0, sizeof inited); memset(finalized, 0, sizeof finalized);
    ncomms = 3;
    comms[1].used = 1; comms[1].size = rt_scen->nranks; for (int i = 0; i < rt_scen->nranks; i++) comms[1].w[i] = i;
}
static int groups_incomplete(int* n, int* of);
int mock_mpi_endcheck(char* key, char* msg) {
    int ga, gb; if (groups_incomplete(&ga, &gb)) { strcpy(key, "mpi:incomplete-collective"); sprintf(msg, "MPI_Comm_create_group entered by %d of %d processes", ga, gb); return 1; }
    for (int i = 0; i < nmsgs; i++) if (!msgs[i].consumed) {
        strcpy(key, "mpi:unreceived-message");
        sprintf(msg, "message from %d to %d tag %d (%ld bytes) was never received", msgs[i].src, msgs[i].dst, msgs[i].tag, msgs[i].bytes); return 1; }
    for (int i = 1; i <= nreqs; i++) if (reqs[i].used && reqs[i].active) {
        strcpy(key, "mpi:request-never-completed"); sprintf(msg, "rank %d: %s request never completed", reqs[i].rank, reqs[i].isrecv ? "receive" : "send"); return 1; }
    for (int i = 0; i < nslots; i++) if (slots[i].arrived != comms[slots[i].comm].size) {
        strcpy(key, "mpi:incomplete-collective"); sprintf(msg, "collective %d on communicator %d entered by %d of %d processes", slots[i].kind, slots[i].comm, slots[i].arrived, comms[slots[i].comm].size); return 1; }
    return 0;
}
static long dtsize(MPI_Datatype d) {
    if (d >= 1000000) { if (d - 1000000 >= ndtypes) rt_fail("mpi:bad-datatype", "invalid datatype"); return dtypes[d - 1000000].size; }
    if (d <= 0) rt_fail("mpi:bad-datatype", "invalid datatype %d", d);
    return d & 255; }
static Comm* C(MPI_Comm c) {
    if (c <= 0 || c >= ncomms || (!comms[c].used && c != 2)) rt_fail("mpi:bad-communicator", "operation on invalid communicator %d", c);
    if (!inited[rt_cur]) rt_fail("mpi:not-initialised", "MPI used before MPI_Init");
    if (finalized[rt_cur]) rt_fail("mpi:after-finalize", "MPI used after MPI_Finalize");
    if (c == 2) { static Comm self; self.used = 1; self.size = 1; self.w[0] = rt_cur; return &self; }
    return &comms[c];
}
static int myrank(Comm* c) { for (int i = 0; i < c->size; i++) if (c->w[i] == rt_cur) return i; rt_fail("mpi:not-member", "process is not in communicator"); }
static void chkbuf(const char* w, const void* p, long n) {
    if (n < 0) rt_fail("mpi:negative-count", "%s with negative size %ld", w, n);
    if (n == 0) return;
    if (!p) { char k[100]; sprintf(k, "mpi:null-buffer:%s", w); rt_fail(k, "%s with NULL buffer and %ld bytes", w, n); }
    if (rt_mem_ok(p, n) == 0) { char k[100]; sprintf(k, "mem:out-of-bounds:%s", w); rt_fail(k, "%s accesses %ld bytes outside of allocated memory", w, n); }
}
int MPI_Init(int* a, char*** b) { (void)a; (void)b; if (inited[rt_cur]) rt_fail("mpi:double-init", "MPI_Init called twice"); inited[rt_cur] = 1; return 0; }
int MPI_Init_thread(int* a, char*** b, int q, int* p) { if (p) *p = q; return MPI_Init(a, b); }
int MPI_Query_thread(int* p) { *p = MPI_THREAD_MULTIPLE; return 0; }
int MPI_Initialized(int* f) { *f = inited[rt_cur]; return 0; }
int MPI_Finalized(int* f) { *f = finalized[rt_cur]; return 0; }
int MPI_Abort(MPI_Comm c, int e) { (void)c; rt_fail("mpi:abort", "MPI_Abort(%d)", e); }
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = myrank(C(c)); return 0; }
int MPI_Comm_size(MPI_Comm c, int* s) { *s = C(c)->size; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler e) { C(c); (void)e; return 0; }
int MPI_Comm_get_attr(MPI_Comm c, int k, void* v, int* f) { C(c); (void)k; static int ub = 1 << 30; *(int**)v = &ub; *f = 1; return 0; }
int MPI_Get_processor_name(char* n, int* l) { strcpy(n, "h"); *l = 1; return 0; }
int MPI_Error_string(int e, char* s, int* l) { sprintf(s, "error %d", e); *l = strlen(s); return 0; }
int MPI_Error_class(int e, int* c) { *c = e; return 0; }
double MPI_Wtime(void) { rt_time_us += 5; return rt_time_us * 1e-6; }

// ---- point to point
static int post_send(const char* w, const void* buf, int count, MPI_Datatype dt, int dst, int tag, MPI_Comm comm) {
    Comm* c = C(comm); int me = myrank(c);
    long b = count * dtsize(dt);
    if (dst < 0 || dst >= c->size) rt_fail("mpi:bad-rank", "%s to rank %d in communicator of size %d", w, dst, c->size);
    if (tag < 0) rt_fail("mpi:bad-tag", "%s with tag %d", w, tag);
    chkbuf(w, buf, b);
    if (nmsgs >= MAXMSG) rt_fail("mpi:too-many-messages", "more than %d messages", MAXMSG);
    Msg* m = &msgs[nmsgs];
    *m = (Msg){ c->w[me], c->w[dst], comm, tag, b, malloc(b + 1), 0, 0, dt, 0 };
    if (b) memcpy(m->data, buf, b);
    account(c->w[me], c->w[dst], tag, comm, b, 0);
    uint64_t h = rt_hash(0x51, m->data, b); rt_event(h ^ (dst * 131 + tag * 7 + comm * 100003));
    rt_log("%s to %d tag %d comm %d: %ld bytes", w, c->w[dst], tag, comm, b);
    return nmsgs++;
}
// find first matching unmatched message for a receive
static int find_msg(int me, int src, int tag, int comm) {
    for (int i = 0; i < nmsgs; i++) {
        Msg* m = &msgs[i];
        if (m->matched || m->comm != comm || m->dst != me) continue;
        if (src >= 0 && m->src != src) continue;
        if (tag >= 0 && m->tag != tag) continue;
        return i;
    }
    return -1;
}
// earlier posted unmatched receives take precedence: match requests in order
static void progress(void) {
    for (int q = 1; q <= nreqs; q++) {
        Req* r = &reqs[q];
        if (!r->used || !r->isrecv || r->msg >= 0 || !r->active) continue;
        int i = find_msg(r->rank, r->src, r->tag, r->comm);
        if (i >= 0) { r->msg = i; msgs[i].matched = 1; }
    }
}
static int newreq(void) {
    int q = 0;
    for (int i = 1; i <= nreqs; i++) if (!reqs[i].used) { q = 0; }
    if (!q) { if (nreqs + 1 >= MAXREQ) rt_fail("mpi:too-many-requests", "too many requests"); q = ++nreqs; }
    memset(&reqs[q], 0, sizeof(Req)); reqs[q].used = 1; reqs[q].rank = rt_cur; reqs[q].msg = -1; reqs[q].active = 1; return q;
}
static int send_done(void* a) { return msgs[(intptr_t)a].matched; }
static int bsend(const char* w, const void* b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c, int sync) {
    if (dst == MPI_PROC_NULL) return 0;
    rt_yield(w);
    int i = post_send(w, b, n, d, dst, tag, c); progress();
    if (sync || rt_scen->mpi_rendezvous) rt_block(send_done, (void*)(intptr_t)i, w);
    return 0;
}
int MPI_Send(const void* b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c) { return bsend("MPI_Send", b, n, d, dst, tag, c, 0); }
int MPI_Rsend(const void* b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c) { return bsend("MPI_Rsend", b, n, d, dst, tag, c, 0); }
int MPI_Bsend(const void* b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c) { int s = rt_scen->mpi_rendezvous; rt_scen->mpi_rendezvous = 0; bsend("MPI_Bsend", b, n, d, dst, tag, c, 0); rt_scen->mpi_rendezvous = s; return 0; }
int MPI_Ssend(const void* b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c) { return bsend("MPI_Ssend", b, n, d, dst, tag, c, 1); }
static int isend(const void* b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c, MPI_Request* rq, int sync) {
    (void)sync;
    if (dst == MPI_PROC_NULL) { *rq = 0; return 0; }
    rt_yield("MPI_Isend");
    int q = newreq(); Req* r = &reqs[q];
    r->msg = post_send("MPI_Isend", b, n, d, dst, tag, c); r->buf = (void*)b; r->bytes = n * dtsize(d);
    r->sum = rt_hash(1, b, r->bytes);
    // a pending receive must not overlap the buffer handed to a send
    for (int i = 1; i <= nreqs; i++) if (reqs[i].used && reqs[i].active && reqs[i].isrecv && reqs[i].rank == rt_cur && r->bytes && reqs[i].cap
        && (char*)reqs[i].buf < (char*)b + r->bytes && (char*)b < (char*)reqs[i].buf + reqs[i].cap)
        rt_fail("mpi:buffer-overlap", "send buffer overlaps buffer of a pending receive");
    progress(); *rq = q; return 0;
}
int MPI_Isend(const void* b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c, MPI_Request* r) { return isend(b, n, d, dst, tag, c, r, 0); }
int MPI_Issend(const void* b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c, MPI_Request* r) { return isend(b, n, d, dst, tag, c, r, 1); }
static int post_recv(void* b, int n, MPI_Datatype d, int src, int tag, MPI_Comm comm, const char* w) {
    Comm* c = C(comm); myrank(c);
    if (src != MPI_ANY_SOURCE && (src < 0 || src >= c->size)) rt_fail("mpi:bad-rank", "%s from rank %d in communicator of size %d", w, src, c->size);
    long cap = n * dtsize(d); chkbuf(w, b, cap);
    int q = newreq(); Req* r = &reqs[q];
    r->isrecv = 1; r->src = src < 0 ? -1 : c->w[src]; r->tag = tag; r->comm = comm; r->buf = b; r->cap = cap; r->dt = d;
    for (int i = 1; i < nreqs; i++) if (reqs[i].used && reqs[i].active && reqs[i].rank == rt_cur && cap && i != q) {
        long len = reqs[i].isrecv ? reqs[i].cap : reqs[i].bytes;
        if (len && (char*)reqs[i].buf < (char*)b + cap && (char*)b < (char*)reqs[i].buf + len)
            rt_fail("mpi:buffer-overlap", "receive buffer overlaps buffer of a pending %s", reqs[i].isrecv ? "receive" : "send"); }
    rt_event(0x7ec5 + src * 131 + tag * 7 + comm * 100003);
    progress();
    return q;
}
static void finish(Req* r, MPI_Status* st) {
    if (r->isrecv) {
        Msg* m = &msgs[r->msg];
        if (m->bytes > r->cap) rt_fail("mpi:truncation", "message of %ld bytes from %d received into buffer of %ld bytes", m->bytes, m->src, r->cap);
        if (m->bytes) { chkbuf("MPI receive", r->buf, m->bytes); memcpy(r->buf, m->data, m->bytes); }
        m->consumed = 1;
        Comm* c = C(r->comm); int s = 0; for (int i = 0; i < c->size; i++) if (c->w[i] == m->src) s = i;
        if (st) { st->MPI_SOURCE = s; st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->bytes_ = m->bytes; }
        rt_event(rt_hash(0x99, m->data, m->bytes) + m->src);
        rt_log("received from %d tag %d comm %d: %ld bytes", m->src, m->tag, m->comm, m->bytes);
    } else {
        if (r->bytes && rt_hash(1, r->buf, r->bytes) != r->sum) rt_fail("mpi:send-buffer-modified", "buffer of a pending non-blocking send was modified");
        if (st) { st->MPI_SOURCE = -1; st->MPI_TAG = -1; st->bytes_ = 0; st->MPI_ERROR = 0; }
    }
    r->active = 0;
}
static int req_ready(void* a) { Req* r = &reqs[(intptr_t)a]; if (r->isrecv) return r->msg >= 0; return !rt_scen->mpi_rendezvous || msgs[r->msg].matched; }
int MPI_Irecv(void* b, int n, MPI_Datatype d, int src, int tag, MPI_Comm c, MPI_Request* rq) {
    if (src == MPI_PROC_NULL) { *rq = 0; return 0; }
    rt_yield("MPI_Irecv");
    int q = post_recv(b, n, d, src, tag, c, "MPI_Irecv");
    if (reqs[q].cap) memset(b, 0xC3, reqs[q].cap); // contents undefined until completion
    *rq = q; return 0;
}
int MPI_Recv(void* b, int n, MPI_Datatype d, int src, int tag, MPI_Comm c, MPI_Status* st) {
    if (src == MPI_PROC_NULL) return 0;
    rt_yield("MPI_Recv");
    int q = post_recv(b, n, d, src, tag, c, "MPI_Recv");
    char w[64]; 
    snprintf(w, sizeof w, "MPI_Recv");
    static const char* ws[] = {"MPI_Recv from 0","MPI_Recv from 1","MPI_Recv from 2","MPI_Recv from 3","MPI_Recv from 4","MPI_Recv from 5","MPI_Recv from 6","MPI_Recv from 7"};
    rt_block(req_ready, (void*)(intptr_t)q, src >= 0 && src < 8 ? ws[src] : "MPI_Recv");
    finish(&reqs[q], st); reqs[q].used = 0;
    return 0;
}
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype sd, int dst, int st_, void* rb, int rn, MPI_Datatype rd, int src, int rt, MPI_Comm c, MPI_Status* s) {
    MPI_Request a, b; isend(sb, sn, sd, dst, st_, c, &a, 0); MPI_Irecv(rb, rn, rd, src, rt, c, &b); MPI_Wait(&b, s); MPI_Wait(&a, 0); return 0; }
static Req* R(MPI_Request q) { if (q <= 0 || q > nreqs || !reqs[q].used || reqs[q].rank != rt_cur) rt_fail("mpi:bad-request", "invalid request handle %d", q); return &reqs[q]; }
int MPI_Wait(MPI_Request* q, MPI_Status* st) {
    C(1);
    if (*q == 0) return 0;
    Req* r = R(*q); rt_yield("MPI_Wait");
    rt_block(req_ready, (void*)(intptr_t)*q, r->isrecv ? "MPI_Wait(receive)" : "MPI_Wait(send)");
    finish(r, st); r->used = 0; *q = 0; return 0;
}
int MPI_Waitall(int n, MPI_Request* q, MPI_Status* st) { for (int i = 0; i < n; i++) MPI_Wait(&q[i], st ? &st[i] : 0); return 0; }
typedef struct { int n; MPI_Request* q; } AnyArg;
static int any_ready(void* a) { AnyArg* x = a; for (int i = 0; i < x->n; i++) if (x->q[i] && req_ready((void*)(intptr_t)x->q[i])) return 1; return 0; }
int MPI_Waitany(int n, MPI_Request* q, int* idx, MPI_Status* st) {
    int act = 0; for (int i = 0; i < n; i++) if (q[i]) act++;
    if (!act) { *idx = MPI_UNDEFINED; return 0; }
    AnyArg a = { n, q }; rt_block(any_ready, &a, "MPI_Waitany");
    int opt[256], m = 0; for (int i = 0; i < n && m < 256; i++) if (q[i] && req_ready((void*)(intptr_t)q[i])) opt[m++] = i;
    int k = opt[rt_choose(m, 1)]; rt_event(k); *idx = k; MPI_Request z = q[k]; finish(R(z), st); reqs[z].used = 0; q[k] = 0; return 0;
}
int MPI_Waitsome(int n, MPI_Request* q, int* cnt, int* idx, MPI_Status* st) { int i; MPI_Waitany(n, q, &i, st); if (i == MPI_UNDEFINED) *cnt = i; else { *cnt = 1; idx[0] = i; } return 0; }
static int polls; 
static int never(void* a) { return rt_msg_count() != (int)(intptr_t)a; }
int MPI_Test(MPI_Request* q, int* f, MPI_Status* st) {
    if (*q == 0) { *f = 1; return 0; }
    Req* r = R(*q); 
    if (!req_ready((void*)(intptr_t)*q)) { *f = 0; rt_event(3); 
        if (++polls % 50 == 0) rt_block(never, (void*)(intptr_t)rt_msg_count(), "MPI_Test loop"); else rt_yield("MPI_Test");
        return 0; }
    finish(r, st); r->used = 0; *q = 0; *f = 1; return 0;
}
int MPI_Testall(int n, MPI_Request* q, int* f, MPI_Status* st) { for (int i = 0; i < n; i++) if (q[i] && !req_ready((void*)(intptr_t)q[i])) { *f = 0; rt_yield("MPI_Testall"); return 0; } *f = 1; return MPI_Waitall(n, q, st); }
int MPI_Request_free(MPI_Request* q) { if (*q) { R(*q)->active = 0; } *q = 0; return 0; }
int MPI_Cancel(MPI_Request* q) { R(*q)->active = 0; return 0; }
typedef struct { int me, src, tag, comm; } ProbeArg;
static int probe_ok(void* a) { ProbeArg* p = a; return find_msg(p->me, p->src, p->tag, p->comm) >= 0; }
int MPI_Iprobe(int src, int tag, MPI_Comm comm, int* f, MPI_Status* st) {
    Comm* c = C(comm); rt_yield("MPI_Iprobe");
    int i = find_msg(rt_cur, src < 0 ? -1 : c->w[src], tag, comm);
    *f = i >= 0; rt_event(*f);
    if (i >= 0 && st) { for (int k = 0; k < c->size; k++) if (c->w[k] == msgs[i].src) st->MPI_SOURCE = k; st->MPI_TAG = msgs[i].tag; st->bytes_ = msgs[i].bytes; st->MPI_ERROR = 0; }
    return 0;
}
int MPI_Probe(int src, int tag, MPI_Comm comm, MPI_Status* st) {
    Comm* c = C(comm); ProbeArg a = { rt_cur, src < 0 ? -1 : c->w[src], tag, comm };
    rt_block(probe_ok, &a, "MPI_Probe"); int f; return MPI_Iprobe(src, tag, comm, &f, st);
}
int MPI_Get_count(const MPI_Status* st, MPI_Datatype d, int* n) { long s = dtsize(d); *n = st->bytes_ % s ? MPI_UNDEFINED : st->bytes_ / s; return 0; }
int MPI_Get_elements(const MPI_Status* st, MPI_Datatype d, int* n) { return MPI_Get_count(st, d, n); }
int MPI_Type_size(MPI_Datatype d, int* s) { *s = dtsize(d); return 0; }
int MPI_Type_contiguous(int n, MPI_Datatype d, MPI_Datatype* o) { if (ndtypes >= 64) rt_fail("mpi:too-many-types", "types"); dtypes[ndtypes].size = n * dtsize(d); *o = 1000000 + ndtypes++; return 0; }
int MPI_Type_commit(MPI_Datatype* d) { dtsize(*d); return 0; }
int MPI_Type_free(MPI_Datatype* d) { *d = 0; return 0; }

// ---- collectives
enum { K_BARRIER = 1, K_BCAST, K_REDUCE, K_ALLREDUCE, K_GATHER, K_ALLGATHER, K_SCATTER, K_ALLTOALL, K_DUP, K_SPLIT, K_FREE };
static const char* kname[] = { "?", "MPI_Barrier", "MPI_Bcast", "MPI_Reduce", "MPI_Allreduce", "MPI_Gather", "MPI_Allgather", "MPI_Scatter", "MPI_Alltoall", "MPI_Comm_dup", "MPI_Comm_split", "MPI_Comm_free" };
static Slot* enter(MPI_Comm comm, int kind, int root, int op, MPI_Datatype dt, long count, const void* data, long len) {
    Comm* c = C(comm); int me = myrank(c);
    rt_yield(kname[kind]);
    int seq = c->seq[me]++;
    Slot* s = 0;
    for (int i = 0; i < nslots; i++) if (slots[i].comm == comm && slots[i].seq == seq) { s = &slots[i]; break; }
    if (!s) { if (nslots >= MAXSLOT) rt_fail("mpi:too-many-collectives", "too many collectives"); s = &slots[nslots++]; memset(s, 0, sizeof *s); s->used = 1; s->comm = comm; s->seq = seq; s->kind = kind; s->root = root; s->op = op; s->dt = dt; s->count = count; }
    else if (s->kind != kind || s->root != root || s->op != op || s->dt != dt || s->count != count)
        rt_fail("mpi:collective-mismatch", "collective #%d on communicator: %s(root %d, op %d, type %d, count %ld) while another process calls %s(root %d, op %d, type %d, count %ld)",
            seq, kname[kind], root, op, dt, count, kname[s->kind], s->root, s->op, s->dt, s->count);
    if (data && len) chkbuf(kname[kind], data, len);
    s->data[me] = malloc(len + 1); if (data && len) memcpy(s->data[me], data, len); s->len[me] = len; s->has[me] = 1; s->arrived++;
    rt_event(rt_hash(kind + comm * 77, s->data[me], data ? len : 0));
    if (kind <= K_ALLTOALL && kind != K_BARRIER) account(rt_cur, root, 0, comm, data ? len : 0, 1);
    rt_log("%s on comm %d, root %d, op %d, count %ld", kname[kind], comm, root, op, count);
    return s;
}
static int all_in(void* a) { Slot* s = a; return s->arrived == comms[s->comm].size; }
static int root_in(void* a) { Slot* s = a; return s->has[s->root]; }
static void wait_all(Slot* s) { rt_block(all_in, s, kname[s->kind]); }
int MPI_Barrier(MPI_Comm c) { if (c == 2) return 0; wait_all(enter(c, K_BARRIER, 0, 0, 0, 0, 0, 0)); return 0; }
int MPI_Bcast(void* b, int n, MPI_Datatype d, int root, MPI_Comm comm) {
    Comm* c = C(comm); int me = myrank(c); long len = n * dtsize(d);
    if (root < 0 || root >= c->size) rt_fail("mpi:bad-rank", "MPI_Bcast root %d in communicator of size %d", root, c->size);
    chkbuf("MPI_Bcast", b, len);
    Slot* s = enter(comm, K_BCAST, root, 0, 0, len, me == root ? b : 0, me == root ? len : 0);
    if (rt_scen->mpi_syncoll) wait_all(s);
    if (me != root) { rt_block(root_in, s, "MPI_Bcast"); if (len) memcpy(b, s->data[root], len); rt_event(rt_hash(5, b, len)); }
    return 0;
}
static void combine(void* acc, const void* in, long n, MPI_Datatype d, int op) {
#define OPS(T) { T* a = acc; const T* b = in; for (long i = 0; i < n; i++) switch (op) { \
    case MPI_SUM: a[i] += b[i]; break; case MPI_PROD: a[i] *= b[i]; break; case MPI_MIN: if (b[i] < a[i]) a[i] = b[i]; break; case MPI_MAX: if (b[i] > a[i]) a[i] = b[i]; break; \
    case MPI_LAND: a[i] = a[i] && b[i]; break; case MPI_LOR: a[i] = a[i] || b[i]; break; BITS(T) default: rt_fail("mpi:bad-op", "operation %d not valid for type", op); } }
#define BITS(T) case MPI_BAND: a[i] &= b[i]; break; case MPI_BOR: a[i] |= b[i]; break; case MPI_BXOR: a[i] ^= b[i]; break; case MPI_LXOR: a[i] = !a[i] != !b[i]; break;
    switch (d) {
    case MPI_INT8_T: OPS(int8_t) break; case MPI_UINT8_T: OPS(uint8_t) break; case MPI_INT16_T: OPS(int16_t) break; case MPI_UINT16_T: OPS(uint16_t) break;
    case MPI_INT32_T: OPS(int32_t) break; case MPI_UINT32_T: OPS(uint32_t) break; case MPI_INT64_T: OPS(int64_t) break; case MPI_UINT64_T: OPS(uint64_t) break;
#undef BITS
#define BITS(T)
    case MPI_FLOAT: OPS(float) break; case MPI_DOUBLE: OPS(double) break;
    default: rt_fail("mpi:bad-op", "reduction on datatype %d", d);
    }
}
static int reduce(const void* sb, void* rb, int n, MPI_Datatype d, MPI_Op op, int root, MPI_Comm comm, int kind) {
    Comm* c = C(comm); int me = myrank(c); long len = n * dtsize(d);
    if (kind == K_REDUCE && (root < 0 || root >= c->size)) rt_fail("mpi:bad-rank", "MPI_Reduce root %d in communicator of size %d", root, c->size);
    const void* in = sb;
    int getres = kind == K_ALLREDUCE || me == root;
    if (sb == MPI_IN_PLACE) { if (!getres) rt_fail("mpi:in-place-at-non-root", "MPI_IN_PLACE at non-root"); in = rb; }
    chkbuf(kname[kind], in, len); if (getres) chkbuf(kname[kind], rb, len);
    if (getres && len && in != rb && (char*)in < (char*)rb + len && (char*)rb < (char*)in + len) rt_fail("mpi:buffer-overlap", "reduction input and output overlap");
    if (getres && len && sb == rb) rt_fail("mpi:buffer-alias", "reduction with identical input and output buffer without MPI_IN_PLACE");
    Slot* s = enter(comm, kind, root, op, d, n, in, len);
    if (getres || rt_scen->mpi_syncoll) wait_all(s);
    if (getres && len) {
        char* t = malloc(len); memcpy(t, s->data[0], len);
        for (int i = 1; i < c->size; i++) combine(t, s->data[i], n, d, op);
        memcpy(rb, t, len); free(t); rt_event(rt_hash(6, rb, len));
    }
    return 0;
}
int MPI_Reduce(const void* sb, void* rb, int n, MPI_Datatype d, MPI_Op op, int root, MPI_Comm c) { return reduce(sb, rb, n, d, op, root, c, K_REDUCE); }
int MPI_Allreduce(const void* sb, void* rb, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c) { return reduce(sb, rb, n, d, op, -1, c, K_ALLREDUCE); }
static int gatherv(const void* sb, int sn, MPI_Datatype sd, void* rb, const int* rn, const int* dis, MPI_Datatype rd, int rn1, int root, MPI_Comm comm, int kind) {
    Comm* c = C(comm); int me = myrank(c); int get = kind == K_ALLGATHER || me == root;
    long len = sb == MPI_IN_PLACE ? (rn ? rn[me] : rn1) * dtsize(rd) : sn * dtsize(sd);
    const void* in = sb == MPI_IN_PLACE ? (char*)rb + (dis ? dis[me] : me * (rn ? rn[me] : rn1)) * dtsize(rd) : sb;
    Slot* s = enter(comm, kind, root, 0, 0, 0, in, len);
    if (get || rt_scen->mpi_syncoll) wait_all(s);
    if (get) for (int i = 0; i < c->size; i++) {
        long cap = (rn ? rn[i] : rn1) * dtsize(rd);
        char* to = (char*)rb + (dis ? (long)dis[i] : (long)i * rn1) * dtsize(rd);
        if (s->len[i] > cap) rt_fail("mpi:truncation", "%s: process %d contributes %ld bytes, space for %ld", kname[kind], i, s->len[i], cap);
        if (s->len[i] < cap) rt_fail("mpi:collective-mismatch", "%s: process %d contributes %ld bytes, expected %ld", kname[kind], i, s->len[i], cap);
        if (s->len[i]) { chkbuf(kname[kind], to, s->len[i]); memcpy(to, s->data[i], s->len[i]); rt_event(rt_hash(7, to, s->len[i])); }
    }
    return 0;
}
int MPI_Gather(const void* sb, int sn, MPI_Datatype sd, void* rb, int rn, MPI_Datatype rd, int root, MPI_Comm c) { return gatherv(sb, sn, sd, rb, 0, 0, rd, rn, root, c, K_GATHER); }
int MPI_Gatherv(const void* sb, int sn, MPI_Datatype sd, void* rb, const int* rn, const int* dis, MPI_Datatype rd, int root, MPI_Comm c) { return gatherv(sb, sn, sd, rb, rn, dis, rd, 0, root, c, K_GATHER); }
int MPI_Allgather(const void* sb, int sn, MPI_Datatype sd, void* rb, int rn, MPI_Datatype rd, MPI_Comm c) { return gatherv(sb, sn, sd, rb, 0, 0, rd, rn, 0, c, K_ALLGATHER); }
int MPI_Allgatherv(const void* sb, int sn, MPI_Datatype sd, void* rb, const int* rn, const int* dis, MPI_Datatype rd, MPI_Comm c) { return gatherv(sb, sn, sd, rb, rn, dis, rd, 0, 0, c, K_ALLGATHER); }
int MPI_Scatter(const void* sb, int sn, MPI_Datatype sd, void* rb, int rn, MPI_Datatype rd, int root, MPI_Comm comm) {
    Comm* c = C(comm); int me = myrank(c); long len = rn * dtsize(rd);
    Slot* s = enter(comm, K_SCATTER, root, 0, 0, 0, me == root ? sb : 0, me == root ? sn * dtsize(sd) * c->size : 0);
    rt_block(root_in, s, "MPI_Scatter"); if (rt_scen->mpi_syncoll) wait_all(s);
    if (rb != MPI_IN_PLACE) memcpy(rb, s->data[root] + me * len, len);
    return 0;
}
int MPI_Alltoall(const void* sb, int sn, MPI_Datatype sd, void* rb, int rn, MPI_Datatype rd, MPI_Comm comm) {
    Comm* c = C(comm); int me = myrank(c); long len = sn * dtsize(sd);
    Slot* s = enter(comm, K_ALLTOALL, 0, 0, 0, len, sb, len * c->size); wait_all(s); (void)rn; (void)rd;
    for (int i = 0; i < c->size; i++) memcpy((char*)rb + i * len, s->data[i] + me * len, len);
    return 0;
}
static int newcomm(void) { for (int i = 3; i < ncomms; i++) if (!comms[i].used) return i; if (ncomms >= MAXCOMM - 4) rt_fail("mpi:too-many-communicators", "too many communicators"); memset(&comms[ncomms], 0, sizeof(Comm)); return ncomms++; }
int MPI_Comm_dup(MPI_Comm comm, MPI_Comm* o) {
    if (comm == 2) rt_fail("mpi:unsupported", "dup of self");
    Slot* s = enter(comm, K_DUP, 0, 0, 0, 0, 0, 0); wait_all(s);
    if (!s->res[0]) { int k = newcomm(); Comm t = comms[comm]; memset(t.seq, 0, sizeof t.seq); memset(t.freed, 0, sizeof t.freed); comms[k] = t; comms[k].used = 1; s->res[0] = k; }
    *o = s->res[0]; return 0;
}
int MPI_Comm_split(MPI_Comm comm, int color, int key, MPI_Comm* o) {
    Comm* c = C(comm); int me = myrank(c);
    int ck[2] = { color, key };
    Slot* s = enter(comm, K_SPLIT, 0, 0, 0, 0, ck, sizeof ck); s->aux[me][0] = color; s->aux[me][1] = key; wait_all(s);
    if (color == MPI_UNDEFINED) { *o = MPI_COMM_NULL; return 0; }
    if (!s->res[me]) {
        int k = newcomm(); Comm t; memset(&t, 0, sizeof t); t.used = 1;
        int idx[RT_MAXRANKS], n = 0;
        for (int i = 0; i < comms[comm].size; i++) if (s->aux[i][0] == color) idx[n++] = i;
        for (int i = 1; i < n; i++) for (int j = i; j > 0 && s->aux[idx[j]][1] < s->aux[idx[j-1]][1]; j--) { int x = idx[j]; idx[j] = idx[j-1]; idx[j-1] = x; }
        t.size = n; for (int i = 0; i < n; i++) { t.w[i] = comms[comm].w[idx[i]]; s->res[idx[i]] = k; }
        comms[k] = t;
    }
    *o = s->res[me]; return 0;
}
int MPI_Comm_split_type(MPI_Comm c, int t, int k, MPI_Info i, MPI_Comm* o) { (void)t; (void)i; return MPI_Comm_split(c, 0, k, o); }
int MPI_Comm_free(MPI_Comm* c) { C(*c); *c = 0; return 0; }
// groups of processes: lists of world ranks. Creation of a communicator from
// a group is collective over its members only
typedef struct { int n, w[RT_MAXRANKS]; } Grp; static Grp grps[MAXRANKGRP]; static int ngrps;
typedef struct { int comm, tag, res; Grp g; int in[RT_MAXRANKS], arrived; } CGroup; static CGroup cgs[64]; static int ncgs;
static int groups_incomplete(int* n, int* of) { for (int i = 0; i < ncgs; i++) if (cgs[i].arrived != cgs[i].g.n) { *n = cgs[i].arrived; *of = cgs[i].g.n; return 1; } return 0; }
static void groups_reset(void) { ngrps = 1; ncgs = 0; memset(cgs, 0, sizeof cgs); }
static int newgrp(void) { if (ngrps >= MAXRANKGRP) rt_fail("mpi:too-many-groups", "too many groups"); return ngrps++; }
static Grp* G(MPI_Group g) { if (g <= 0 || g >= ngrps || grps[g].n < 0) rt_fail("mpi:bad-group", "operation on invalid group %d", g); return &grps[g]; }
int MPI_Comm_group(MPI_Comm comm, MPI_Group* o) { Comm* c = C(comm); myrank(c); int k = newgrp(); grps[k].n = c->size; memcpy(grps[k].w, c->w, sizeof c->w); *o = k; return 0; }
int MPI_Group_incl(MPI_Group g, int n, const int* r, MPI_Group* o) {
    Grp* a = G(g); int k = newgrp(); if (n < 0 || n > a->n) rt_fail("mpi:bad-group", "MPI_Group_incl with %d of %d members", n, a->n);
    for (int i = 0; i < n; i++) { if (r[i] < 0 || r[i] >= a->n) rt_fail("mpi:bad-group", "MPI_Group_incl of rank %d of %d", r[i], a->n); for (int j = 0; j < i; j++) if (r[j] == r[i]) rt_fail("mpi:bad-group", "MPI_Group_incl with rank %d twice", r[i]); grps[k].w[i] = a->w[r[i]]; }
    grps[k].n = n; *o = k; return 0;
}
int MPI_Group_free(MPI_Group* g) { G(*g)->n = -1; *g = 0; return 0; }
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm* o) { (void)c; (void)g; (void)o; rt_fail("mpi:unsupported", "MPI_Comm_create"); }
static int cg_in(void* a) { CGroup* s = a; return s->arrived == s->g.n; }
int MPI_Comm_create_group(MPI_Comm comm, MPI_Group g, int tag, MPI_Comm* o) {
    Comm* c = C(comm); myrank(c); Grp* a = G(g); int mem = 0; CGroup* s = 0; rt_yield("MPI_Comm_create_group");
    for (int i = 0; i < a->n; i++) { int f = 0; for (int j = 0; j < c->size; j++) f |= c->w[j] == a->w[i]; if (!f) rt_fail("mpi:bad-group", "MPI_Comm_create_group: process %d not in communicator", a->w[i]); mem |= a->w[i] == rt_cur; }
    if (!mem) { *o = MPI_COMM_NULL; return 0; }
    for (int i = 0; i < ncgs && !s; i++) if (cgs[i].comm == comm && cgs[i].tag == tag && !cgs[i].in[rt_cur] && cgs[i].g.n == a->n && !memcmp(cgs[i].g.w, a->w, a->n * sizeof(int))) s = &cgs[i];
    if (!s) { if (ncgs >= 64) rt_fail("mpi:too-many-collectives", "too many collectives"); s = &cgs[ncgs++]; s->comm = comm; s->tag = tag; s->g = *a; }
    s->in[rt_cur] = 1; s->arrived++; rt_event(rt_hash(0xC6, s->g.w, sizeof(int) * s->g.n)); rt_block(cg_in, s, "MPI_Comm_create_group");
    if (!s->res) { int k = newcomm(); Comm t; memset(&t, 0, sizeof t); t.used = 1; t.size = s->g.n; memcpy(t.w, s->g.w, sizeof(int) * t.size); comms[k] = t; s->res = k; }
    *o = s->res; return 0;
}
int MPI_Finalize(void) {
    C(1); MPI_Barrier(1); finalized[rt_cur] = 1; return 0;
}
