From 000b9420297df86ea3ab5455cbb33935a06c7c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:21 +0000
Subject: [PATCH 01/65] fix: laik_get_map_addr must use start of allocation for
 embedded mappings

---
 src/data.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data.c b/src/data.c
index fb077bd..7421112 100644
--- a/src/data.c
+++ b/src/data.c
@@ -1411,8 +1411,10 @@ char* laik_get_map_addr(Laik_Data* d, int n, Laik_Index* idx)
     Laik_Mapping* m = laik_get_map(d, n);
     if (!m) return 0;
 
+    // offsets of a layout are relative to the start of the allocation, which
+    // may be different from <base> if the mapping is embedded in a larger one
     int64_t off = laik_offset(m->layout, m->layoutSection, idx);
-    return m->base + off * d->elemsize;
+    return m->start + off * d->elemsize;
 }
 
 
-- 
2.43.0


From de9288c29cc4707bbdb18bc86d485d48fcf73c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:21 +0000
Subject: [PATCH 02/65] fix: 1d transitions: handle 'any' reduction with
 multiple inputs, skip reductions nobody wants

---
 src/space.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/space.c b/src/space.c
index 9fc04e2..58edd56 100644
--- a/src/space.c
+++ b/src/space.c
@@ -1290,6 +1290,32 @@ void calcAddReductions(int tflags,
 
                 } // one input
 
+                // any of the inputs is fine: receivers with own input use that,
+                // all others get the value from first input task
+                if ((redOp == LAIK_RO_Any) && (inputGroup.count > 1)) {
+                    int provider = inputGroup.task[0];
+                    if (myActivity == 3)
+                        appendLocalTOp(&range,
+                                       myInputRangeNo, myOutputRangeNo,
+                                       myInputMapNo, myOutputMapNo);
+                    else if (myActivity == 2)
+                        appendRecvTOp(&range,
+                                      myOutputRangeNo, myOutputMapNo, provider);
+                    if (provider == myid) {
+                        for(int out = 0; out < outputGroup.count; out++) {
+                            if (isInTaskGroup(&inputGroup, outputGroup.task[out]))
+                                continue;
+                            appendSendTOp(&range,
+                                          myInputRangeNo, myInputMapNo,
+                                          outputGroup.task[out]);
+                        }
+                    }
+                    continue;
+                }
+
+                // no process wants the result
+                if (outputGroup.count == 0) continue;
+
                 // add reduction operation
                 int in = getTaskGroup(&inputGroup);
                 int out = getTaskGroup(&outputGroup);
-- 
2.43.0


From 37c9b36f541ead8ef4a81e1846c95b3311beabb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:21 +0000
Subject: [PATCH 03/65] fix: neutral elements for min/max reductions were
 swapped, use type-specific init for no input

---
 src/type.c | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/type.c b/src/type.c
index d55f755..8775c24 100644
--- a/src/type.c
+++ b/src/type.c
@@ -63,8 +63,8 @@ void laik_char_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0; break;
     case LAIK_RO_Prod: v = 1; break;
     case LAIK_RO_And:  v = ~0; break;
-    case LAIK_RO_Min:  v = INT8_MIN; break;
-    case LAIK_RO_Max:  v = INT8_MAX; break;
+    case LAIK_RO_Min:  v = INT8_MAX; break;
+    case LAIK_RO_Max:  v = INT8_MIN; break;
     default:
         assert(0);
     }
@@ -139,8 +139,8 @@ void laik_uchar_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0; break;
     case LAIK_RO_Prod: v = 1; break;
     case LAIK_RO_And:  v = 255; break;
-    case LAIK_RO_Min:  v = 0; break;
-    case LAIK_RO_Max:  v = UINT8_MAX; break;
+    case LAIK_RO_Min:  v = UINT8_MAX; break;
+    case LAIK_RO_Max:  v = 0; break;
     default:
         assert(0);
     }
@@ -159,7 +159,7 @@ void laik_uchar_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(unsigned char));
         else
-            laik_char_init(out, count, o);
+            laik_uchar_init(out, count, o);
         return;
     }
 
@@ -214,8 +214,8 @@ void laik_int32_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0; break;
     case LAIK_RO_Prod: v = 1; break;
     case LAIK_RO_And:  v = ~0; break;
-    case LAIK_RO_Min:  v = INT32_MIN; break;
-    case LAIK_RO_Max:  v = INT32_MAX; break;
+    case LAIK_RO_Min:  v = INT32_MAX; break;
+    case LAIK_RO_Max:  v = INT32_MIN; break;
     default:
         assert(0);
     }
@@ -234,7 +234,7 @@ void laik_int32_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(int32_t));
         else
-            laik_char_init(out, count, o);
+            laik_int32_init(out, count, o);
         return;
     }
 
@@ -289,8 +289,8 @@ void laik_uint32_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0; break;
     case LAIK_RO_Prod: v = 1; break;
     case LAIK_RO_And:  v = ~0; break;
-    case LAIK_RO_Min:  v = 0; break;
-    case LAIK_RO_Max:  v = UINT32_MAX; break;
+    case LAIK_RO_Min:  v = UINT32_MAX; break;
+    case LAIK_RO_Max:  v = 0; break;
     default:
         assert(0);
     }
@@ -309,7 +309,7 @@ void laik_uint32_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(uint32_t));
         else
-            laik_char_init(out, count, o);
+            laik_uint32_init(out, count, o);
         return;
     }
 
@@ -364,8 +364,8 @@ void laik_int64_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0l; break;
     case LAIK_RO_Prod: v = 1l; break;
     case LAIK_RO_And:  v = ~0l; break;
-    case LAIK_RO_Min:  v = INT64_MIN; break;
-    case LAIK_RO_Max:  v = INT64_MAX; break;
+    case LAIK_RO_Min:  v = INT64_MAX; break;
+    case LAIK_RO_Max:  v = INT64_MIN; break;
     default:
         assert(0);
     }
@@ -384,7 +384,7 @@ void laik_int64_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(int64_t));
         else
-            laik_char_init(out, count, o);
+            laik_int64_init(out, count, o);
         return;
     }
 
@@ -439,8 +439,8 @@ void laik_uint64_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0l; break;
     case LAIK_RO_Prod: v = 1l; break;
     case LAIK_RO_And:  v = ~0l; break;
-    case LAIK_RO_Min:  v = 0; break;
-    case LAIK_RO_Max:  v = UINT64_MAX; break;
+    case LAIK_RO_Min:  v = UINT64_MAX; break;
+    case LAIK_RO_Max:  v = 0; break;
     default:
         assert(0);
     }
@@ -459,7 +459,7 @@ void laik_uint64_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(uint64_t));
         else
-            laik_char_init(out, count, o);
+            laik_uint64_init(out, count, o);
         return;
     }
 
@@ -512,8 +512,8 @@ void laik_double_init(void* base, int count, Laik_ReductionOperation o)
     switch(o) {
     case LAIK_RO_Sum:  v = 0.0; break;
     case LAIK_RO_Prod: v = 1.0; break;
-    case LAIK_RO_Min:  v = -DBL_MAX; break;
-    case LAIK_RO_Max:  v = DBL_MAX; break;
+    case LAIK_RO_Min:  v = DBL_MAX; break;
+    case LAIK_RO_Max:  v = -DBL_MAX; break;
     default:
         assert(0);
     }
@@ -575,8 +575,8 @@ void laik_float_init(void* base, int count, Laik_ReductionOperation o)
     switch(o) {
     case LAIK_RO_Sum:  v = 0.0; break;
     case LAIK_RO_Prod: v = 1.0; break;
-    case LAIK_RO_Min:  v = -FLT_MAX; break;
-    case LAIK_RO_Max:  v = FLT_MAX; break;
+    case LAIK_RO_Min:  v = FLT_MAX; break;
+    case LAIK_RO_Max:  v = -FLT_MAX; break;
     default:
         assert(0);
     }
-- 
2.43.0


From 1f553d843c65efaf441fd3a981e569ab518dcd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:33 +0000
Subject: [PATCH 04/65] fix: MPI backend: and/or reductions are bitwise, as
 with LAIK's own reduction functions

---
 src/backend-mpi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index b0e9cbb..34669af 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -462,8 +462,8 @@ MPI_Op getMPIOp(Laik_ReductionOperation redOp)
     case LAIK_RO_Prod: mpiRedOp = MPI_PROD; break;
     case LAIK_RO_Min:  mpiRedOp = MPI_MIN; break;
     case LAIK_RO_Max:  mpiRedOp = MPI_MAX; break;
-    case LAIK_RO_And:  mpiRedOp = MPI_LAND; break;
-    case LAIK_RO_Or:   mpiRedOp = MPI_LOR; break;
+    case LAIK_RO_And:  mpiRedOp = MPI_BAND; break;
+    case LAIK_RO_Or:   mpiRedOp = MPI_BOR; break;
     default: assert(0);
     }
     return mpiRedOp;
-- 
2.43.0


From 9823f5057e79dc69b2e6b9431eae38c29725fbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:33 +0000
Subject: [PATCH 05/65] fix: MPI backend: async mode must wait for sends before
 buffers are modified in later rounds

---
 src/backend-mpi.c | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index 34669af..e0d56f9 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -212,7 +212,7 @@ bool laik_mpi_log_action(Laik_Action* a)
 }
 
 // transformation: split send/recv actions into isend/irecv + wait
-// - replace send with isend and wait for completion at end
+// - replace send with isend and wait for completion at end of its round
 // - replace recv with irecv at begin and wait at original position
 bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
 {
@@ -220,19 +220,18 @@ bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
     assert(as->newActionCount == 0);
 
     unsigned int count = 0;
-    int maxround = 0;
     Laik_Action* a = as->action;
     for(unsigned int i = 0; i < as->actionCount; i++, a = nextAction(a)) {
-        if (a->round > maxround) maxround = a->round;
         if ((a->type == LAIK_AT_BufRecv) || (a->type == LAIK_AT_BufSend))
             count++;
     }
 
     if (count == 0) return false;
 
-    // add 2 new rounds: 0 and maxround+2
-    // - round 0 gets MpiReq and all MpiIrecv actions
-    // - round maxround+2 gets Waits from MpiISend actions
+    // spread rounds: round <r> becomes round 2*<r>+1
+    // - new round 0 gets MpiReq and all MpiIrecv actions
+    // - round 2*<r>+2 gets Waits from MpiISend actions of round <r>, as
+    //   actions in later rounds are allowed to modify the buffers sent
 
     MPI_Request* buf = malloc(count * sizeof(MPI_Request));
     laik_mpi_addMpiReq(as, 0, count, buf);
@@ -243,9 +242,9 @@ bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
         switch(a->type) {
         case LAIK_AT_BufSend: {
             Laik_A_BufSend* aa = (Laik_A_BufSend*) a;
-            laik_mpi_addMpiIsend(as, a->round + 1,
+            laik_mpi_addMpiIsend(as, 2 * a->round + 1,
                                  aa->buf, aa->count, aa->to_rank, req_id);
-            laik_mpi_addMpiWait(as, maxround + 2, req_id);
+            laik_mpi_addMpiWait(as, 2 * a->round + 2, req_id);
             req_id++;
             break;
         }
@@ -254,14 +253,13 @@ bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
             Laik_A_BufRecv* aa = (Laik_A_BufRecv*) a;
             laik_mpi_addMpiIrecv(as, 0,
                                  aa->buf, aa->count, aa->from_rank, req_id);
-            laik_mpi_addMpiWait(as, a->round + 1, req_id);
+            laik_mpi_addMpiWait(as, 2 * a->round + 1, req_id);
             req_id++;
             break;
         }
 
         default:
-            // all rounds up by one due to new round 0
-            laik_aseq_add(a, as, a->round + 1);
+            laik_aseq_add(a, as, 2 * a->round + 1);
             break;
         }
     }
-- 
2.43.0


From a14c5bbd229ba465f2e28451c839f3d3eb24f270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:33 +0000
Subject: [PATCH 06/65] fix: support reductions on multi-dimensional data in
 backends using action flattening

---
 src/action.c | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/action.c b/src/action.c
index 90b8892..70447af 100644
--- a/src/action.c
+++ b/src/action.c
@@ -1988,8 +1988,44 @@ bool laik_aseq_flattenPacking(Laik_ActionSeq* as)
 
         case LAIK_AT_MapGroupReduce:
 
-            // TODO: for >1 dims, use pack/unpack with buffer
-            if (ba->range->space->dims == 1) {
+            if (ba->range->space->dims > 1) {
+                // pack own input into buffer, reduce on that, and unpack result
+                bool isInput, isOutput;
+                isInput = laik_trans_isInGroup(tc->transition, ba->inputGroup, myid);
+                isOutput = laik_trans_isInGroup(tc->transition, ba->outputGroup, myid);
+                count = (unsigned int) laik_range_size(ba->range);
+                int bufID = laik_aseq_addBufReserve(as, count * elemsize, -1);
+
+                if (isInput) {
+                    if (tc->fromList) {
+                        assert(ba->fromMapNo < tc->fromList->count);
+                        fromMap = &(tc->fromList->map[ba->fromMapNo]);
+                        laik_aseq_addPackToRBuf(as, 3 * a->round,
+                                                fromMap, ba->range, bufID, 0);
+                    }
+                    else
+                        laik_aseq_addMapPackToRBuf(as, 3 * a->round,
+                                                   ba->fromMapNo, ba->range, bufID, 0);
+                }
+
+                laik_aseq_addRBufGroupReduce(as, 3 * a->round + 1,
+                                             ba->inputGroup, ba->outputGroup,
+                                             bufID, 0, count, ba->redOp);
+
+                if (isOutput) {
+                    if (tc->toList) {
+                        assert(ba->toMapNo < tc->toList->count);
+                        toMap = &(tc->toList->map[ba->toMapNo]);
+                        laik_aseq_addUnpackFromRBuf(as, 3 * a->round + 2,
+                                                    bufID, 0, toMap, ba->range);
+                    }
+                    else
+                        laik_aseq_addMapUnpackFromRBuf(as, 3 * a->round + 2,
+                                                       bufID, 0, ba->toMapNo, ba->range);
+                }
+                handled = true;
+            }
+            else {
                 char *fromBase, *toBase;
 
                 // if current task is input, fromBase should be allocated
-- 
2.43.0


From 976270b248d3b2e12b869801994bd56feeeb7c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:33 +0000
Subject: [PATCH 07/65] fix: multi-dimensional transitions: sender/receiver
 must agree on messages and order

---
 src/space.c | 122 +++++++++++++++++++++++-----------------------------
 1 file changed, 55 insertions(+), 67 deletions(-)

diff --git a/src/space.c b/src/space.c
index 58edd56..5c54d5d 100644
--- a/src/space.c
+++ b/src/space.c
@@ -1355,6 +1355,21 @@ void calcAddReductions(int tflags,
     freeBorderList();
 }
 
+// when sending <range> from <sender> to <receiver>, is this not needed as
+// receiver already has the data, or a task with lower rank will send it?
+static
+bool hasOtherProvider(Laik_RangeList* fromRL, Laik_Range* range,
+                      int sender, int receiver)
+{
+    for(unsigned int o = fromRL->off[receiver]; o < fromRL->off[receiver+1]; o++)
+        if (laik_range_within_range(range, &(fromRL->trange[o].range)))
+            return true;
+    for(unsigned int o = fromRL->off[0]; o < fromRL->off[sender]; o++)
+        if (laik_range_within_range(range, &(fromRL->trange[o].range)))
+            return true;
+    return false;
+}
+
 static int trans_id = 0;
 
 // Calculate communication required for transitioning between partitionings
@@ -1447,25 +1462,9 @@ do_calc_transition(Laik_Space* space,
                 exit(1); // not actually needed, laik_panic never returns
             }
 
-            // determine local ranges to keep
-            // (may need local copy if from/to mappings are different).
-            // reductions are not handled here, but by backend
-            for(o1 = fromRL->off[myid]; o1 < fromRL->off[myid+1]; o1++) {
-                for(o2 = toRL->off[myid]; o2 < toRL->off[myid+1]; o2++) {
-                    range = laik_range_intersect(&(fromRL->trange[o1].range),
-                                               &(toRL->trange[o2].range));
-                    if (range == 0) continue;
-
-                    appendLocalTOp(range,
-                                   o1 - fromRL->off[myid],
-                                   o2 - toRL->off[myid],
-                                   fromRL->trange[o1].mapNo,
-                                   toRL->trange[o2].mapNo);
-                }
-            }
-
             // something to reduce?
-            if (laik_is_reduction(redOp)) {
+            // (with operation "any", it is enough to copy one of the inputs)
+            if (laik_is_reduction(redOp) && (redOp != LAIK_RO_Any)) {
                 // special case: reduction on full space involving everyone with
                 //               result to one or all?
                 bool fromAllto1OrAll = false;
@@ -1506,66 +1505,55 @@ do_calc_transition(Laik_Space* space,
             }
             else { // no reduction
 
-                // something to receive not coming from a reduction?
-                for(int task = 0; task < taskCount; task++) {
-                    if (task == myid) continue;
-                    for(o1 = toRL->off[myid]; o1 < toRL->off[myid+1]; o1++) {
-
-                        // everything we have local will not have been sent
-                        // TODO: we only check for exact match to catch All
-                        // FIXME: should print out a Warning/Error as the App
-                        //        was requesting for overwriting of values!
-                        range = &(toRL->trange[o1].range);
-                        for(o2 = fromRL->off[myid]; o2 < fromRL->off[myid+1]; o2++) {
-                            if (laik_range_isEqual(range,
-                                                   &(fromRL->trange[o2].range))) {
-                                range = 0;
-                                break;
-                            }
-                        }
+                // determine local ranges to keep
+                // (may need local copy if from/to mappings are different).
+                for(o1 = fromRL->off[myid]; o1 < fromRL->off[myid+1]; o1++) {
+                    for(o2 = toRL->off[myid]; o2 < toRL->off[myid+1]; o2++) {
+                        range = laik_range_intersect(&(fromRL->trange[o1].range),
+                                                   &(toRL->trange[o2].range));
                         if (range == 0) continue;
 
-                        for(o2 = fromRL->off[task]; o2 < fromRL->off[task+1]; o2++) {
-
-                            range = laik_range_intersect(&(fromRL->trange[o2].range),
-                                                       &(toRL->trange[o1].range));
-                            if (range == 0) continue;
-
-                            appendRecvTOp(range, o1 - toRL->off[myid],
-                                          toRL->trange[o1].mapNo, task);
-                        }
+                        appendLocalTOp(range,
+                                       o1 - fromRL->off[myid],
+                                       o2 - toRL->off[myid],
+                                       fromRL->trange[o1].mapNo,
+                                       toRL->trange[o2].mapNo);
                     }
                 }
-            }
 
-            // something to send?
-            for(int task = 0; task < taskCount; task++) {
-                if (task == myid) continue;
-                for(o1 = fromRL->off[myid]; o1 < fromRL->off[myid+1]; o1++) {
+                // something to receive?
+                // sender and receiver must agree on messages and their order
+                for(int task = 0; task < taskCount; task++) {
+                    if (task == myid) continue;
+                    for(o1 = fromRL->off[task]; o1 < fromRL->off[task+1]; o1++) {
+                        for(o2 = toRL->off[myid]; o2 < toRL->off[myid+1]; o2++) {
+
+                            range = laik_range_intersect(&(fromRL->trange[o1].range),
+                                                       &(toRL->trange[o2].range));
+                            if (range == 0) continue;
+                            if (hasOtherProvider(fromRL, range, task, myid)) continue;
 
-                    // everything the receiver has local, no need to send
-                    // TODO: we only check for exact match to catch All
-                    // FIXME: should print out a Warning/Error as the App
-                    //        requests overwriting of values!
-                    range = &(fromRL->trange[o1].range);
-                    for(o2 = fromRL->off[task]; o2 < fromRL->off[task+1]; o2++) {
-                        if (laik_range_isEqual(range,
-                                               &(fromRL->trange[o2].range))) {
-                            range = 0;
-                            break;
+                            appendRecvTOp(range, o2 - toRL->off[myid],
+                                          toRL->trange[o2].mapNo, task);
                         }
                     }
-                    if (range == 0) continue;
+                }
 
-                    // we may send multiple messages to same task
-                    for(o2 = toRL->off[task]; o2 < toRL->off[task+1]; o2++) {
+                // something to send?
+                for(int task = 0; task < taskCount; task++) {
+                    if (task == myid) continue;
+                    for(o1 = fromRL->off[myid]; o1 < fromRL->off[myid+1]; o1++) {
+                        // we may send multiple messages to same task
+                        for(o2 = toRL->off[task]; o2 < toRL->off[task+1]; o2++) {
 
-                        range = laik_range_intersect(&(fromRL->trange[o1].range),
-                                                   &(toRL->trange[o2].range));
-                        if (range == 0) continue;
+                            range = laik_range_intersect(&(fromRL->trange[o1].range),
+                                                       &(toRL->trange[o2].range));
+                            if (range == 0) continue;
+                            if (hasOtherProvider(fromRL, range, myid, task)) continue;
 
-                        appendSendTOp(range, o1 - fromRL->off[myid],
-                                      fromRL->trange[o1].mapNo, task);
+                            appendSendTOp(range, o1 - fromRL->off[myid],
+                                          fromRL->trange[o1].mapNo, task);
+                        }
                     }
                 }
             }
-- 
2.43.0


From 5af5ba13738ad4fcd5948fa4dff98979ab7ecf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:24 +0000
Subject: [PATCH 08/65] fix: lex layout: use strides of the section of a
 mapping, not of first section

---
 src/layout_lex.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/layout_lex.c b/src/layout_lex.c
index 6f7d429..0285dbc 100644
--- a/src/layout_lex.c
+++ b/src/layout_lex.c
@@ -180,8 +180,8 @@ void copy_lex(Laik_Range* range,
     Laik_Layout_Lex* toLayout = laik_is_layout_lex(to->layout);
     assert(fromLayout != 0);
     assert(toLayout != 0);
-    Lex_Entry* fromLayoutEntry = &(fromLayout->e[0]);
-    Lex_Entry* toLayoutEntry = &(toLayout->e[0]);
+    Lex_Entry* fromLayoutEntry = &(fromLayout->e[from->layoutSection]);
+    Lex_Entry* toLayoutEntry = &(toLayout->e[to->layoutSection]);
 
     unsigned int elemsize = from->data->elemsize;
     assert(elemsize == to->data->elemsize);
@@ -239,7 +239,7 @@ unsigned int pack_lex(Laik_Mapping* m, Laik_Range* s,
 {
     unsigned int elemsize = m->data->elemsize;
     Laik_Layout_Lex* layout = laik_is_layout_lex(m->layout);
-    Lex_Entry* layoutEntry = &(layout->e[0]);
+    Lex_Entry* layoutEntry = &(layout->e[m->layoutSection]);
     int dims = m->layout->dims;
 
     if (laik_index_isEqual(dims, idx, &(s->to))) {
@@ -362,7 +362,7 @@ unsigned int unpack_lex(Laik_Mapping* m, Laik_Range* s,
 {
     unsigned int elemsize = m->data->elemsize;
     Laik_Layout_Lex* layout = laik_is_layout_lex(m->layout);
-    Lex_Entry* layoutEntry = &(layout->e[0]);
+    Lex_Entry* layoutEntry = &(layout->e[m->layoutSection]);
     int dims = m->layout->dims;
 
     // there should be something to unpack
-- 
2.43.0


From cbab01459d0e96641faa5cbb5a50d4d65aee0f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:43 +0000
Subject: [PATCH 09/65] fix: lex layout: no buffer overflow in description of
 layouts with many maps

---
 src/layout_lex.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/layout_lex.c b/src/layout_lex.c
index 0285dbc..c3a1ef7 100644
--- a/src/layout_lex.c
+++ b/src/layout_lex.c
@@ -124,6 +124,11 @@ char* describe_lex(Laik_Layout* l)
                 l->dims, l->map_count);
     for(int i = 0; i < l->map_count; i++) {
         Lex_Entry* e = &(ll->e[i]);
+        if (o > 120) {
+            // only limited space: skip description of further maps
+            o += sprintf(s+o, ", ...");
+            break;
+        }
         o += sprintf(s+o, "%s%llu/%llu/%llu",
              (i == 0) ? "":", ",
              (unsigned long long) e->stride[0],
-- 
2.43.0


From 1cc7fc6614107a782c40f781db4a184e53046457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:43 +0000
Subject: [PATCH 10/65] fix: switching from or to no partitioning must not
 crash

---
 src/data.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data.c b/src/data.c
index 7421112..faa5af8 100644
--- a/src/data.c
+++ b/src/data.c
@@ -789,7 +789,7 @@ void doTransition(Laik_Data* d, Laik_Transition* t, Laik_ActionSeq* as,
         // no transition to exec, just free old mappings
 
         // only free mappings if not part of a reservation
-        if (fromList->res == 0)
+        if (fromList && (fromList->res == 0))
             freeMappingList(fromList, d->stat);
         return;
     }
@@ -804,7 +804,8 @@ void doTransition(Laik_Data* d, Laik_Transition* t, Laik_ActionSeq* as,
     checkMapReuse(toList, fromList);
 
     // allocate space for mappings for which reuse is not possible
-    allocateMappings(toList, d->stat);
+    if (toList)
+        allocateMappings(toList, d->stat);
 
     bool doASeqCleanup = false;
     if (as) {
-- 
2.43.0


From c53c44fdc4f750959fc4ac3522d12b83df736eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:43 +0000
Subject: [PATCH 11/65] fix: copy data between different mappings of same
 reservation

---
 src/data.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/data.c b/src/data.c
index faa5af8..b272fe9 100644
--- a/src/data.c
+++ b/src/data.c
@@ -554,9 +554,6 @@ void copyMaps(Laik_Transition* t,
     assert(fromList != 0);
     assert(toList != 0);
 
-    // no copy required if we stay in same reservation
-    if ((fromList->res != 0) && (fromList->res == toList->res)) return;
-
     for(int i = 0; i < t->localCount; i++) {
         struct localTOp* op = &(t->local[i]);
         assert(op->fromMapNo < fromList->count);
@@ -574,6 +571,10 @@ void copyMaps(Laik_Transition* t,
             continue;
         }
 
+        // no copy required if we stay in same mapping of same reservation
+        if ((fromMap->baseMapping != 0) &&
+            (fromMap->baseMapping == toMap->baseMapping)) continue;
+
         Laik_Data* d = toMap->data;
         Laik_Range* s = &(op->range);
 
-- 
2.43.0


From 48669fb6e44275a5c638dda51e1de882e060be4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:43 +0000
Subject: [PATCH 12/65] fix: reservations: really free memory allocated, do not
 keep using a freed reservation

---
 src/data.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/data.c b/src/data.c
index b272fe9..d094745 100644
--- a/src/data.c
+++ b/src/data.c
@@ -940,7 +940,7 @@ void laik_reservation_add(Laik_Reservation* r, Laik_Partitioning* p)
 void laik_reservation_free(Laik_Reservation* r)
 {
     for(int i = 0; i < r->count; i++) {
-        assert(r->entry[i].mList != 0);
+        // may be 0 if never allocated
         free(r->entry[i].mList);
         r->entry[i].mList = 0;
     }
@@ -954,9 +954,15 @@ void laik_reservation_free(Laik_Reservation* r)
         r->mList = 0;
     }
 
+    // do not use this reservation for further switches
+    if (r->data->activeReservation == r)
+        r->data->activeReservation = 0;
+
     laik_log(1, "reservation '%s' (data '%s'): freed %llu bytes\n",
                  r->name, r->data->name, (unsigned long long) bytesFreed);
-                
+
+    free(r->entry);
+    free(r->name);
     free(r);
 }
 
@@ -1174,7 +1180,11 @@ void laik_reservation_alloc(Laik_Reservation* res)
             m->layout = m->baseMapping->layout;
             m->layoutSection = m->baseMapping->layoutSection;
 
+            // memory keeps being owned by base mapping
+            Laik_Allocator* allocator = m->baseMapping->allocator;
             initEmbeddedMapping(m, m->baseMapping);
+            m->baseMapping->allocator = allocator;
+            m->allocator = 0;
 
             if (laik_log_begin(1)) {
                 laik_log_append("  [%d] ", m->mapNo);
-- 
2.43.0


From 9cb270a795197a4e402693961fd2bb99dd5dc222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:08 +0000
Subject: [PATCH 13/65] fix: use memory provided by application in place, but
 not if it holds current data

---
 src/data.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/data.c b/src/data.c
index d094745..26c3cd0 100644
--- a/src/data.c
+++ b/src/data.c
@@ -376,6 +376,13 @@ Laik_MappingList* prepareMaps(Laik_Data* d, Laik_Partitioning* p)
 
     Laik_MappingList* ml = laik_mappinglist_new(d, n, layout);
 
+    // memory provided by application can only be used if it does not hold
+    // the current data, which still may need to be copied or sent
+    bool useProvided = (d->map0_base != 0);
+    for(int i = 0; d->activeMappings && (i < d->activeMappings->count); i++)
+        if (d->activeMappings->map[i].start == d->map0_base)
+            useProvided = false;
+
     for(int mapNo = 0; mapNo < n; mapNo++) {
         Laik_Mapping* m = &(ml->map[mapNo]);
         m->requiredRange = ranges[mapNo];
@@ -383,7 +390,7 @@ Laik_MappingList* prepareMaps(Laik_Data* d, Laik_Partitioning* p)
         m->layout = layout;       // all maps use same layout
         m->layoutSection = mapNo; // but different sections of it
 
-        if ((mapNo == 0) && (d->map0_base != 0)) {
+        if ((mapNo == 0) && useProvided) {
             laik_log(1, "  using provided memory (%lld bytes at %p with layout %s)",
                      (unsigned long long int) d->map0_size, d->map0_base,
                      layout->describe(m->layout));
@@ -651,6 +658,7 @@ void checkMapReuse(Laik_MappingList* toList, Laik_MappingList* fromList)
 
     for(int i = 0; i < toList->count; i++) {
         Laik_Mapping* toMap = &(toList->map[i]);
+        if (toMap->base != 0) continue; // memory provided by application
 
         Laik_Mapping* fromMap = 0;
         int sNo;
-- 
2.43.0


From 36efc47f1b4cf53e4e857aa2bbe6fdbc690ca55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:08 +0000
Subject: [PATCH 14/65] fix: laik_free has to release memory of mappings and
 unregister the container

---
 include/laik/core-internal.h |  1 +
 src/core.c                   | 10 ++++++++++
 src/data.c                   |  7 +++++++
 3 files changed, 18 insertions(+)

diff --git a/include/laik/core-internal.h b/include/laik/core-internal.h
index 7b3d204..1ad9b70 100644
--- a/include/laik/core-internal.h
+++ b/include/laik/core-internal.h
@@ -117,6 +117,7 @@ void laik_addSpaceForInstance(Laik_Instance* inst, Laik_Space* s);
 void laik_removeSpaceFromInstance(Laik_Instance* inst, Laik_Space* s);
 
 void laik_addDataForInstance(Laik_Instance* inst, Laik_Data* d);
+void laik_removeDataFromInstance(Laik_Instance* inst, Laik_Data* d);
 
 // synchronize location strings via KVS among processes in current world
 void laik_sync_location(Laik_Instance *instance);
diff --git a/src/core.c b/src/core.c
index 4150c81..944cb9c 100644
--- a/src/core.c
+++ b/src/core.c
@@ -281,6 +281,16 @@ void laik_addDataForInstance(Laik_Instance* inst, Laik_Data* d)
     inst->data_count++;
 }
 
+void laik_removeDataFromInstance(Laik_Instance* inst, Laik_Data* d)
+{
+    for(int i = 0; i < inst->data_count; i++) {
+        if (inst->data[i] != d) continue;
+        inst->data_count--;
+        for(; i < inst->data_count; i++)
+            inst->data[i] = inst->data[i + 1];
+    }
+}
+
 
 // create a group to be used in this LAIK instance
 Laik_Group* laik_create_group(Laik_Instance* i, int maxsize)
diff --git a/src/data.c b/src/data.c
index 26c3cd0..cb6c641 100644
--- a/src/data.c
+++ b/src/data.c
@@ -1640,6 +1640,13 @@ void laik_free(Laik_Data* d)
 {
     // TODO: free space, partitionings
 
+    // mappings of a reservation are freed together with the reservation
+    if (d->activeMappings && (d->activeMappings->res == 0))
+        freeMappingList(d->activeMappings, d->stat);
+
+    laik_removeDataFromInstance(d->space->inst, d);
+
+    free(d->stat);
     free(d);
 }
 
-- 
2.43.0


From 2210c77c12c1eb718557bae582364bab489d502c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:36 +0000
Subject: [PATCH 15/65] fix: support initialization of multi-dimensional
 containers and other layouts

---
 include/laik/data.h |  3 +++
 src/data.c          | 32 +++++++++++++++++++-------------
 src/layout_lex.c    |  6 ++++++
 3 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/include/laik/data.h b/include/laik/data.h
index ebf9c7f..a354b7e 100644
--- a/include/laik/data.h
+++ b/include/laik/data.h
@@ -368,6 +368,9 @@ void laik_layout_copy_gen(Laik_Range* range,
 // with innermost dim x, then y, z, fully covering given ranges
 Laik_Layout* laik_new_layout_lex(int n, Laik_Range* ranges);
 
+// is given layout a lexicographical layout?
+bool laik_layout_lex_check(Laik_Layout* l);
+
 // return stride for dimension <d> in lex layout mapping <n>
 uint64_t laik_layout_lex_stride(Laik_Layout* l, int n, int d);
 
diff --git a/src/data.c b/src/data.c
index cb6c641..65eb0dd 100644
--- a/src/data.c
+++ b/src/data.c
@@ -721,31 +721,37 @@ void initMaps(Laik_Transition* t,
         assert(toMap->base);
 
         int dims = toMap->data->space->dims;
-        assert(dims == 1); // only for 1d now
         Laik_Data* d = toMap->data;
         Laik_Range* s = &(op->range);
-        int from = s->from.i[0];
-        int to = s->to.i[0];
-        int elemCount = to - from;
-
-        char* toBase = toMap->base;
-        assert(from >= toMap->requiredRange.from.i[0]);
-        toBase += (from - toMap->requiredRange.from.i[0]) * d->elemsize;
+        uint64_t elemCount = laik_range_size(s);
 
         if (ss)
             ss->initedBytes += elemCount * d->elemsize;
 
-        if (d->type->init)
-            (d->type->init)(toBase, elemCount, op->redOp);
-        else {
+        if (!d->type->init) {
             laik_log(LAIK_LL_Panic,
                      "Need initialization function for type '%s'. Not set!",
                      d->type->name);
             assert(0);
         }
 
-        laik_log(1, "init map for '%s' range/map %d/%d: %d entries in [%d;%d[ from %p\n",
-                 d->name, op->rangeNo, op->mapNo, elemCount, from, to, (void*) toBase);
+        // number of consecutive elements which can be initialized at once
+        int64_t rowCount = 1;
+        if (laik_layout_lex_check(toMap->layout))
+            rowCount = s->to.i[0] - s->from.i[0];
+
+        int64_t from2 = (dims > 2) ? s->from.i[2] : 0, to2 = (dims > 2) ? s->to.i[2] : 1;
+        int64_t from1 = (dims > 1) ? s->from.i[1] : 0, to1 = (dims > 1) ? s->to.i[1] : 1;
+        Laik_Index idx;
+        for(idx.i[2] = from2; idx.i[2] < to2; idx.i[2]++)
+            for(idx.i[1] = from1; idx.i[1] < to1; idx.i[1]++)
+                for(idx.i[0] = s->from.i[0]; idx.i[0] < s->to.i[0]; idx.i[0] += rowCount) {
+                    int64_t off = laik_offset(toMap->layout, toMap->layoutSection, &idx);
+                    (d->type->init)(toMap->start + off * d->elemsize, rowCount, op->redOp);
+                }
+
+        laik_log(1, "init map for '%s' range/map %d/%d: %llu entries\n",
+                 d->name, op->rangeNo, op->mapNo, (unsigned long long) elemCount);
     }
 }
 
diff --git a/src/layout_lex.c b/src/layout_lex.c
index c3a1ef7..8488042 100644
--- a/src/layout_lex.c
+++ b/src/layout_lex.c
@@ -536,6 +536,12 @@ Laik_Layout* laik_new_layout_lex(int n, Laik_Range* ranges)
 }
 
 
+// is this a lexicographical layout?
+bool laik_layout_lex_check(Laik_Layout* l)
+{
+    return laik_is_layout_lex(l) != 0;
+}
+
 // return stride for dimension <d> in lex layout map <n>
 uint64_t laik_layout_lex_stride(Laik_Layout* l, int n, int d)
 {
-- 
2.43.0


From c9f403bde65b8ca757d2fe026aea4565bad83ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:16 +0000
Subject: [PATCH 16/65] fix: 1d send/recv/reduce only may directly work on
 mapping memory with lexicographical layout

---
 src/action.c | 129 ++++++++++++++++++++++++---------------------------
 1 file changed, 60 insertions(+), 69 deletions(-)

diff --git a/src/action.c b/src/action.c
index 70447af..1aa668d 100644
--- a/src/action.c
+++ b/src/action.c
@@ -1900,10 +1900,10 @@ bool laik_aseq_flattenPacking(Laik_ActionSeq* as)
                 assert(aa->fromMapNo < tc->fromList->count);
             fromMap = tc->fromList ? &(tc->fromList->map[aa->fromMapNo]) : 0;
 
-            if (fromMap && (aa->range->space->dims == 1)) {
+            if (fromMap && (aa->range->space->dims == 1) &&
+                laik_layout_lex_check(fromMap->layout)) {
                 // mapping known and 1d: can use direct send/recv
-
-                // FIXME: this assumes lexicographical layout
+                // this requires lexicographical layout
                 from = aa->range->from.i[0] - fromMap->requiredRange.from.i[0];
                 to   = aa->range->to.i[0] - fromMap->requiredRange.from.i[0];
                 assert(from >= 0);
@@ -1947,10 +1947,10 @@ bool laik_aseq_flattenPacking(Laik_ActionSeq* as)
                 assert(aa->toMapNo < tc->toList->count);
             toMap = tc->toList ? &(tc->toList->map[aa->toMapNo]) : 0;
 
-            if (toMap && (aa->range->space->dims == 1)) {
+            if (toMap && (aa->range->space->dims == 1) &&
+                laik_layout_lex_check(toMap->layout)) {
                 // mapping known and 1d: can use direct send/recv
-
-                // FIXME: this assumes lexicographical layout
+                // this requires lexicographical layout
                 from = aa->range->from.i[0] - toMap->requiredRange.from.i[0];
                 to   = aa->range->to.i[0] - toMap->requiredRange.from.i[0];
                 assert(from >= 0);
@@ -1986,23 +1986,65 @@ bool laik_aseq_flattenPacking(Laik_ActionSeq* as)
             break;
         }
 
-        case LAIK_AT_MapGroupReduce:
+        case LAIK_AT_MapGroupReduce: {
+            bool isInput, isOutput;
+            isInput = laik_trans_isInGroup(tc->transition, ba->inputGroup, myid);
+            isOutput = laik_trans_isInGroup(tc->transition, ba->outputGroup, myid);
+
+            // mappings used, if already known
+            fromMap = 0;
+            if (isInput && tc->fromList) {
+                assert(ba->fromMapNo < tc->fromList->count);
+                fromMap = &(tc->fromList->map[ba->fromMapNo]);
+            }
+            toMap = 0;
+            if (isOutput && tc->toList) {
+                assert(ba->toMapNo < tc->toList->count);
+                toMap = &(tc->toList->map[ba->toMapNo]);
+            }
+
+            // for 1d with lexicographical layout, we can directly reduce on
+            // memory of mappings. If current task is input/receiver, mappings
+            // must be known and allocated
+            bool direct = (ba->range->space->dims == 1);
+            if (isInput && (!fromMap || !fromMap->base ||
+                            !laik_layout_lex_check(fromMap->layout)))
+                direct = false;
+            if (isOutput && (!toMap || !toMap->base ||
+                             !laik_layout_lex_check(toMap->layout)))
+                direct = false;
+
+            if (direct) {
+                char *fromBase = fromMap ? fromMap->base : 0;
+                char *toBase = toMap ? toMap->base : 0;
+
+                from = ba->range->from.i[0];
+                to   = ba->range->to.i[0];
+                assert(to > from);
+                count = (unsigned int)(to - from);
+
+                if (fromBase) {
+                    assert(from >= fromMap->requiredRange.from.i[0]);
+                    fromBase += (from - fromMap->requiredRange.from.i[0]) * elemsize;
+                }
+                if (toBase) {
+                    assert(from >= toMap->requiredRange.from.i[0]);
+                    toBase += (from - toMap->requiredRange.from.i[0]) * elemsize;
+                }
 
-            if (ba->range->space->dims > 1) {
+                laik_aseq_addGroupReduce(as, 3 * a->round + 1,
+                                         ba->inputGroup, ba->outputGroup,
+                                         fromBase, toBase, count, ba->redOp);
+            }
+            else {
                 // pack own input into buffer, reduce on that, and unpack result
-                bool isInput, isOutput;
-                isInput = laik_trans_isInGroup(tc->transition, ba->inputGroup, myid);
-                isOutput = laik_trans_isInGroup(tc->transition, ba->outputGroup, myid);
                 count = (unsigned int) laik_range_size(ba->range);
                 int bufID = laik_aseq_addBufReserve(as, count * elemsize, -1);
 
                 if (isInput) {
-                    if (tc->fromList) {
-                        assert(ba->fromMapNo < tc->fromList->count);
-                        fromMap = &(tc->fromList->map[ba->fromMapNo]);
+                    if (fromMap)
                         laik_aseq_addPackToRBuf(as, 3 * a->round,
                                                 fromMap, ba->range, bufID, 0);
-                    }
                     else
                         laik_aseq_addMapPackToRBuf(as, 3 * a->round,
                                                    ba->fromMapNo, ba->range, bufID, 0);
@@ -2013,68 +2055,17 @@ bool laik_aseq_flattenPacking(Laik_ActionSeq* as)
                                              bufID, 0, count, ba->redOp);
 
                 if (isOutput) {
-                    if (tc->toList) {
-                        assert(ba->toMapNo < tc->toList->count);
-                        toMap = &(tc->toList->map[ba->toMapNo]);
+                    if (toMap)
                         laik_aseq_addUnpackFromRBuf(as, 3 * a->round + 2,
                                                     bufID, 0, toMap, ba->range);
-                    }
                     else
                         laik_aseq_addMapUnpackFromRBuf(as, 3 * a->round + 2,
                                                        bufID, 0, ba->toMapNo, ba->range);
                 }
-                handled = true;
-            }
-            else {
-                char *fromBase, *toBase;
-
-                // if current task is input, fromBase should be allocated
-                if (laik_trans_isInGroup(tc->transition, ba->inputGroup, myid)) {
-                    assert(tc->fromList);
-                    assert(ba->fromMapNo < tc->fromList->count);
-                    fromMap = &(tc->fromList->map[ba->fromMapNo]);
-                    fromBase = fromMap ? fromMap->base : 0;
-                    assert(fromBase != 0);
-                }
-                else {
-                    fromBase = 0;
-                    fromMap = 0;
-                }
-
-                // if current task is receiver, toBase should be allocated
-                if (laik_trans_isInGroup(tc->transition, ba->outputGroup, myid)) {
-                    assert(tc->toList);
-                    assert(ba->toMapNo < tc->toList->count);
-                    toMap = &(tc->toList->map[ba->toMapNo]);
-                    toBase = toMap ? toMap->base : 0;
-                    assert(toBase != 0);
-                }
-                else {
-                    toBase = 0; // no interest in receiving anything
-                    toMap = 0;
-                }
-
-                // FIXME: this assumes lexicographical layout
-                from = ba->range->from.i[0];
-                to   = ba->range->to.i[0];
-                assert(to > from);
-                count = (unsigned int)(to - from);
-
-                if (fromBase) {
-                    assert(from >= fromMap->requiredRange.from.i[0]);
-                    fromBase += (from - fromMap->requiredRange.from.i[0]) * elemsize;
-                }
-                if (toBase) {
-                    assert(from >= toMap->requiredRange.from.i[0]);
-                    toBase += (from - toMap->requiredRange.from.i[0]) * elemsize;
-                }
-
-                laik_aseq_addGroupReduce(as, 3 * a->round + 1,
-                                         ba->inputGroup, ba->outputGroup,
-                                         fromBase, toBase, count, ba->redOp);
-                handled = true;
             }
+            handled = true;
             break;
+        }
 
         default: break;
         }
-- 
2.43.0


From 50a17c9bc080e8686edd4c76467e00b2c8814594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:38 +0000
Subject: [PATCH 17/65] fix: single backend: reductions on any partitioning,
 layout and dimensionality

---
 include/laik/data.h  |  4 ++++
 src/backend-single.c | 40 ++++++++++++++++---------------
 src/data.c           | 56 +++++++++++++++++++++++++-------------------
 3 files changed, 57 insertions(+), 43 deletions(-)

diff --git a/include/laik/data.h b/include/laik/data.h
index a354b7e..f51ee82 100644
--- a/include/laik/data.h
+++ b/include/laik/data.h
@@ -192,6 +192,10 @@ char *laik_get_map_addr(Laik_Data* d, int n, Laik_Index* idx);
 // copy data in a range between mappings
 void laik_data_copy(Laik_Range* range, Laik_Mapping* from, Laik_Mapping* to);
 
+// initialize elements of a range with neutral element of reduction operation
+void laik_data_init_range(Laik_Range* range,
+                          Laik_Mapping* map, Laik_ReductionOperation redOp);
+
 
 // provide memory resources for mapping of own partition for container <d>.
 // It will get used when in next setting or switching to a partitioning.
diff --git a/src/backend-single.c b/src/backend-single.c
index 5e04196..0dcfae0 100644
--- a/src/backend-single.c
+++ b/src/backend-single.c
@@ -70,7 +70,7 @@ Laik_Group* laik_single_world()
 void laik_single_exec(Laik_ActionSeq* as)
 {
     if (as->backend == 0) {
-        as->backend = &laik_backend_single;
+        // backend not set: this tells LAIK that no cleanup needed
         laik_aseq_calc_stats(as);
     }
     // we only support 1 transition exec action
@@ -83,29 +83,31 @@ void laik_single_exec(Laik_ActionSeq* as)
     Laik_MappingList* toList = tc->toList;
 
     if (t->redCount > 0) {
-        assert(fromList->count == 1);
-        assert(toList->count == 1);
-        Laik_Mapping* fromMap = &(fromList->map[0]);
-        Laik_Mapping* toMap = &(toList->map[0]);
-        char* fromBase = fromMap ? fromMap->base : 0;
-        char* toBase = toMap ? toMap->base : 0;
-
         for(int i=0; i < t->redCount; i++) {
-            assert(d->space->dims == 1);
             struct redTOp* op = &(t->red[i]);
-            int64_t from = op->range.from.i[0];
-            int64_t to   = op->range.to.i[0];
-            assert(fromBase != 0);
             assert(laik_trans_isInGroup(t, op->outputGroup, t->group->myid));
-            assert(toBase != 0);
-            assert(to > from);
+            assert(toList && (op->myOutputMapNo < toList->count));
+            Laik_Mapping* toMap = &(toList->map[op->myOutputMapNo]);
+            assert(toMap->base != 0);
+
+            if (!laik_trans_isInGroup(t, op->inputGroup, t->group->myid)) {
+                // no input: result is neutral element
+                laik_data_init_range(&(op->range), toMap, op->redOp);
+                continue;
+            }
+
+            // there is only one input: reduction is a copy
+            assert(fromList && (op->myInputMapNo < fromList->count));
+            Laik_Mapping* fromMap = &(fromList->map[op->myInputMapNo]);
+            assert(fromMap->base != 0);
+
+            laik_log(1, "Single reduce: range %d, elemsize %d, base from/to %p/%p\n",
+                     i, d->elemsize, (void*) fromMap->base, (void*) toMap->base);
 
-            laik_log(1, "Single reduce: "
-                        "from %lld, to %lld, elemsize %d, base from/to %p/%p\n",
-                     (long long int) from, (long long int) to,
-                     d->elemsize, (void*) fromBase, (void*) toBase);
+            // nothing to do if mapping was reused
+            if (toMap->start == fromMap->start) continue;
 
-            memcpy(toBase, fromBase, (to-from) * fromMap->data->elemsize);
+            laik_data_copy(&(op->range), fromMap, toMap);
         }
     }
 
diff --git a/src/data.c b/src/data.c
index 65eb0dd..ece8714 100644
--- a/src/data.c
+++ b/src/data.c
@@ -700,6 +700,36 @@ void checkMapReuse(Laik_MappingList* toList, Laik_MappingList* fromList)
     }
 }
 
+// initialize elements of a range with neutral element of reduction
+void laik_data_init_range(Laik_Range* range,
+                          Laik_Mapping* map, Laik_ReductionOperation redOp)
+{
+    Laik_Data* d = map->data;
+    int dims = d->space->dims;
+
+    if (!d->type->init) {
+        laik_log(LAIK_LL_Panic,
+                 "Need initialization function for type '%s'. Not set!",
+                 d->type->name);
+        assert(0);
+    }
+
+    // number of consecutive elements which can be initialized at once
+    int64_t rowCount = 1;
+    if (laik_layout_lex_check(map->layout))
+        rowCount = range->to.i[0] - range->from.i[0];
+
+    int64_t from2 = (dims > 2) ? range->from.i[2] : 0, to2 = (dims > 2) ? range->to.i[2] : 1;
+    int64_t from1 = (dims > 1) ? range->from.i[1] : 0, to1 = (dims > 1) ? range->to.i[1] : 1;
+    Laik_Index idx;
+    for(idx.i[2] = from2; idx.i[2] < to2; idx.i[2]++)
+        for(idx.i[1] = from1; idx.i[1] < to1; idx.i[1]++)
+            for(idx.i[0] = range->from.i[0]; idx.i[0] < range->to.i[0]; idx.i[0] += rowCount) {
+                int64_t off = laik_offset(map->layout, map->layoutSection, &idx);
+                (d->type->init)(map->start + off * d->elemsize, rowCount, redOp);
+            }
+}
+
 static
 void initMaps(Laik_Transition* t,
               Laik_MappingList* toList, Laik_MappingList* fromList,
@@ -720,35 +750,13 @@ void initMaps(Laik_Transition* t,
 
         assert(toMap->base);
 
-        int dims = toMap->data->space->dims;
         Laik_Data* d = toMap->data;
-        Laik_Range* s = &(op->range);
-        uint64_t elemCount = laik_range_size(s);
+        uint64_t elemCount = laik_range_size(&(op->range));
 
         if (ss)
             ss->initedBytes += elemCount * d->elemsize;
 
-        if (!d->type->init) {
-            laik_log(LAIK_LL_Panic,
-                     "Need initialization function for type '%s'. Not set!",
-                     d->type->name);
-            assert(0);
-        }
-
-        // number of consecutive elements which can be initialized at once
-        int64_t rowCount = 1;
-        if (laik_layout_lex_check(toMap->layout))
-            rowCount = s->to.i[0] - s->from.i[0];
-
-        int64_t from2 = (dims > 2) ? s->from.i[2] : 0, to2 = (dims > 2) ? s->to.i[2] : 1;
-        int64_t from1 = (dims > 1) ? s->from.i[1] : 0, to1 = (dims > 1) ? s->to.i[1] : 1;
-        Laik_Index idx;
-        for(idx.i[2] = from2; idx.i[2] < to2; idx.i[2]++)
-            for(idx.i[1] = from1; idx.i[1] < to1; idx.i[1]++)
-                for(idx.i[0] = s->from.i[0]; idx.i[0] < s->to.i[0]; idx.i[0] += rowCount) {
-                    int64_t off = laik_offset(toMap->layout, toMap->layoutSection, &idx);
-                    (d->type->init)(toMap->start + off * d->elemsize, rowCount, op->redOp);
-                }
+        laik_data_init_range(&(op->range), toMap, op->redOp);
 
         laik_log(1, "init map for '%s' range/map %d/%d: %llu entries\n",
                  d->name, op->rangeNo, op->mapNo, (unsigned long long) elemCount);
-- 
2.43.0


From 57a22c56fcc0a239ffc5b35fd2f0e39992f8e3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:05 +0000
Subject: [PATCH 18/65] fix: block partitioner: handle fewer indexes than parts
 and small index weights

---
 src/partitioner.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/partitioner.c b/src/partitioner.c
index a285f7c..b654af8 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -573,6 +573,8 @@ void runBlockPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
     int cycles = data ? data->cycles : 1;
     double perPart = totalW / count / cycles;
     double w = -0.5;
+    // rounding offset must not be larger than half of average index weight
+    if (totalW < size) w = -0.5 * totalW / size;
     int task = 0;
     int cycle = 0;
 
@@ -616,7 +618,8 @@ void runBlockPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
         }
         if ((task+1 == count) && (cycle+1 == cycles)) break;
     }
-    assert((task+1 == count) && (cycle+1 == cycles));
+    // remaining indexes go to the current task. This is not the last one
+    // if there are less indexes than parts, or if last task weights are 0
     range.to.i[pdim] = s->range.to.i[pdim];
     laik_append_range(r, task, &range, 0, 0);
 }
-- 
2.43.0


From 742b04f1b422fc55f2d5eec4ae683ceb26e719d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:05 +0000
Subject: [PATCH 19/65] fix: block partitioner: cycle count 0 is invalid, too

---
 src/partitioner.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/partitioner.c b/src/partitioner.c
index b654af8..6eab5f8 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -694,7 +694,7 @@ void laik_set_cycle_count(Laik_Partitioner* pr, int cycles)
     Laik_BlockPartitionerData* data;
     data = (Laik_BlockPartitionerData*) pr->data;
 
-    if ((cycles < 0) || (cycles>10)) cycles = 1;
+    if ((cycles < 1) || (cycles>10)) cycles = 1;
     data->cycles = cycles;
 }
 
-- 
2.43.0


From 00c5e3408fb199e9547c87962321c88033f98342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:05 +0000
Subject: [PATCH 20/65] fix: bisection partitioner: allow more processes than
 indexes

---
 src/partitioner.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/partitioner.c b/src/partitioner.c
index 6eab5f8..000fa38 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -375,6 +375,8 @@ static void doBisection(Laik_RangeReceiver* r, Laik_PartitionerParams* p,
     int tag = 1; // TODO: make it a parameter
 
     assert(toTask > fromTask);
+    // with more tasks than indexes, there may be nothing left to distribute
+    if (laik_range_isEmpty(s)) return;
     if (toTask - fromTask == 1) {
         laik_append_range(r, fromTask, s, tag, 0);
         return;
-- 
2.43.0


From bac710b41e013566282d7ccb0a4b3200c26b4d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:05 +0000
Subject: [PATCH 21/65] fix: grid partitioner: cover all indexes independent of
 rounding errors

---
 src/partitioner.c | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/partitioner.c b/src/partitioner.c
index 000fa38..eca47bd 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -447,9 +447,9 @@ void runGridPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
     assert(p->group->size >= blocks);
 
     Laik_Range* ss = &(p->space->range);
-    double xStep = (ss->to.i[0] - ss->from.i[0]) / (double) data->xblocks;
-    double yStep = (ss->to.i[1] - ss->from.i[1]) / (double) data->yblocks;
-    double zStep = (ss->to.i[2] - ss->from.i[2]) / (double) data->zblocks;
+    int64_t xSize = ss->to.i[0] - ss->from.i[0];
+    int64_t ySize = ss->to.i[1] - ss->from.i[1];
+    int64_t zSize = ss->to.i[2] - ss->from.i[2];
 
     Laik_Range range;
     int64_t from, to;
@@ -457,26 +457,23 @@ void runGridPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
     range.space = p->space;
     int task = 0;
     for(int z = 0; z < data->zblocks; z++) {
-        from = ss->from.i[2] + z * zStep;
-        to   = ss->from.i[2] + (z+1) * zStep;
+        from = ss->from.i[2] + z * zSize / data->zblocks;
+        to   = ss->from.i[2] + (z+1) * zSize / data->zblocks;
         if (from == to) continue;
-        if (to > ss->to.i[2]) to = ss->to.i[2];
         range.from.i[2] = from;
         range.to.i[2]   = to;
 
         for(int y = 0; y < data->yblocks; y++) {
-            from = ss->from.i[1] + y * yStep;
-            to   = ss->from.i[1] + (y+1) * yStep;
+            from = ss->from.i[1] + y * ySize / data->yblocks;
+            to   = ss->from.i[1] + (y+1) * ySize / data->yblocks;
             if (from == to) continue;
-            if (to > ss->to.i[1]) to = ss->to.i[1];
             range.from.i[1] = from;
             range.to.i[1]   = to;
 
             for(int x = 0; x < data->xblocks; x++) {
-                from = ss->from.i[0] + x * xStep;
-                to   = ss->from.i[0] + (x+1) * xStep;
+                from = ss->from.i[0] + x * xSize / data->xblocks;
+                to   = ss->from.i[0] + (x+1) * xSize / data->xblocks;
                 if (from == to) continue;
-                if (to > ss->to.i[0]) to = ss->to.i[0];
                 range.from.i[0] = from;
                 range.to.i[0]   = to;
 
-- 
2.43.0


From 9cef0ebf26fe814118393b24218fadd1ac469557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:00 +0000
Subject: [PATCH 22/65] fix: halo partitioner: extend up to the border of the
 space

---
 src/partitioner.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/partitioner.c b/src/partitioner.c
index eca47bd..4d8b013 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -312,43 +312,55 @@ void runHaloPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
         Laik_Range range = *s;
         laik_append_range(r, task, &range, tag, 0);
 
-        if (range.from.i[0] > sp.from.i[0] + depth) {
+        if (range.from.i[0] > sp.from.i[0]) {
             range.to.i[0] = range.from.i[0];
             range.from.i[0] -= depth;
+            if (range.from.i[0] < sp.from.i[0])
+                range.from.i[0] = sp.from.i[0];
             laik_append_range(r, task, &range, tag, 0);
         }
         range = *s;
-        if (range.to.i[0] < sp.to.i[0] - depth) {
+        if (range.to.i[0] < sp.to.i[0]) {
             range.from.i[0] = range.to.i[0];
             range.to.i[0] += depth;
+            if (range.to.i[0] > sp.to.i[0])
+                range.to.i[0] = sp.to.i[0];
             laik_append_range(r, task, &range, tag, 0);
         }
 
         if (dims > 1) {
             range = *s;
-            if (range.from.i[1] > sp.from.i[1] + depth) {
+            if (range.from.i[1] > sp.from.i[1]) {
                 range.to.i[1] = range.from.i[1];
                 range.from.i[1] -= depth;
+                if (range.from.i[1] < sp.from.i[1])
+                    range.from.i[1] = sp.from.i[1];
                 laik_append_range(r, task, &range, tag, 0);
             }
             range = *s;
-            if (range.to.i[1] < sp.to.i[1] - depth) {
+            if (range.to.i[1] < sp.to.i[1]) {
                 range.from.i[1] = range.to.i[1];
                 range.to.i[1] += depth;
+                if (range.to.i[1] > sp.to.i[1])
+                    range.to.i[1] = sp.to.i[1];
                 laik_append_range(r, task, &range, tag, 0);
             }
 
             if (dims > 2) {
                 range = *s;
-                if (range.from.i[2] > sp.from.i[2] + depth) {
+                if (range.from.i[2] > sp.from.i[2]) {
                     range.to.i[2] = range.from.i[2];
                     range.from.i[2] -= depth;
+                    if (range.from.i[2] < sp.from.i[2])
+                        range.from.i[2] = sp.from.i[2];
                     laik_append_range(r, task, &range, tag, 0);
                 }
                 range = *s;
-                if (range.to.i[2] < sp.to.i[2] - depth) {
+                if (range.to.i[2] < sp.to.i[2]) {
                     range.from.i[2] = range.to.i[2];
                     range.to.i[2] += depth;
+                    if (range.to.i[2] > sp.to.i[2])
+                        range.to.i[2] = sp.to.i[2];
                     laik_append_range(r, task, &range, tag, 0);
                 }
             }
-- 
2.43.0


From 3525e1e7e4d627a0bb96fc604a272129eddd8eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:13 +0000
Subject: [PATCH 23/65] fix: range list: map offsets can be asked for different
 tasks and after migration

---
 src/rangelist.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rangelist.c b/src/rangelist.c
index 69de503..e409130 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -567,7 +567,9 @@ void laik_updateMapOffsets(Laik_RangeList* list, int tid)
 {
     // already calculated?
     if (list->map_tid == tid) return;
-    assert(list->map_tid < 0);
+    // only offsets for one task are kept
+    free(list->map_off);
+    list->map_off = 0;
     list->map_tid = tid;
 
     assert((tid >= 0) && (tid < (int) list->tid_count));
@@ -699,6 +701,7 @@ void laik_rangelist_migrate(Laik_RangeList* list, int* idmap, unsigned int new_c
         }
     }
     list->tid_count = new_count;
+    list->map_tid = -1; // map offsets are not valid any more
     sortRanges(list);
     updateOffsets(list);
 }
-- 
2.43.0


From 5626133963f20ea62cdffaaae94673f164d72600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:13 +0000
Subject: [PATCH 24/65] fix: range list: merging allows an empty list

---
 src/rangelist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rangelist.c b/src/rangelist.c
index e409130..3fb40e9 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -410,8 +410,8 @@ static void sortRanges(Laik_RangeList* list)
 
 static void mergeSortedRanges(Laik_RangeList* list)
 {
-    assert(list->trange); // this is for generic ranges
     if (list->count == 0) return;
+    assert(list->trange); // this is for generic ranges
 
     assert(list->space->dims == 1); // current algorithm only works for 1d
 
-- 
2.43.0


From a5f965bf47368df4255870e35bee8bce671fef11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:13 +0000
Subject: [PATCH 25/65] fix: range list: normalize order of ranges with same
 start in first dimension

---
 src/rangelist.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/rangelist.c b/src/rangelist.c
index 3fb40e9..ec1c752 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -372,10 +372,18 @@ static int trgen_cmp(const void *p1, const void *p2)
     if (ts1->task == ts2->task) {
         // we want same tags in a row for processing in prepareMaps
         if (ts1->tag == ts2->tag) {
-            // sort ranges for same task by start index (not really needed)
-            if (ts1->range.from.i[0] > ts2->range.from.i[0]) return 1;
-            if (ts1->range.from.i[0] == ts2->range.from.i[0]) return 0;
-            return -1;
+            // sort ranges for same task by start index, then by end index:
+            // order must not depend on the order in which ranges are added
+            int dims = ts1->range.space->dims;
+            for(int d = 0; d < dims; d++) {
+                if (ts1->range.from.i[d] > ts2->range.from.i[d]) return 1;
+                if (ts1->range.from.i[d] < ts2->range.from.i[d]) return -1;
+            }
+            for(int d = 0; d < dims; d++) {
+                if (ts1->range.to.i[d] > ts2->range.to.i[d]) return 1;
+                if (ts1->range.to.i[d] < ts2->range.to.i[d]) return -1;
+            }
+            return 0;
         }
         return ts1->tag - ts2->tag;
     }
-- 
2.43.0


From a1a4352a9459c895c408cf46bb5ea07de28e152b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:05 +0000
Subject: [PATCH 26/65] fix: coversSpace: no limit on number of uncovered
 ranges

---
 src/rangelist.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/rangelist.c b/src/rangelist.c
index ec1c752..f2cbc9a 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -163,14 +163,21 @@ Laik_TaskRange* laik_rangelist_tidrange(Laik_RangeList* list, int tid, int n)
 // print verbose debug output?
 //#define DEBUG_COVERSPACE 1
 
-// TODO: use dynamic list
-#define COVERLIST_MAX 100
-static Laik_Range notcovered[COVERLIST_MAX];
-static int notcovered_count;
+// dynamic list, only growing
+static Laik_Range* notcovered = 0;
+static int notcovered_count, notcovered_capacity = 0;
 
 static void appendToNotcovered(Laik_Range* s)
 {
-    assert(notcovered_count < COVERLIST_MAX);
+    if (notcovered_count == notcovered_capacity) {
+        notcovered_capacity = (notcovered_capacity + 50) * 2;
+        notcovered = realloc(notcovered,
+                             notcovered_capacity * sizeof(Laik_Range));
+        if (!notcovered) {
+            laik_panic("Out of memory allocating memory for coversSpace");
+            exit(1); // not actually needed, laik_panic never returns
+        }
+    }
     notcovered[notcovered_count] = *s;
     notcovered_count++;
 }
@@ -246,7 +253,9 @@ bool laik_rangelist_coversSpace(Laik_RangeList* list)
 
         int count = notcovered_count; // number of ranges to visit
         for(int j = 0; j < count; j++) {
-            Laik_Range* orig = &(notcovered[j]);
+            // use a copy, as appending may move the list
+            Laik_Range origRange = notcovered[j];
+            Laik_Range* orig = &origRange;
 
             if (laik_range_intersect(orig, toRemove) == 0) {
                 // range to remove does not overlap with orig: keep original
-- 
2.43.0


From 293112d1f1c02a335c5e67967902dd82e0ec755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:59 +0000
Subject: [PATCH 27/65] fix: filter for intersecting ranges: own ranges in any
 order, overlapping, or none at all

---
 src/partitioning.c | 84 ++++++++++++++++++++++++++--------------------
 1 file changed, 47 insertions(+), 37 deletions(-)

diff --git a/src/partitioning.c b/src/partitioning.c
index ef0af90..19ce26d 100644
--- a/src/partitioning.c
+++ b/src/partitioning.c
@@ -59,6 +59,8 @@ Laik_RangeFilter* laik_rangefilter_new()
 
 void laik_rangefilter_free(Laik_RangeFilter* sf)
 {
+    if (sf->pfilter1) free(sf->pfilter1->ts);
+    if (sf->pfilter2) free(sf->pfilter2->ts);
     free(sf->pfilter1);
     free(sf->pfilter2);
     free(sf);
@@ -88,8 +90,6 @@ void laik_rangefilter_set_myfilter(Laik_RangeFilter* sf, Laik_Group* g)
 // check if [from;to[ intersects ranges given in par
 static bool idxfilter_check(int64_t from, int64_t to, PFilterPar* par)
 {
-    assert(par->len > 0);
-
     laik_log(1,"  filter [%lld;%lld[ check with range [%lld;%lld[",
              (long long) from, (long long) to,
              (long long) par->from, (long long) par->to);
@@ -99,7 +99,8 @@ static bool idxfilter_check(int64_t from, int64_t to, PFilterPar* par)
         return false;
     }
 
-    // binary search
+    // own ranges are sorted and disjunct (see laik_rangefilter_add_idxfilter):
+    // binary search for first own range ending after <from>
     Laik_TaskRange_Gen* ts = par->ts;
     unsigned int off1 = 0, off2 = par->len;
     while(off1 < off2) {
@@ -109,31 +110,14 @@ static bool idxfilter_check(int64_t from, int64_t to, PFilterPar* par)
                  (long long) ts[mid].range.from.i[0],
                  (long long) ts[mid].range.to.i[0]);
 
-        if (from >= ts[mid].range.to.i[0]) {
-            laik_log(1,"    larger, check against %d: [%lld;%lld[",
-                     mid+1,
-                     (long long) ts[mid+1].range.from.i[0],
-                     (long long) ts[mid+1].range.to.i[0]);
-            if (to <= ts[mid+1].range.from.i[0]) {
-                laik_log(1,"    no intersection!");
-                return false;
-            }
-            off1 = mid;
-            continue;
-        }
-        if (to <= ts[mid].range.from.i[0]) {
-            laik_log(1,"    smaller, check against %d: [%lld;%lld[",
-                     mid-1,
-                     (long long) ts[mid-1].range.from.i[0],
-                     (long long) ts[mid-1].range.to.i[0]);
-            if (from >= ts[mid-1].range.to.i[0]) {
-                laik_log(1,"    no intersection!");
-                return false;
-            }
+        if (from >= ts[mid].range.to.i[0])
+            off1 = mid + 1;
+        else
             off2 = mid;
-            continue;
-        }
-        break;
+    }
+    if ((off1 == par->len) || (to <= ts[off1].range.from.i[0])) {
+        laik_log(1,"    no intersection!");
+        return false;
     }
     laik_log(1,"    found intersection!");
     return true;
@@ -153,6 +137,15 @@ bool idxfilter(Laik_RangeFilter* sf, int task, const Laik_Range* s)
     return false;
 }
 
+// order by start of range
+static int idxfilter_cmpfrom(const void *p1, const void *p2)
+{
+    const Laik_TaskRange_Gen* ts1 = (const Laik_TaskRange_Gen*) p1;
+    const Laik_TaskRange_Gen* ts2 = (const Laik_TaskRange_Gen*) p2;
+    if (ts1->range.from.i[0] < ts2->range.from.i[0]) return -1;
+    return (ts1->range.from.i[0] > ts2->range.from.i[0]) ? 1 : 0;
+}
+
 // add filter to only keep ranges intersecting with ranges in <list> for task <tid>
 void laik_rangefilter_add_idxfilter(Laik_RangeFilter* sf, Laik_RangeList* list, int tid)
 {
@@ -161,18 +154,35 @@ void laik_rangefilter_add_idxfilter(Laik_RangeFilter* sf, Laik_RangeList* list,
     assert(list->space->dims == 1); // TODO: only for 1d for now
 
     assert((tid >= 0) && (tid < (int) list->tid_count));
-    // no own ranges?
-    unsigned mycount = list->off[tid+1] - list->off[tid];
-    if (mycount == 0) return;
-
-    Laik_TaskRange_Gen* ts1 = list->trange + list->off[tid];
-    Laik_TaskRange_Gen* ts2 = list->trange + list->off[tid+1]-1;
 
+    // copy own ranges: they are ordered by tag first and may overlap, but
+    // for searching, we need them sorted by index and disjunct
+    unsigned mycount = list->off[tid+1] - list->off[tid];
     PFilterPar* par = malloc(sizeof(PFilterPar));
-    par->len = mycount;
-    par->from = ts1->range.from.i[0];
-    par->to   = ts2->range.to.i[0];
-    par->ts = ts1;
+    Laik_TaskRange_Gen* ts = malloc((mycount + 1) * sizeof(Laik_TaskRange_Gen));
+    if (!par || !ts) {
+        laik_panic("Out of memory allocating memory for Laik_RangeFilter");
+        exit(1); // not actually needed, laik_panic never returns
+    }
+    memcpy(ts, list->trange + list->off[tid], mycount * sizeof(Laik_TaskRange_Gen));
+    qsort(ts, mycount, sizeof(Laik_TaskRange_Gen), idxfilter_cmpfrom);
+
+    par->len = 0;
+    par->ts = ts;
+    for(unsigned int i = 0; i < mycount; i++) {
+        if (ts[i].range.from.i[0] >= ts[i].range.to.i[0]) continue; // empty
+        if ((par->len > 0) &&
+            (ts[i].range.from.i[0] <= ts[par->len - 1].range.to.i[0])) {
+            // extend previous range
+            if (ts[i].range.to.i[0] > ts[par->len - 1].range.to.i[0])
+                ts[par->len - 1].range.to.i[0] = ts[i].range.to.i[0];
+            continue;
+        }
+        ts[par->len++] = ts[i];
+    }
+    // without own ranges, nothing passes the filter
+    par->from = (par->len > 0) ? ts[0].range.from.i[0] : 0;
+    par->to   = (par->len > 0) ? ts[par->len - 1].range.to.i[0] : 0;
 
     if      (sf->pfilter1 == 0) sf->pfilter1 = par;
     else if (sf->pfilter2 == 0) sf->pfilter2 = par;
-- 
2.43.0


From 3e9ff677b8ca6e195af50a298ab9d71b4343d4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:59 +0000
Subject: [PATCH 28/65] fix: 1d transitions: order of range borders with a
 distance of 2^31 or more

---
 src/space.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/space.c b/src/space.c
index 5c54d5d..4a61691 100644
--- a/src/space.c
+++ b/src/space.c
@@ -833,8 +833,7 @@ static int rb_cmp(const void *p1, const void *p2)
     if (sb1->b == sb2->b) {
         return sb1->isStart - sb2->isStart;
     }
-    return sb1->b - sb2->b;
-
+    return (sb1->b < sb2->b) ? -1 : 1;
 }
 
 static bool addTask(TaskGroup* g, int task, int maxTasks)
-- 
2.43.0


From a9b031d04986656f015329e8a25ddea0c8a30b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:05 +0000
Subject: [PATCH 29/65] fix: the intersection with an empty range is empty

---
 src/space.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/space.c b/src/space.c
index 4a61691..8c687e5 100644
--- a/src/space.c
+++ b/src/space.c
@@ -170,7 +170,8 @@ bool intersectRange(int64_t from1, int64_t to1, int64_t from2, int64_t to2,
     if (from2 >= to1) return false;
     *resFrom = (from1 > from2) ? from1 : from2;
     *resTo = (to1 > to2) ? to2 : to1;
-    return true;
+    // also empty if one of the ranges is empty
+    return (*resFrom < *resTo);
 }
 
 // get the intersection of two ranges; return 0 if intersection is empty
-- 
2.43.0


From 858ce6b0c6fb853548d93bdc43432d21f6a2a554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:43 +0000
Subject: [PATCH 30/65] fix: TCP2 backend: reductions without any input give
 the neutral element

---
 src/backend-tcp2.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 7eef485..1160e6e 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -2293,6 +2293,10 @@ void exec_reduce(Laik_TransitionContext* tc,
         }
     }
     int inCount = laik_trans_groupCount(t, a->inputGroup);
+    if (inCount == 0) {
+        // no input from any process: result is neutral element
+        laik_data_init_range(a->range, m, a->redOp);
+    }
     for(int i = 0; i < inCount; i++) {
         int inTask = laik_trans_taskInGroup(t, a->inputGroup, i);
         if (inTask == myid) continue;
-- 
2.43.0


From 33d866ac7eda071762fd36b8b20ef69a792cee5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:50 +0000
Subject: [PATCH 31/65] fix: TCP2 backend: text mode handles negative
 coordinates and larger elements

---
 src/backend-tcp2.c | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 1160e6e..9068f82 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -335,19 +335,20 @@ bool next_lex(Laik_Range* range, Laik_Index* idx)
 static
 char* istr(int dims, Laik_Index* idx)
 {
-    static char str[50];
+    // max 3 coordinates with up to 20 characters each, may be negative
+    static char str[70];
 
     if (dims == 1)
-        sprintf(str, "%llu", (unsigned long long) idx->i[0]);
+        sprintf(str, "%lld", (long long) idx->i[0]);
     if (dims == 2)
-        sprintf(str, "%llu/%llu",
-                (unsigned long long) idx->i[0],
-                (unsigned long long) idx->i[1]);
+        sprintf(str, "%lld/%lld",
+                (long long) idx->i[0],
+                (long long) idx->i[1]);
     if (dims == 3)
-        sprintf(str, "%llu/%llu/%llu",
-                (unsigned long long) idx->i[0],
-                (unsigned long long) idx->i[1],
-                (unsigned long long) idx->i[2]);
+        sprintf(str, "%lld/%lld/%lld",
+                (long long) idx->i[0],
+                (long long) idx->i[1],
+                (long long) idx->i[2]);
     return str;
 }
 
@@ -720,7 +721,7 @@ int got_binary_data(InstData* d, int lid, char* buf, int len)
             (t->reduce)(idxPtr, idxPtr, buf, 1, p->rro);
         }
         if ((esize == 8) && laik_log_begin(1)) {
-            char pstr[70];
+            char pstr[90];
             int dims = p->rcv_range->space->dims;
             sprintf(pstr, "(%d:%s)", p->roff, istr(dims, &(p->rcv_idx)));
             laik_log(1, " pos %s: in %f res %f\n", pstr, *((double*)buf), *((double*)idxPtr));
@@ -767,7 +768,7 @@ void got_data(InstData* d, int lid, char* msg)
     char* idxPtr = m->start + off * p->relemsize;
 
     // position string for check
-    char pstr[70];
+    char pstr[90];
     int dims = p->rcv_range->space->dims;
     int s = sprintf(pstr, "(%d:%s)", p->roff, istr(dims, &(p->rcv_idx)));
 
@@ -777,8 +778,8 @@ void got_data(InstData* d, int lid, char* msg)
         while(msg[i] && (msg[i] == ' ')) i++;
     }
 
-    char data_in[100];
-    assert(len < 100);
+    // decode in-place: result always is shorter than text representation
+    char* data_in = msg + i;
     int l = 0;
 
     // parse hex bytes
@@ -2088,7 +2089,12 @@ Laik_Instance* laik_init_tcp2(int* argc, char*** argv)
 static
 void send_data(int n, int dims, Laik_Index* idx, int toLID, void* p, int s)
 {
-    char str[100];
+    // a command has to fit into the receive buffer
+    char str[RBUF_LEN];
+    if (120 + 3 * s > RBUF_LEN) {
+        laik_log(LAIK_LL_Panic, "TCP2 element size %d too large for text mode", s);
+        exit(1); // not actually needed, laik_log never returns for panic
+    }
     int o = 0;
     o += sprintf(str, "data %d (%d:%s)", s, n, istr(dims, idx));
     for(int i = 0; i < s; i++) {
@@ -2133,6 +2139,11 @@ void send_data_bin_flush(int toLID)
 static
 void send_data_bin(int n, int dims, Laik_Index* idx, int toLID, void* p, int s)
 {
+    if (3 + s > SBUF_LEN) {
+        // receiver can only consume complete elements
+        laik_log(LAIK_LL_Panic, "TCP2 element size %d too large", s);
+        exit(1); // not actually needed, laik_log never returns for panic
+    }
     if (sbuf_used + s > SBUF_LEN)
         send_data_bin_flush(toLID);
     if (sbuf_toLID < 0)
-- 
2.43.0


From 4c2c18120fb1b445040246b808633cab30dbcd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:23 +0000
Subject: [PATCH 32/65] fix: TCP2 backend: replay removal requests received
 during startup once

---
 src/backend-tcp2.c | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 9068f82..8e69786 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -293,6 +293,7 @@ struct _InstData {
     int maxfds;       // highest fd in rset
     fd_set rset;      // read set for select
     int exit;         // set to exit event loop
+    char* cutoffs;    // cutoff commands received before instance creation
     FDState fds[MAX_FDS];
 
     // currently synced KVS (usually NULL)
@@ -964,12 +965,16 @@ void got_cutoff(InstData* d, int fd, char* msg)
     // cutoff <location pattern>
 
     if (instance == 0) {
-        // no instance yet to queue remove requests, need to replay
-        assert(d->fds[fd].cmd == 0);
-
-        d->fds[fd].state = PS_CutoffReceived;
-        d->fds[fd].cmd = strdup(msg);
-        laik_log(1, "TCP2 queued for later processing: '%s'", msg);
+        // no instance yet to queue remove requests, need to replay:
+        // append to list, as connection may be closed before
+        size_t used = d->cutoffs ? strlen(d->cutoffs) : 0;
+        d->cutoffs = realloc(d->cutoffs, used + strlen(msg) + 2);
+        if (!d->cutoffs) {
+            laik_panic("TCP2 out of memory");
+            exit(1); // not actually needed, laik_panic never returns
+        }
+        sprintf(d->cutoffs + used, "%s\n", msg);
+        laik_log(1, "TCP2 queued for later processing: '%s' (FD %d)", msg, fd);
         return;
     }
 
@@ -1714,6 +1719,7 @@ InstData* new_inst_data(char* host, char* location)
     FD_ZERO(&d->rset);
     d->maxfds = 0;
     d->exit = 0;
+    d->cutoffs = 0;
     for(int i = 0; i < MAX_FDS; i++) {
         d->fds[i].state = PS_Invalid;
         d->fds[i].cb = 0;
@@ -2488,6 +2494,18 @@ void tcp2_make_progress()
     InstData* d = (InstData*)instance->backend_data;
     check_loop(d);
 
+    // replay cutoff commands received before instance creation, in order
+    char* cutoffs = d->cutoffs;
+    d->cutoffs = 0;
+    for(char* cmd = cutoffs; cmd && *cmd; ) {
+        char* end = strchr(cmd, '\n');
+        *end = 0;
+        laik_log(1, "TCP2 make progress: replay cutoff '%s'", cmd);
+        got_cutoff(d, -1, cmd);
+        cmd = end + 1;
+    }
+    free(cutoffs);
+
     // collect register requests into join list
     // make sure to do this only once: change state
     for(int fd = 0; fd < MAX_FDS; fd++) {
@@ -2496,14 +2514,6 @@ void tcp2_make_progress()
                 d->fds[fd].state = PS_RegReceived2;
                 laik_add_join_req(instance, &(d->fds[fd]));
                 break;
-            case PS_CutoffReceived:
-                // replay
-                laik_log(1, "TCP2 make progress: replay cutoff '%s' from FD %d",
-                        d->fds[fd].cmd, fd);
-                got_cutoff(d, fd, d->fds[fd].cmd);
-                free(d->fds[fd].cmd);
-                d->fds[fd].cmd = 0;
-                break;
             default:
                 break;
         }
-- 
2.43.0


From 9be3148c78c02df4bee1e86b8bb304059440463d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:23 +0000
Subject: [PATCH 33/65] fix: TCP2 backend: repeated requests to remove the same
 process

---
 src/backend-tcp2.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 8e69786..cffc68f 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -2679,9 +2679,13 @@ Laik_Group* tcp2_resize(Laik_ResizeRequests* resizeReqs)
             }
             else {
                 Peer* peer = (Peer*) req->backend_data;
+                if (peer->state != PS_InResize) {
+                    // multiple requests for same process, or already removed
+                    laik_log(1, "TCP2 resize: ignore request to remove process '%s' in state '%s'",
+                             peer->location, get_statestring(peer->state));
+                    continue;
+                }
                 laik_log(1, "TCP2 resize: remove process '%s'", peer->location);
-                // expected to be active
-                assert(peer->state == PS_InResize);
                 peer->state = PS_InResizeRemove;
             }
         }
-- 
2.43.0


From c83417363428d4c765b50ef7710aadc63f0fc12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:23 +0000
Subject: [PATCH 34/65] fix: keep resize requests arriving while a resize is in
 progress

---
 src/core.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core.c b/src/core.c
index 944cb9c..0f957fd 100644
--- a/src/core.c
+++ b/src/core.c
@@ -578,9 +578,9 @@ Laik_Group* laik_allow_world_resize(Laik_Instance* instance, int phase)
                        jcount, rcount);
     }
 
+    // the backend removes the requests it processed. Requests arriving
+    // after that stay queued for the next resize
     Laik_Group* g = (instance->backend->resize)(reqs);
-    if (reqs)
-        reqs->used = 0;
 
     if (g) {
         laik_set_world(instance, g);
-- 
2.43.0


From 21e85e92ba137214252ffad0d0f3f20d14d4c021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:23 +0000
Subject: [PATCH 35/65] fix: TCP2 backend: write errors to external tools are
 not fatal

---
 src/backend-tcp2.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index cffc68f..75f8adc 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -662,6 +662,11 @@ void send_cmd(InstData* d, int lid, char* cmd)
 
     if (res < 0) {
         int e = errno;
+        if (lid < 0) {
+            // not a process of the program: it may close connection anytime
+            laik_log(1, "TCP2 write error on FD %d: %s\n", fd, strerror(e));
+            return;
+        }
         laik_log(LAIK_LL_Panic, "TCP2 write error on FD %d: %s\n",
                  fd, strerror(e));
     }
-- 
2.43.0


From 33fd2a80142e608d722657d640bd97e6262abe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:21 +0000
Subject: [PATCH 36/65] fix: TCP2 backend: join requests of connections closed
 meanwhile

---
 src/backend-tcp2.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 75f8adc..f7d6709 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -479,6 +479,9 @@ void rm_rfd(InstData* d, int fd)
     d->fds[fd].state = PS_Invalid;
     free(d->fds[fd].rbuf);
     d->fds[fd].rbuf = 0;
+    // a command not processed yet is obsolete
+    free(d->fds[fd].cmd);
+    d->fds[fd].cmd = 0;
 }
 
 // run event loop until an event handler asks to exit
@@ -850,7 +853,10 @@ void got_register(InstData* d, int fd, int lid, char* msg)
     if ((d->mystate != PS_InStartup) &&
         (d->mystate != PS_InResize1)) {
         // after startup: process later in resize()
-        assert(d->fds[fd].cmd == 0);
+        if (d->fds[fd].cmd) {
+            laik_log(LAIK_LL_Warning, "ignoring register command '%s', another one is queued", msg);
+            return;
+        }
 
         d->fds[fd].state = PS_RegReceived;
         d->fds[fd].cmd = strdup(msg);
@@ -2672,8 +2678,10 @@ Laik_Group* tcp2_resize(Laik_ResizeRequests* resizeReqs)
                 FDState* fds = (FDState*) req->backend_data;
                 int fd = fds - d->fds;
                 assert(&(d->fds[fd]) == fds);
-                assert(fds->state == PS_RegReceived2);
-                assert(fds->lid < 0);
+                if ((fds->state != PS_RegReceived2) || (fds->lid >= 0)) {
+                    laik_log(1, "TCP2 resize: ignore join req, FD %d was closed", fd);
+                    continue;
+                }
                 assert(fds->cmd);
 
                 laik_log(1, "TCP2 resize: replay join req '%s' from FD %d",
-- 
2.43.0


From 4401a8cc12301740378d1c2414907c02801c8f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:15 +0000
Subject: [PATCH 37/65] fix: TCP2 backend: relation to parent in joining
 processes

---
 src/backend-tcp2.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index f7d6709..948527e 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -2037,7 +2037,8 @@ Laik_Instance* laik_init_tcp2(int* argc, char*** argv)
     world_size -= remove;
 
     // create initial world group
-    Laik_Group* world = laik_create_group(instance, world_size);
+    // also relation to old processes removed with this resize has to fit
+    Laik_Group* world = laik_create_group(instance, old + added);
     world->size = world_size;
     if (old == 0) {
         // we are part of initial processes: no parent
-- 
2.43.0


From 498b11be017c3a68c93381d42c70ddb7f9eb6e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:04 +0000
Subject: [PATCH 38/65] fix: KVS: propagate removals and only the last of
 several changes, compare whole values

---
 include/laik/core-internal.h |   2 +
 src/backend-mpi.c            |   2 +-
 src/kvs.c                    | 133 ++++++++++++++++++++++++++---------
 3 files changed, 104 insertions(+), 33 deletions(-)

diff --git a/include/laik/core-internal.h b/include/laik/core-internal.h
index 1ad9b70..e3f5b69 100644
--- a/include/laik/core-internal.h
+++ b/include/laik/core-internal.h
@@ -183,6 +183,8 @@ struct _Laik_KVStore {
     unsigned int size, used;
     // new entries are unsorted, call laik_kvs_sort to enable binary search
     unsigned int sorted_upto;
+    // entries removed since last sync: still in array, but without value
+    unsigned int removed;
 
     laik_kvs_created_func created_func;
     laik_kvs_changed_func changed_func;
diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index e0d56f9..44aabc8 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -1169,7 +1169,7 @@ static void laik_mpi_sync(Laik_KVStore* kvs)
     // send merged changes to all others: may be 0 entries
     count[0] = dst->offUsed;
     count[1] = dst->dataUsed;
-    assert(count[1] > count[0]); // more byte than offsets
+    assert((count[0] == 0) || ((count[0] & 1) == 1)); // 0 or odd number of offsets
     for(int i = 1; i < world->size; i++) {
         laik_log(1, "MPI sync: sending %d changes (total %d chars) to T%d",
                  count[0] / 2, count[1], i);
diff --git a/src/kvs.c b/src/kvs.c
index d42061c..f8d2cf0 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -122,6 +122,7 @@ void laik_kvs_changes_free(Laik_KVS_Changes* c)
 }
 
 // allocate own space in <c>, and does deep copy of <key> and <data>
+// <data> is 0 for removal of <key>: marked by a second terminating zero of key
 void laik_kvs_changes_add(Laik_KVS_Changes* c,
                           char* key, int dlen, char* data,
                           bool do_alloc, bool append_sorted)
@@ -130,6 +131,10 @@ void laik_kvs_changes_add(Laik_KVS_Changes* c,
     // this adds 2 data blocks with key and value, and offsets
 
     int klen = (int) strlen(key) + 1; // with terminating zero at end
+    if (data == 0) {
+        assert(dlen == 0);
+        klen++;
+    }
 
     if (do_alloc) {
         int offNeeded  = (c->offUsed == 0) ? 3 : (c->offUsed + 2);
@@ -151,11 +156,13 @@ void laik_kvs_changes_add(Laik_KVS_Changes* c,
     assert(c->dataUsed + klen + dlen <= c->dataSize); // name and data must fit
     assert(c->off[c->offUsed - 1] == c->dataUsed); // marker correct?
     char* newkey = c->data + c->dataUsed;
-    memcpy(newkey, key, (size_t) klen); // includes terminating zero at end
+    strcpy(newkey, key); // includes terminating zero at end
+    newkey[klen - 1] = 0;
     c->dataUsed += klen;
     c->off[c->offUsed] = c->dataUsed;
     char* newdata = c->data + c->dataUsed;
-    memcpy(newdata, data, (size_t) dlen);
+    if (dlen > 0)
+        memcpy(newdata, data, (size_t) dlen);
     c->dataUsed += dlen;
     c->off[c->offUsed + 1] = c->dataUsed;
     c->offUsed += 2;
@@ -172,7 +179,7 @@ void laik_kvs_changes_add(Laik_KVS_Changes* c,
     Laik_KVS_Entry* e = &(c->entry[c->entryUsed]);
     c->entryUsed++;
     e->key = newkey;
-    e->value = newdata;
+    e->value = (data == 0) ? 0 : newdata;
     e->vlen = (unsigned) dlen;
     e->updated = false;
 }
@@ -185,6 +192,13 @@ static int entrycmp(const void * v1, const void * v2)
     return strcmp(e1->key, e2->key);
 }
 
+// is change with key between offsets <off> and <off+1> a removal?
+static bool is_removal(Laik_KVS_Changes* c, int off)
+{
+    int klen = (int) strlen(c->data + c->off[off]);
+    return c->off[off] + klen + 1 < c->off[off + 1];
+}
+
 void laik_kvs_changes_sort(Laik_KVS_Changes* c)
 {
     // first fill entry array from data/offset array, then sort
@@ -202,13 +216,13 @@ void laik_kvs_changes_sort(Laik_KVS_Changes* c)
         c->entryUsed++;
 
         assert(c->off[off] < c->off[off + 1]); // key range
-        assert(c->off[off + 1] < c->off[off + 2]); // value range
+        assert(c->off[off + 1] <= c->off[off + 2]); // value range, may be empty
         assert(c->off[off + 2] <= c->dataUsed);
         // key must be terminated by 0
         assert(c->data[c->off[off + 1] - 1] == 0);
 
         e->key = c->data + c->off[off];
-        e->value = c->data + c->off[off + 1];
+        e->value = is_removal(c, off) ? 0 : (c->data + c->off[off + 1]);
         e->vlen = (unsigned) (c->off[off + 2] - c->off[off + 1]);
         e->updated = false;
 
@@ -243,7 +257,8 @@ void laik_kvs_changes_merge(Laik_KVS_Changes* dst,
             off2++;
         }
         else {
-            if ((e1->vlen != e2->vlen) || (strncmp(e1->value, e2->value, e1->vlen) != 0)) {
+            if ((e1->vlen != e2->vlen) || ((e1->value == 0) != (e2->value == 0)) ||
+                ((e1->vlen > 0) && (memcmp(e1->value, e2->value, e1->vlen) != 0))) {
                 laik_log(LAIK_LL_Panic,
                          "Merging KV changes at key '%s': update inconsistency\n",
                          e1->key);
@@ -276,7 +291,11 @@ void laik_kvs_changes_apply(Laik_KVS_Changes* c, Laik_KVStore *kvs)
     assert(c->data != 0);
     for(int i = 0; i + 1 < c->offUsed; i += 2) {
         assert(c->off[i+1] > c->off[i]);
-        assert(c->off[i+2] > c->off[i+1]);
+        assert(c->off[i+2] >= c->off[i+1]);
+        if (is_removal(c, i)) {
+            laik_kvs_remove(kvs, c->data + c->off[i]);
+            continue;
+        }
         laik_kvs_set(kvs,
                      c->data + c->off[i],
                      (unsigned)(c->off[i+2] - c->off[i+1]), // data size
@@ -308,6 +327,7 @@ Laik_KVStore* laik_kvs_new(const char* name, Laik_Instance *inst)
     laik_kvs_changes_init(&(kvs->changes));
     laik_kvs_changes_ensure_size(&(kvs->changes), 10, 1000);
     kvs->in_sync = false;
+    kvs->removed = 0;
 
     return kvs;
 }
@@ -316,27 +336,49 @@ void laik_kvs_free(Laik_KVStore* kvs)
 {
     assert(kvs);
 
+    for(unsigned i = 0; i < kvs->used; i++) {
+        free(kvs->entry[i].key);
+        free(kvs->entry[i].value);
+    }
     free(kvs->entry);
     laik_kvs_changes_free(&(kvs->changes));
     free(kvs);
 }
 
+// update from other process, but we changed the entry ourself differently
+static void update_conflict(Laik_KVStore* kvs, char* key)
+{
+    laik_log(LAIK_LL_Panic,
+             "KVS '%s' at key '%s': update inconsistency\n",
+             kvs->name, key);
+    exit(1);
+}
+
 static void remove_entry(Laik_KVStore* kvs, Laik_KVS_Entry* e)
 {
-    assert(e);
+    assert(e && e->value);
+    if (e->updated && kvs->in_sync)
+        update_conflict(kvs, e->key);
+
     if (kvs->in_sync && kvs->removed_func)
         (kvs->removed_func)(kvs, e->key);
 
-    // key of removed entry still exists but with empty data
+    // key of removed entry still exists until next sync, but without data
     free(e->value);
     e->value = 0;
     e->vlen = 0;
     e->data = 0;
+    kvs->removed++;
 
+    // queue removal for propagation on next sync
     if (!kvs->in_sync)
-        laik_kvs_changes_add(&(kvs->changes), e->key, 0, 0, true, false);
+        e->updated = true;
 }
 
+// search for entry including entries removed since last sync
+static Laik_KVS_Entry* find_entry(Laik_KVStore* kvs, char* key);
+
+
 // remove all entries
 void laik_kvs_clean(Laik_KVStore* kvs)
 {
@@ -367,21 +409,23 @@ Laik_KVS_Entry* laik_kvs_set(Laik_KVStore* kvs, char* key, unsigned int size, ch
         return 0;
     }
 
-    Laik_KVS_Entry* e = laik_kvs_entry(kvs, key);
+    Laik_KVS_Entry* e = find_entry(kvs, key);
+    char* old = 0;
     bool created;
     if (e) {
         if (e->value) {
-            if (memcmp(e->value, value, (size_t) size) == 0) {
+            if ((e->vlen == size) && (memcmp(e->value, value, (size_t) size) == 0)) {
                 laik_log(1, "KVS '%s': entry '%s' (size %d, '%.20s') already existing",
                          kvs->name, key, size, value);
                 return e;
             }
-            free(e->value);
+            old = e->value; // <value> may point into it, free later
             created = false;
         }
         else {
-            // existing key with empty data: was removed, gets new created
+            // existing key without data: was removed, gets new created
             created = true;
+            kvs->removed--;
         }
     }
     else {
@@ -400,18 +444,14 @@ Laik_KVS_Entry* laik_kvs_set(Laik_KVStore* kvs, char* key, unsigned int size, ch
         created = true;
     }
 
-    if (e->updated && kvs->in_sync) {
-        // update from other process and updated ourself differently
-        laik_log(LAIK_LL_Panic,
-                 "KVS '%s' at key '%s': update inconsistency\n",
-                 kvs->name, key);
-        exit(1);
-    }
+    if (e->updated && kvs->in_sync)
+        update_conflict(kvs, key);
 
-    e->value = (char*) malloc(size);
+    e->value = (char*) malloc(size > 0 ? size : 1);
     assert(e->value);
     memcpy(e->value, value, size);
     e->vlen = size;
+    free(old);
 
     if (created) {
         laik_log(1, "KVS '%s': set new entry '%s' (size %d) to '%.20s'",
@@ -426,10 +466,9 @@ Laik_KVS_Entry* laik_kvs_set(Laik_KVStore* kvs, char* key, unsigned int size, ch
         if (kvs->in_sync && kvs->changed_func) (kvs->changed_func)(kvs, e);
     }
 
-    if (kvs->in_sync) return e;
-    e->updated = true;
-
-    laik_kvs_changes_add(&(kvs->changes), key, size, value, true, false);
+    // queue update for propagation on next sync
+    if (!kvs->in_sync)
+        e->updated = true;
 
     return e;
 }
@@ -447,6 +486,14 @@ void laik_kvs_sync(Laik_KVStore* kvs)
     const Laik_Backend* b = kvs->inst->backend;
     assert(b && b->sync);
 
+    // journal with current state of entries changed since last sync
+    laik_kvs_changes_set_size(&(kvs->changes), 0, 0);
+    for(unsigned int i = 0; i < kvs->used; i++) {
+        Laik_KVS_Entry* e = &(kvs->entry[i]);
+        if (!e->updated) continue;
+        laik_kvs_changes_add(&(kvs->changes), e->key, (int) e->vlen, e->value, true, false);
+    }
+
     laik_log(1, "sync KVS '%s' (progagating %d/%d entries) ...",
              kvs->name, kvs->changes.offUsed / 2, kvs->used);
     kvs->in_sync = true;
@@ -456,15 +503,26 @@ void laik_kvs_sync(Laik_KVStore* kvs)
     // all queued entries sent, remove
     laik_kvs_changes_set_size(&(kvs->changes), 0, 0);
 
-    for(unsigned int i = 0; i < kvs->used; i++)
-        kvs->entry[i].updated = false;
+    // all processes know about removals now: forget removed entries
+    unsigned int used = 0;
+    for(unsigned int i = 0; i < kvs->used; i++) {
+        if (kvs->entry[i].value == 0) {
+            free(kvs->entry[i].key);
+            continue;
+        }
+        kvs->entry[used] = kvs->entry[i];
+        kvs->entry[used].updated = false;
+        used++;
+    }
+    kvs->used = used;
+    kvs->removed = 0;
 
     laik_log(1, "  sync done (now %d entries).", kvs->used);
 
     laik_kvs_sort(kvs);
 }
 
-Laik_KVS_Entry* laik_kvs_entry(Laik_KVStore* kvs, char* key)
+static Laik_KVS_Entry* find_entry(Laik_KVStore* kvs, char* key)
 {
     Laik_KVS_Entry* e;
 
@@ -495,6 +553,12 @@ Laik_KVS_Entry* laik_kvs_entry(Laik_KVStore* kvs, char* key)
     return 0;
 }
 
+Laik_KVS_Entry* laik_kvs_entry(Laik_KVStore* kvs, char* key)
+{
+    Laik_KVS_Entry* e = find_entry(kvs, key);
+    return (e && e->value) ? e : 0;
+}
+
 char* laik_kvs_data(Laik_KVS_Entry* e, unsigned int *psize)
 {
     assert(e);
@@ -513,14 +577,19 @@ char* laik_kvs_get(Laik_KVStore* kvs, char* key, unsigned int* psize)
 unsigned int laik_kvs_count(Laik_KVStore* kvs)
 {
     assert(kvs);
-    return kvs->used;
+    return kvs->used - kvs->removed;
 }
 
 Laik_KVS_Entry* laik_kvs_getn(Laik_KVStore* kvs, unsigned int n)
 {
     assert(kvs);
-    if (n >= kvs->used) return 0;
-    return &(kvs->entry[n]);
+    if (n >= kvs->used - kvs->removed) return 0;
+    if (kvs->removed == 0) return &(kvs->entry[n]);
+
+    // skip entries removed since last sync
+    unsigned int i = 0;
+    while((kvs->entry[i].value == 0) || (n-- > 0)) i++;
+    return &(kvs->entry[i]);
 }
 
 char* laik_kvs_key(Laik_KVS_Entry* e)
-- 
2.43.0


From fe27d488c8a780d3f8160f029f77d732d512c6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:12 +0000
Subject: [PATCH 39/65] fix: location synchronization after growth of the
 instance

---
 include/laik/core-internal.h |  1 +
 src/core.c                   | 22 +++++++++++++++++-----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/laik/core-internal.h b/include/laik/core-internal.h
index e3f5b69..b15e024 100644
--- a/include/laik/core-internal.h
+++ b/include/laik/core-internal.h
@@ -77,6 +77,7 @@ struct _Laik_Instance {
     // direct access to synchronized location strings (array of size <size>)
     // null if not synced yet; for removed processes entries are null
     char** location;
+    int location_size; // number of entries in location array
 
     // KV stores for LAIK objects
     Laik_KVStore* spaceStore;
diff --git a/src/core.c b/src/core.c
index 0f957fd..d5813b4 100644
--- a/src/core.c
+++ b/src/core.c
@@ -219,6 +219,7 @@ Laik_Instance* laik_new_instance(const Laik_Backend* b,
 
     instance->locationStore = 0;
     instance->location = 0; // set at location sync
+    instance->location_size = 0;
 
     instance->spaceStore = 0;
 
@@ -680,16 +681,22 @@ void laik_sync_location(Laik_Instance *instance)
 {
     if (instance->locationStore == NULL) {
         instance->locationStore = laik_kvs_new("location", instance);
-        instance->location = (char**) malloc((unsigned)instance->locations * sizeof(char*));
-        assert(instance->location != 0);
-        for(int i = 0; i < instance->locations; i++)
-            instance->location[i] = 0;
 
         // register function to update direct access to location
         laik_kvs_reg_callbacks(instance->locationStore,
                                update_location, update_location, remove_location);
     }
 
+    // array for direct access: instance may have grown since last sync
+    if (instance->location_size < instance->locations) {
+        instance->location = (char**) realloc(instance->location,
+                                              (unsigned)instance->locations * sizeof(char*));
+        assert(instance->location != 0);
+        for(int i = instance->location_size; i < instance->locations; i++)
+            instance->location[i] = 0;
+        instance->location_size = instance->locations;
+    }
+
     Laik_Group* world = laik_world(instance);
     char* mylocation = laik_mylocation(instance);
     int mylocationid = laik_group_locationid(world, laik_myid(world));
@@ -697,7 +704,9 @@ void laik_sync_location(Laik_Instance *instance)
     instance->location[mylocationid] = mylocation;
 
     char* myKey = locationkey(mylocationid);
-    laik_kvs_sets(instance->locationStore, myKey, mylocation);
+    Laik_KVS_Entry* e = laik_kvs_sets(instance->locationStore, myKey, mylocation);
+    // always send own location: new processes do not know it yet
+    e->updated = true;
     laik_kvs_sync(instance->locationStore);
 }
 
@@ -709,6 +718,9 @@ char* laik_group_location(Laik_Group *group, int id)
 
     int lid = laik_group_locationid(group, id);
     assert(lid >= 0 && lid < group->inst->locations);
+    // not known before next location sync
+    if (lid >= group->inst->location_size)
+        return NULL;
     return group->inst->location[lid];
 }
 
-- 
2.43.0


From e9b3fd3d1277bebea4f624dea1147ec69716e759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:21 +0000
Subject: [PATCH 40/65] fix: TCP2 backend: KVS synchronization of any keys and
 values, removals, and after resize

---
 include/laik/core-internal.h |   2 +
 src/backend-tcp2.c           | 209 ++++++++++++++++++++++++-----------
 src/kvs.c                    |   2 +
 3 files changed, 148 insertions(+), 65 deletions(-)

diff --git a/include/laik/core-internal.h b/include/laik/core-internal.h
index b15e024..5a02575 100644
--- a/include/laik/core-internal.h
+++ b/include/laik/core-internal.h
@@ -196,6 +196,8 @@ struct _Laik_KVStore {
 
     // if true, setting values will not be propagated for next sync
     bool in_sync;
+    // epoch at last sync: processes added since then may not know any entry
+    int epoch;
 };
 
 // internal API for KVS change journal
diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 948527e..dd7fa5c 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -299,8 +299,9 @@ struct _InstData {
     // currently synced KVS (usually NULL)
     Laik_KVStore* kvs;
     char *kvs_name;  // non-null if sending changes of KVS with given name allowed
-    int kvs_changes; // number of changes expected
-    int kvs_received; // counter for incoming changes
+    int kvs_changes; // number of bytes with changes expected
+    int kvs_received; // counter for incoming bytes
+    char* kvs_data;  // serialized changes received
 
     int init_wsize;   // for master in startup: initial world size
     int peers;        // number of known peers (= valid entries in peer entry)
@@ -1057,8 +1058,8 @@ void got_help(InstData* d, int fd, int lid)
     send_cmd(d, lid, "#  getready                     : request to finish registration");
     send_cmd(d, lid, "#  id <id> <loc> <host> <port> <flags> : announce location id info");
     send_cmd(d, lid, "#  kvs allow <name>             : allow to send changes for KVS");
-    send_cmd(d, lid, "#  kvs changes <count>          : announce number of changes for KVS");
-    send_cmd(d, lid, "#  kvs data <key> <value>       : send changed KVS entry");
+    send_cmd(d, lid, "#  kvs changes <bytes>          : announce size of changes for KVS");
+    send_cmd(d, lid, "#  kvs data <hex>               : send part of changed KVS entries");
     send_cmd(d, lid, "#  myid <id>                    : identify your location id");
     send_cmd(d, lid, "#  ok                           : positive response to a request");
     send_cmd(d, lid, "#  phase <phase> <epoch>        : announce current phase/epoch");
@@ -1333,12 +1334,13 @@ void got_kvs_allow(InstData* d, int lid, char* msg)
         return;
     }
 
-    char cmd[21];
-    char name[30];
-    if (sscanf(msg, "%20s %29s", cmd, name) < 2) {
+    // rest of command after "allow " is name
+    char* name = strchr(msg, ' ');
+    if (name == 0) {
         laik_log(LAIK_LL_Warning, "cannot parse 'kvs allow' command '%s'; ignoring", msg);
         return;
     }
+    name++;
 
     laik_log(1, "TCP2 allowed to send changes for KVS '%s'", name);
     assert(d->kvs_name == 0);
@@ -1349,42 +1351,121 @@ void got_kvs_allow(InstData* d, int lid, char* msg)
 void got_kvs_changes(InstData* d, int lid, char* msg)
 {
     char cmd[21];
-    int changes = 0;
-    if (sscanf(msg, "%20s %d", cmd, &changes) < 2) {
+    int len = 0;
+    if ((sscanf(msg, "%20s %d", cmd, &len) < 2) || (len < 0)) {
         laik_log(LAIK_LL_Warning, "cannot parse 'kvs changes' command '%s'; ignoring", msg);
         return;
     }
+    if ((d->kvs == 0) || (d->kvs_changes >= 0)) {
+        laik_log(LAIK_LL_Warning, "ignoring 'kvs changes' from LID %d", lid);
+        return;
+    }
 
-    laik_log(1, "TCP2 got %d changes announced for KVS '%s' from LID %d",
-             changes, d->kvs->name, lid);
-    assert(d->kvs_changes == -1);
+    laik_log(1, "TCP2 got %d bytes of changes announced for KVS '%s' from LID %d",
+             len, d->kvs->name, lid);
     assert(d->kvs_received == 0);
-    d->kvs_changes = changes;
-    if (changes == 0)
+    d->kvs_changes = len;
+    if (len == 0)
         d->exit = 1;
+    else {
+        d->kvs_data = malloc(len);
+        if (!d->kvs_data) {
+            laik_panic("TCP2 Out of memory allocating buffer for KVS changes");
+            exit(1); // not actually needed, laik_panic never returns
+        }
+    }
+}
+
+// changes are sent as sequence of key (null-terminated), length of value
+// (null-terminated decimal, -1 for removal), and value
+static void apply_kvs_changes(Laik_KVStore* kvs, char* buf, int len)
+{
+    int off = 0;
+    while(off < len) {
+        char* key = buf + off;
+        off += (int) strlen(key) + 1;
+        int vlen = atoi(buf + off);
+        off += (int) strlen(buf + off) + 1;
+        // simply mark changed entries as updated
+        //  this may send unneeded updates, but we do not use change journal in TCP2
+        if (vlen < 0) {
+            if (laik_kvs_remove(kvs, key))
+                for(unsigned int i = 0; i < kvs->used; i++)
+                    if (strcmp(kvs->entry[i].key, key) == 0)
+                        kvs->entry[i].updated = true;
+        }
+        else {
+            Laik_KVS_Entry* e = laik_kvs_set(kvs, key, (unsigned) vlen, buf + off);
+            e->updated = true;
+            off += vlen;
+        }
+    }
+    assert(off == len);
+}
+
+static char* serialize_kvs_changes(Laik_KVStore* kvs, int* plen)
+{
+    int len = 0;
+    for(unsigned int i = 0; i < kvs->used; i++) {
+        Laik_KVS_Entry* e = &(kvs->entry[i]);
+        if (e->updated) len += (int) (strlen(e->key) + 1 + 12 + e->vlen);
+    }
+    char* buf = malloc(len + 1);
+    if (!buf) {
+        laik_panic("TCP2 Out of memory allocating buffer for KVS changes");
+        exit(1); // not actually needed, laik_panic never returns
+    }
+    int off = 0;
+    for(unsigned int i = 0; i < kvs->used; i++) {
+        Laik_KVS_Entry* e = &(kvs->entry[i]);
+        if (!e->updated) continue;
+        off += sprintf(buf + off, "%s", e->key) + 1;
+        off += sprintf(buf + off, "%d", e->value ? (int) e->vlen : -1) + 1;
+        if (e->vlen > 0) memcpy(buf + off, e->value, e->vlen);
+        off += (int) e->vlen;
+    }
+    assert(off <= len);
+    *plen = off;
+    return buf;
+}
+
+// send serialized KVS changes in chunks
+static void send_kvs_changes(InstData* d, int lid, char* buf, int len)
+{
+    char msg[2100];
+    sprintf(msg, "kvs changes %d\n", len);
+    send_cmd(d, lid, msg);
+    for(int off = 0; off < len; off += 1000) {
+        int o = sprintf(msg, "kvs data ");
+        for(int i = off; (i < len) && (i < off + 1000); i++)
+            o += sprintf(msg + o, "%02x", (unsigned char) buf[i]);
+        sprintf(msg + o, "\n");
+        send_cmd(d, lid, msg);
+    }
 }
 
 void got_kvs_data(InstData* d, int lid, char* msg)
 {
-    char cmd[21], key[31], value[101];
-    if (sscanf(msg, "%20s %30s %100[^\n]", cmd, key, value) < 3) {
-        laik_log(LAIK_LL_Warning, "cannot parse kvs data command '%s'; ignoring", msg);
+    if ((d->kvs == 0) || (d->kvs_received >= d->kvs_changes)) {
+        laik_log(LAIK_LL_Warning, "ignoring 'kvs data' from LID %d", lid);
         return;
     }
 
-    laik_log(1, "TCP2 got KVS data from LID %d for key '%s': '%s'", lid, key, value);
-    assert(d->kvs != 0);
-    assert(d->kvs_changes > 0);
-    assert(d->kvs_received < d->kvs_changes);
-
-    Laik_KVS_Entry* e = laik_kvs_sets(d->kvs, key, value);
-    // simply mark it as updated
-    //  this may send unneeded updates, but we do not use change journal in TCP2
-    e->updated = true;
+    char* hex = strchr(msg, ' ');
+    unsigned int v;
+    while(hex && (d->kvs_received < d->kvs_changes) && (sscanf(hex, "%2x", &v) == 1)) {
+        d->kvs_data[d->kvs_received++] = (char) v;
+        hex += (*hex == ' ') ? 3 : 2;
+    }
+    laik_log(1, "TCP2 got KVS data from LID %d: now %d of %d bytes",
+             lid, d->kvs_received, d->kvs_changes);
 
-    d->kvs_received++;
-    if (d->kvs_received == d->kvs_changes)
+    if (d->kvs_received == d->kvs_changes) {
+        apply_kvs_changes(d->kvs, d->kvs_data, d->kvs_changes);
+        free(d->kvs_data);
+        d->kvs_data = 0;
         d->exit = 1;
+    }
 }
 
 
@@ -1750,6 +1831,7 @@ InstData* new_inst_data(char* host, char* location)
     d->kvs_changes = 0;
     d->kvs_received = 0;
     d->kvs_name = 0;
+    d->kvs_data = 0;
 
     return d;
 }
@@ -2417,15 +2499,12 @@ void tcp2_exec(Laik_ActionSeq* as)
 
 void tcp2_sync(Laik_KVStore* kvs)
 {
-    char msg[100];
     InstData* d = (InstData*)instance->backend_data;
+    Laik_Group* world = laik_world(instance);
+    char* changes;
+    int len;
 
-    int count = 0;
-    for(unsigned int i = 0; i < kvs->used; i++) {
-        if (!kvs->entry[i].updated) continue;
-        count++;
-    }
-    laik_log(1, "TCP2 syncing KVS '%s' with %d own changes", kvs->name, count);
+    laik_log(1, "TCP2 syncing KVS '%s'", kvs->name);
 
     // must not be in middle of another sync
     assert(d->kvs == 0);
@@ -2441,14 +2520,9 @@ void tcp2_sync(Laik_KVStore* kvs)
         // this must be allowance to send changes for same KVS
         assert(strcmp(kvs->name, d->kvs_name) == 0);
 
-        sprintf(msg, "kvs changes %d", count);
-        send_cmd(d, 0, msg);
-        for(unsigned int i = 0; i < kvs->used; i++) {
-            if (!kvs->entry[i].updated) continue;
-            sprintf(msg, "kvs data %s %s",
-                    kvs->entry[i].key, kvs->entry[i].value);
-            send_cmd(d, 0, msg);
-        }
+        changes = serialize_kvs_changes(kvs, &len);
+        send_kvs_changes(d, 0, changes, len);
+        free(changes);
         // all changes sent, remove own permission
         // (needs to be done here, as we may receive next allowance
         //  before end of sync, which would trigger assertion)
@@ -2459,7 +2533,7 @@ void tcp2_sync(Laik_KVStore* kvs)
         d->kvs_received = 0;
         while((d->kvs_changes < 0) || (d->kvs_received < d->kvs_changes))
             run_loop(d);
-        laik_log(1, "TCP2 synced %d changes for KVS %s",
+        laik_log(1, "TCP2 synced %d bytes of changes for KVS %s",
                 d->kvs_changes, kvs->name);
         d->kvs = 0;
         return;
@@ -2467,36 +2541,41 @@ void tcp2_sync(Laik_KVStore* kvs)
 
     // master
 
-    for(int lid = 1; lid <= d->maxid; lid++) {
-        sprintf(msg, "kvs allow %s", kvs->name);
-        send_cmd(d, lid, msg);
+    char* msg = malloc(strlen(kvs->name) + 20);
+    if (!msg) {
+        laik_panic("TCP2 Out of memory allocating KVS command");
+        exit(1); // not actually needed, laik_panic never returns
+    }
+    sprintf(msg, "kvs allow %s\n", kvs->name);
+    for(int id = 0; id < world->size; id++) {
+        int lid = laik_group_locationid(world, id);
+        if (lid == d->mylid) continue;
 
         // wait for changes from LID <lid>
         d->kvs_changes = -1;
         d->kvs_received = 0;
+        send_cmd(d, lid, msg);
         while((d->kvs_changes < 0) || (d->kvs_received < d->kvs_changes))
             run_loop(d);
-        laik_log(1, "TCP2 got %d changes for KVS %s from LID %d",
+        laik_log(1, "TCP2 got %d bytes of changes for KVS %s from LID %d",
                 d->kvs_changes, kvs->name, lid);
     }
-    count = 0;
-    for(unsigned int i = 0; i < kvs->used; i++) {
-        if (!kvs->entry[i].updated) continue;
-        count++;
-    }
-    laik_log(1, "TCP2 with %d merged changes", count);
-    sprintf(msg, "kvs changes %d", count);
-    for(int lid = 1; lid <= d->maxid; lid++)
-        send_cmd(d, lid, msg);
-    for(unsigned int i = 0; i < kvs->used; i++) {
-        if (!kvs->entry[i].updated) continue;
-        sprintf(msg, "kvs data %s %s",
-                kvs->entry[i].key, kvs->entry[i].value);
-        for(int lid = 1; lid <= d->maxid; lid++)
-            send_cmd(d, lid, msg);
+    free(msg);
+
+    // processes which joined since last sync need to get all entries
+    if (kvs->epoch != instance->epoch)
+        for(unsigned int i = 0; i < kvs->used; i++)
+            kvs->entry[i].updated = true;
+
+    changes = serialize_kvs_changes(kvs, &len);
+    laik_log(1, "TCP2 with %d bytes of merged changes", len);
+    for(int id = 0; id < world->size; id++) {
+        int lid = laik_group_locationid(world, id);
+        if (lid == d->mylid) continue;
+        send_kvs_changes(d, lid, changes, len);
     }
-    laik_log(1, "TCP2 synced %d changes for KVS %s",
-            count, kvs->name);
+    free(changes);
+    laik_log(1, "TCP2 synced %d bytes of changes for KVS %s", len, kvs->name);
     d->kvs = 0;
 }
 
diff --git a/src/kvs.c b/src/kvs.c
index f8d2cf0..6a7652e 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -328,6 +328,7 @@ Laik_KVStore* laik_kvs_new(const char* name, Laik_Instance *inst)
     laik_kvs_changes_ensure_size(&(kvs->changes), 10, 1000);
     kvs->in_sync = false;
     kvs->removed = 0;
+    kvs->epoch = inst->epoch;
 
     return kvs;
 }
@@ -516,6 +517,7 @@ void laik_kvs_sync(Laik_KVStore* kvs)
     }
     kvs->used = used;
     kvs->removed = 0;
+    kvs->epoch = kvs->inst->epoch;
 
     laik_log(1, "  sync done (now %d entries).", kvs->used);
 
-- 
2.43.0


From 949dfe8d59f13960fbb9697ea8cd9867e785cd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:55 +0000
Subject: [PATCH 41/65] fix: TCP2: stop processing receive buffer of a
 connection closed by quit

---
 src/backend-tcp2.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index dd7fa5c..596da07 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -1669,6 +1669,7 @@ void process_rbuf(InstData* d, int fd)
 
         if (rbuf[pos2] == 4) { // Ctrl+D: same as "quit"
             got_cmd(d, fd, "quit", 5);
+            if (fds->cb == 0) return; // closed, receive buffer is gone
             pos1 = pos2+1;
         }
         if (rbuf[pos2] == 13) {
@@ -1678,6 +1679,7 @@ void process_rbuf(InstData* d, int fd)
         if (rbuf[pos2] == '\n') {
             rbuf[pos2] = 0;
             got_cmd(d, fd, rbuf + pos1, pos2 - pos1);
+            if (fds->cb == 0) return; // closed, receive buffer is gone
             pos1 = pos2+1;
         }
         pos2++;
@@ -1719,6 +1721,7 @@ void got_bytes(InstData* d, int fd)
             rbuf[used] = '\n';
             d->fds[fd].rbuf_used++;
             process_rbuf(d, fd);
+            if (d->fds[fd].cb == 0) return; // already closed by a command
         }
 
         int lid = d->fds[fd].lid;
-- 
2.43.0


From 8adb9177e104757de1258535dc3e1ce571d5ba4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:29 +0000
Subject: [PATCH 42/65] fix: TCP2: do not enter binary mode for connections of
 unknown senders

---
 src/backend-tcp2.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 596da07..3b985f6 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -1651,8 +1651,8 @@ void process_rbuf(InstData* d, int fd)
             pos2 = pos1;
             continue;
         }
-        // start of bin mode?
-        if (rbuf[pos1] == 'B') {
+        // start of bin mode? (only sent by known peers)
+        if ((fds->lid >= 0) && (rbuf[pos1] == 'B')) {
             // 3 bytes header: 'B' + 2 bytes count (up to 64k of binary)
             if (pos1 + 2 >= used) {
                 // not enough bytes to cover header: stop
-- 
2.43.0


From 02a456063129a1b4398ec1deb26f984ccecf8434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:29 +0000
Subject: [PATCH 43/65] fix: TCP2: too long command of unknown sender must not
 end process

---
 src/backend-tcp2.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 3b985f6..01c03eb 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -182,7 +182,7 @@
 #define MAX_PEERS 256
 #define MAX_FDS 256
 // receive buffer length
-#define RBUF_LEN 8*1024
+#define RBUF_LEN (8*1024)
 
 // forward decl
 void tcp2_exec(Laik_ActionSeq* as);
@@ -463,7 +463,7 @@ void add_rfd(InstData* d, int fd, loop_cb_t cb)
     d->fds[fd].cb = cb;
     d->fds[fd].lid = -1;
     d->fds[fd].cmd = 0; // no unprocessed command
-    d->fds[fd].rbuf = malloc(RBUF_LEN);
+    d->fds[fd].rbuf = malloc(RBUF_LEN + 1); // space for NL added on close
     d->fds[fd].rbuf_used = 0;
     d->fds[fd].outstanding_bin = 0;
 }
@@ -1699,6 +1699,15 @@ void got_bytes(InstData* d, int fd)
     assert((fd >= 0) && (fd < MAX_FDS));
     int used = d->fds[fd].rbuf_used;
 
+    if ((used == RBUF_LEN) && (d->fds[fd].lid < 0)) {
+        // not a process of the program: too long command, drop connection
+        laik_log(LAIK_LL_Warning,
+                 "TCP2 too long command from unknown sender; closing connection");
+        close(fd);
+        rm_rfd(d, fd);
+        return;
+    }
+
     if (used == RBUF_LEN) {
         // buffer not large enough for even 1 command: should not happen
         laik_panic("TCP2 receive buffer too small for 1 command");
-- 
2.43.0


From 5e396c3cbb393494a466b468b620b7ac231d8e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:29 +0000
Subject: [PATCH 44/65] fix: TCP2: status command must cope with long or
 missing peer info

---
 src/backend-tcp2.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 01c03eb..7de230e 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -1101,9 +1101,14 @@ void got_status(InstData* d, int fd, int lid)
 
     send_cmd(d, lid, "# Known peers:");
     for(int i = 0; i <= d->maxid; i++) {
-        sprintf(msg, "#  LID%2d loc '%s' at host '%s' port %d flags %c", i,
-                    d->peer[i].location, d->peer[i].host, d->peer[i].port,
-                    d->peer[i].accepts_bin_data ? 'b':'-');
+        // slots without info received: processes which left before
+        if ((i != d->mylid) && (d->peer[i].state == PS_Invalid)) continue;
+
+        snprintf(msg, sizeof(msg),
+                 "#  LID%2d loc '%s' at host '%s' port %d flags %c", i,
+                 d->peer[i].location ? d->peer[i].location : "-",
+                 d->peer[i].host ? d->peer[i].host : "-", d->peer[i].port,
+                 d->peer[i].accepts_bin_data ? 'b':'-');
         send_cmd(d, lid, msg);
         if (d->peer[i].fd >= 0) {
             sprintf(msg, "#        open connection at FD %d", d->peer[i].fd);
@@ -1126,7 +1131,8 @@ void got_status(InstData* d, int fd, int lid)
                 get_statestring(d->fds[i].state));
         send_cmd(d, lid, msg);
         if (d->fds[i].cmd) {
-            sprintf(msg, "#        queued for processing: '%s'", d->fds[i].cmd);
+            snprintf(msg, sizeof(msg),
+                     "#        queued for processing: '%s'", d->fds[i].cmd);
             send_cmd(d, lid, msg);
         }
     }
-- 
2.43.0


From 09516dbb53407c24d5e315748d45c0ff7e17481a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:29 +0000
Subject: [PATCH 45/65] fix: TCP2: a connection aborted before accept must not
 end process

---
 src/backend-tcp2.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 7de230e..137b49a 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -1777,6 +1777,12 @@ void got_connect(InstData* d, int fd)
     socklen_t len = sizeof(saddr);
     int newfd = accept(fd, &saddr, &len);
     if (newfd < 0) {
+        int e = errno;
+        if ((e == ECONNABORTED) || (e == EINTR) || (e == EAGAIN)) {
+            // connection already closed again by other side
+            laik_log(1, "TCP2 connection request vanished: %s\n", strerror(e));
+            return;
+        }
         laik_panic("TCP2 Error in accept\n");
         exit(1);
     }
-- 
2.43.0


From b6a3fc2cfb99647b245d540afd56a811e4118e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:29 +0000
Subject: [PATCH 46/65] fix: TCP2: do not block on output to a connection which
 does not read

---
 src/backend-tcp2.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 137b49a..af1ece8 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -654,6 +654,15 @@ void send_cmd(InstData* d, int lid, char* cmd)
     laik_log(1, "TCP2 Sent cmd '%s' (len %d) to LID %d (FD %d)\n",
              cmd, len, lid, fd);
 
+    if (lid < 0) {
+        // not a process of the program: it may close connection anytime, or not
+        // read replies. Never block on it: drop output which cannot be sent
+        if ((send(fd, cmd, len, MSG_DONTWAIT) < len) ||
+            ((nlptr == 0) && (send(fd, "\n", 1, MSG_DONTWAIT) < 1)))
+            laik_log(1, "TCP2 output dropped for FD %d\n", fd);
+        return;
+    }
+
     // write cmd (cope with partial writes and errors)
     int res, written = 0;
     while(written < len) {
@@ -666,11 +675,6 @@ void send_cmd(InstData* d, int lid, char* cmd)
 
     if (res < 0) {
         int e = errno;
-        if (lid < 0) {
-            // not a process of the program: it may close connection anytime
-            laik_log(1, "TCP2 write error on FD %d: %s\n", fd, strerror(e));
-            return;
-        }
         laik_log(LAIK_LL_Panic, "TCP2 write error on FD %d: %s\n",
                  fd, strerror(e));
     }
-- 
2.43.0


From d0e864caa226b58946890f0e80abcc7f28502bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:29 +0000
Subject: [PATCH 47/65] fix: TCP2: myid command with unknown ID must not end
 process

---
 src/backend-tcp2.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index af1ece8..d7a2c80 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -959,8 +959,10 @@ void got_myid(InstData* d, int fd, int lid, char* msg)
     }
 
     lid = peerid;
-    assert((lid >= 0) && (lid < MAX_PEERS));
-    assert(lid <= d->maxid);
+    if ((lid < 0) || (lid > d->maxid) || (d->peer[lid].location == 0)) {
+        laik_log(LAIK_LL_Warning, "got unknown ID %d; ignoring", peerid);
+        return;
+    }
     d->peer[lid].fd = fd;
     assert(fd >= 0);
     d->fds[fd].lid = lid;
-- 
2.43.0


From f6d64111fbd410c07c4b1d9cb78234c06f092104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:20 +0000
Subject: [PATCH 48/65] fix: TCP2: keep output lines complete after dropping
 output to unknown senders

---
 src/backend-tcp2.c | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index d7a2c80..99d4322 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -275,6 +275,9 @@ typedef struct {
     char* rbuf;
     // if > 0 we are in binary data receive mode, outstanding bytes
     int outstanding_bin;
+
+    // last line sent was cut off
+    bool cut;
 } FDState;
 
 struct _InstData {
@@ -466,6 +469,7 @@ void add_rfd(InstData* d, int fd, loop_cb_t cb)
     d->fds[fd].rbuf = malloc(RBUF_LEN + 1); // space for NL added on close
     d->fds[fd].rbuf_used = 0;
     d->fds[fd].outstanding_bin = 0;
+    d->fds[fd].cut = false;
 }
 
 void rm_rfd(InstData* d, int fd)
@@ -627,6 +631,15 @@ void ensure_conn(InstData* d, int lid)
     }
 }
 
+// finish a line which was cut off before the other side got a known peer
+static
+void finish_line(InstData* d, int fd)
+{
+    if (!d->fds[fd].cut) return;
+    while(write(fd, "\n", 1) == 0);
+    d->fds[fd].cut = false;
+}
+
 // send command <cmd> to peer <lid>
 // if <lid> is negative, receiver has no LID and its the FD (as -<lid>)
 //
@@ -657,13 +670,28 @@ void send_cmd(InstData* d, int lid, char* cmd)
     if (lid < 0) {
         // not a process of the program: it may close connection anytime, or not
         // read replies. Never block on it: drop output which cannot be sent
-        if ((send(fd, cmd, len, MSG_DONTWAIT) < len) ||
-            ((nlptr == 0) && (send(fd, "\n", 1, MSG_DONTWAIT) < 1)))
-            laik_log(1, "TCP2 output dropped for FD %d\n", fd);
+        FDState* fds = &(d->fds[fd]);
+        if (fds->cut && (send(fd, "\n", 1, MSG_DONTWAIT) == 1)) fds->cut = false;
+        if (fds->cut) return;
+
+        int res, written = 0;
+        while(written < len) {
+            res = send(fd, cmd + written, len - written, MSG_DONTWAIT);
+            if (res < 0) break;
+            written += res;
+        }
+        if ((written == len) && (nlptr == 0) &&
+            (send(fd, "\n", 1, MSG_DONTWAIT) == 1)) nlptr = cmd;
+        if ((written == len) && nlptr) return;
+
+        // later output has to start in new line
+        fds->cut = (written > 0);
+        laik_log(1, "TCP2 output dropped for FD %d\n", fd);
         return;
     }
 
     // write cmd (cope with partial writes and errors)
+    finish_line(d, fd);
     int res, written = 0;
     while(written < len) {
         res = write(fd, cmd + written, len - written);
@@ -693,6 +721,8 @@ void send_bin(InstData* d, int lid, char* buf, int len)
     laik_log(1, "TCP2 Sent bin (len %d) to LID %d (FD %d)\n",
              len, lid, fd);
 
+    finish_line(d, fd);
+
     // cope with partial writes and errors
     int res, written = 0;
     while(written < len) {
-- 
2.43.0


From d355d574aea945ae808f667bc62bb71729ff6c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:02 +0000
Subject: [PATCH 49/65] fix: neutral elements of min/max for floating point
 types must be infinite

---
 src/type.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/type.c b/src/type.c
index 8775c24..0bd7252 100644
--- a/src/type.c
+++ b/src/type.c
@@ -24,7 +24,7 @@
 #include <string.h>
 #include <stdio.h>
 #include <stdint.h>
-#include <float.h>
+#include <math.h>
 
 /**
  * LAIK data types
@@ -512,8 +512,8 @@ void laik_double_init(void* base, int count, Laik_ReductionOperation o)
     switch(o) {
     case LAIK_RO_Sum:  v = 0.0; break;
     case LAIK_RO_Prod: v = 1.0; break;
-    case LAIK_RO_Min:  v = DBL_MAX; break;
-    case LAIK_RO_Max:  v = -DBL_MAX; break;
+    case LAIK_RO_Min:  v = INFINITY; break;
+    case LAIK_RO_Max:  v = -INFINITY; break;
     default:
         assert(0);
     }
@@ -575,8 +575,8 @@ void laik_float_init(void* base, int count, Laik_ReductionOperation o)
     switch(o) {
     case LAIK_RO_Sum:  v = 0.0; break;
     case LAIK_RO_Prod: v = 1.0; break;
-    case LAIK_RO_Min:  v = FLT_MAX; break;
-    case LAIK_RO_Max:  v = -FLT_MAX; break;
+    case LAIK_RO_Min:  v = INFINITY; break;
+    case LAIK_RO_Max:  v = -INFINITY; break;
     default:
         assert(0);
     }
-- 
2.43.0


From cd360b167782399e6deef0cdb4438a1728f06c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:15 +0000
Subject: [PATCH 50/65] fix: migrate partitionings between groups not directly
 derived from each other

---
 src/partitioning.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/partitioning.c b/src/partitioning.c
index 19ce26d..61ba4fe 100644
--- a/src/partitioning.c
+++ b/src/partitioning.c
@@ -602,6 +602,7 @@ void laik_partitioning_migrate(Laik_Partitioning* p, Laik_Group* newg)
     if (oldg == newg) return;
 
     int* fromOld; // mapping of IDs from old group to new group
+    int* mapping = 0;
 
     if (newg->parent == oldg) {
         // new group is child of old
@@ -620,8 +621,20 @@ void laik_partitioning_migrate(Laik_Partitioning* p, Laik_Group* newg)
         fromOld = oldg->toParent2;
     }
     else {
-        // other cases not supported
-        assert(0);
+        // groups not directly derived from each other:
+        // same processes are at same location
+        mapping = malloc((oldg->size + 1) * sizeof(int));
+        if (!mapping) {
+            laik_panic("Out of memory allocating memory for group mapping");
+            exit(1); // not actually needed, laik_panic never returns
+        }
+        for(int i = 0; i < oldg->size; i++) {
+            mapping[i] = -1;
+            for(int j = 0; j < newg->size; j++)
+                if (oldg->locationid[i] == newg->locationid[j])
+                    mapping[i] = j;
+        }
+        fromOld = mapping;
     }
 
     RangeList_Entry* e = p->rangeList;
@@ -633,6 +646,7 @@ void laik_partitioning_migrate(Laik_Partitioning* p, Laik_Group* newg)
         laik_rangelist_migrate(e->ranges, fromOld, (unsigned int) newg->size);
         e = e->next;
     }
+    free(mapping);
 
     p->group = newg;
 }
-- 
2.43.0


From d2b5112f60da1970d693a991e081c4c5a2e57ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:15 +0000
Subject: [PATCH 51/65] fix: migrate own ranges of partitioning if not member
 of old or new group

---
 src/partitioning.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/partitioning.c b/src/partitioning.c
index 61ba4fe..ae8f3d2 100644
--- a/src/partitioning.c
+++ b/src/partitioning.c
@@ -640,8 +640,9 @@ void laik_partitioning_migrate(Laik_Partitioning* p, Laik_Group* newg)
     RangeList_Entry* e = p->rangeList;
     while(e) {
         if (e->info == LAIK_RI_SINGLETASK) {
-            assert(e->filter_tid < oldg->size);
-            e->filter_tid = fromOld[e->filter_tid];
+            // always own ranges: not part of old/new group if -1
+            assert(e->filter_tid == oldg->myid);
+            e->filter_tid = newg->myid;
         }
         laik_rangelist_migrate(e->ranges, fromOld, (unsigned int) newg->size);
         e = e->next;
-- 
2.43.0


From da1d7da7eeb078015367b34b6f47fef29155b3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:50 +0000
Subject: [PATCH 52/65] fix: MPI: support union of groups not containing each
 other

---
 src/backend-mpi.c | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index 44aabc8..01d66f6 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -397,13 +397,44 @@ void laik_mpi_finalize(Laik_Instance* inst)
     }
 }
 
+// create MPI communicator for union of groups: only collective among members
+// of union, as not all processes may know about both groups
+static
+void updateUnionGroup(Laik_Group* g)
+{
+    if (g->myid < 0) return;
+
+    MPIGroupData* gd = malloc(sizeof(MPIGroupData));
+    if (!gd) {
+        laik_panic("Out of memory allocating MPIGroupData object");
+        exit(1); // not actually needed, laik_panic never returns
+    }
+    assert(g->backend_data == 0); // must not be updated yet
+    g->backend_data = gd;
+
+    // location IDs are ranks in communicator of instance
+    MPI_Comm comm = mpiData(g->inst)->comm;
+    MPI_Group all, members;
+    int err = MPI_Comm_group(comm, &all);
+    if (err != MPI_SUCCESS) laik_mpi_panic(err);
+    err = MPI_Group_incl(all, g->size, g->locationid, &members);
+    if (err != MPI_SUCCESS) laik_mpi_panic(err);
+    err = MPI_Comm_create_group(comm, members, 0, &(gd->comm));
+    if (err != MPI_SUCCESS) laik_mpi_panic(err);
+    MPI_Group_free(&members);
+    MPI_Group_free(&all);
+}
+
 // update backend specific data for group if needed
 static
 void laik_mpi_updateGroup(Laik_Group* g)
 {
     // calculate MPI communicator for group <g>
-    // TODO: only supports shrinking of parent for now
     assert(g->parent);
+    if (g->parent2) {
+        updateUnionGroup(g);
+        return;
+    }
     assert(g->parent->size >= g->size);
 
     laik_log(1, "MPI backend updateGroup: parent %d (size %d, myid %d) "
-- 
2.43.0


From 22c15fc6668676a4b51713f69c1fe5e7382e25f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:19 +0000
Subject: [PATCH 53/65] fix: keep library handles of agents at index of their
 agent

---
 src/external.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/external.c b/src/external.c
index e1f7645..e3e6b4a 100644
--- a/src/external.c
+++ b/src/external.c
@@ -120,7 +120,7 @@ void laik_ext_load_agent_from_file (
     ctrl = instance->repart_ctrl;
 
     //ensure less than MAX_AGENT
-    assert(ctrl->num_agents <= MAX_AGENTS);
+    assert(ctrl->num_agents < MAX_AGENTS);
 
     handle = dlopen(path, RTLD_LAZY);
     if(!handle){
@@ -135,8 +135,8 @@ void laik_ext_load_agent_from_file (
     assert(agent);
 
     ctrl->agents[ctrl->num_agents] = agent;
-    ctrl->num_agents++;
     ctrl->handles[ctrl->num_agents] = handle;
+    ctrl->num_agents++;
     laik_log(LAIK_LL_Debug, "laik_ext_load_agent done ! L:2 \n");
 }
 
@@ -169,15 +169,15 @@ void laik_ext_loadagent (
     ctrl = instance->repart_ctrl;
 
     //ensure less than MAX_AGENT
-    assert(ctrl->num_agents <= MAX_AGENTS);
+    assert(ctrl->num_agents < MAX_AGENTS);
 
     agent = init(argc, argv);
 
     assert(agent);
 
     ctrl->agents[ctrl->num_agents] = agent;
-    ctrl->num_agents++;
     ctrl->handles[ctrl->num_agents] = NULL;
+    ctrl->num_agents++;
 }
 
 /** 
-- 
2.43.0


From f99069be6a04a9724cdceabdf99b1e1f3d515393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:19 +0000
Subject: [PATCH 54/65] fix: provide laik_ext_load_agent_from_function as
 declared

---
 src/external.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/external.c b/src/external.c
index e3e6b4a..adab3c4 100644
--- a/src/external.c
+++ b/src/external.c
@@ -149,7 +149,7 @@ void laik_ext_load_agent_from_file (
  * @param  argv: arguments to pass to the agent
  * @retval None
  */
-void laik_ext_loadagent (
+void laik_ext_load_agent_from_function (
     Laik_Instance* instance,
     laik_agent_init init,
     int argc, 
-- 
2.43.0


From 9be3b0896ecdb82d52689232d2c584d59e43573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:19 +0000
Subject: [PATCH 55/65] fix: laik_get_failed reports failures of all agents,
 within given space

---
 src/external.c | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/external.c b/src/external.c
index adab3c4..7ed11fc 100644
--- a/src/external.c
+++ b/src/external.c
@@ -225,15 +225,14 @@ void laik_get_failed (
     int max_failed
 ){
 
-    (void) max_failed;
     Laik_RepartitionControl* ctrl;
-    int i, n; //, count;
+    int i, n, count;
     assert(instance);    
     ctrl = instance->repart_ctrl;
     assert(ctrl);
     
 
-    //count = 0;
+    count = 0;
     for(i=0; i < ctrl -> num_agents; i++){
         Laik_Agent* agent = ctrl->agents[i];
 
@@ -252,14 +251,20 @@ void laik_get_failed (
             // (1) Get a list of node_uids
 
 
-            fta->getfail(num_failed, failed_ranks);
-
-            //printf("fta-> getfail: %d \n", *num_failed);
-            for(int k = 0 ; k < *num_failed; k++ )
-			{
-				laik_log(LAIK_LL_Debug, " Buf: %s   - % d \n",(failed_ranks + k)->uid, k);
-				fflush(stdout);
-			}
+            // agent may report more than there is space left
+            node_uid_t* buf = malloc(n * sizeof(node_uid_t));
+            if (!buf) {
+                laik_panic("Out of memory allocating list of failed nodes");
+                exit(1); // not actually needed, laik_panic never returns
+            }
+            int got = 0;
+            fta->getfail(&got, buf);
+            assert(got <= n);
+            for(int k = 0; (k < got) && (count < max_failed); k++) {
+                laik_log(LAIK_LL_Debug, " Buf: %s   - % d \n", buf[k].uid, count);
+                failed_ranks[count++] = buf[k];
+            }
+            free(buf);
 
             // (2) Map the failed nodes to ranks
             //for(j=0;j<n;j++){
@@ -276,6 +281,8 @@ void laik_get_failed (
         }
     }
 
+    *num_failed = count;
+
 
 }
 
-- 
2.43.0


From d6189b7e13cd0658cca1a9ff4b3c5d0faaf3c937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:19 +0000
Subject: [PATCH 56/65] fix: profiling without or with unusable file, and after
 finalizing

---
 src/profiling.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/profiling.c b/src/profiling.c
index 48502c4..1e4c638 100644
--- a/src/profiling.c
+++ b/src/profiling.c
@@ -106,7 +106,9 @@ double laik_wtime()
 // FIXME: should close any open file if output-to-file is enabled
 void laik_free_profiling(Laik_Instance* i)
 {
+    if (laik_profinst == i) laik_profinst = 0;
     free(i->profiling);
+    i->profiling = 0;
 }
 
 // start profiling measurement for given instance
@@ -185,10 +187,13 @@ void laik_enable_profiling_file(Laik_Instance* i, const char* filename)
     i->profiling->do_profiling = true;
     i->profiling->time_backend = 0.0;
     i->profiling->time_total = 0.0;
+    i->profiling->time_user = 0.0;
+    laik_close_profiling_file(i); // may still be open
     snprintf(i->profiling->filename, MAX_FILENAME_LENGTH, "t%s.%s", i->guid, filename);
     i->profiling->profile_file = fopen(filename, "a+");
     if (i->profiling->profile_file == NULL) {
         laik_log(LAIK_LL_Error, "Unable to start file based profiling");
+        return;
     }
 
     fprintf((FILE*)i->profiling->profile_file, "======MEASUREMENT START AT: %lu======\n", 
@@ -249,6 +254,7 @@ void laik_close_profiling_file(Laik_Instance* i)
 // print arbitrary text to file in output-to-file mode
 void laik_profile_printf(const char* msg, ...)
 {
+    if (!laik_profinst) return;
     if (laik_profinst->profiling->profile_file) {
         va_list args;
         va_start(args, msg);
-- 
2.43.0


From b2f54485fb15869b215a19576aad16d00c7ca869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:55 +0000
Subject: [PATCH 57/65] fix: measure LAIK total time

---
 src/data.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/data.c b/src/data.c
index ece8714..db1d5e4 100644
--- a/src/data.c
+++ b/src/data.c
@@ -1219,6 +1219,21 @@ void laik_reservation_alloc(Laik_Reservation* res)
     }
 }
 
+// start/stop measurement of time spent for switching (LAIK total time)
+static
+void startTotalTime(Laik_Instance* inst)
+{
+    if (inst->profiling->do_profiling)
+        inst->profiling->timer_total = laik_wtime();
+}
+
+static
+void stopTotalTime(Laik_Instance* inst)
+{
+    if (inst->profiling->do_profiling)
+        inst->profiling->time_total += laik_wtime() - inst->profiling->timer_total;
+}
+
 // execute a previously calculated transition on a data container
 void laik_exec_transition(Laik_Data* d, Laik_Transition* t)
 {
@@ -1234,12 +1249,16 @@ void laik_exec_transition(Laik_Data* d, Laik_Transition* t)
         exit(1);
     }
 
+    startTotalTime(d->space->inst);
+
     Laik_MappingList* toList = prepareMaps(d, t->toPartitioning);
     doTransition(d, t, 0, d->activeMappings, toList);
 
     // set new mapping/partitioning active
     d->activePartitioning = t->toPartitioning;
     d->activeMappings = toList;
+
+    stopTotalTime(d->space->inst);
 }
 
 Laik_ActionSeq* laik_calc_actions(Laik_Data* d,
@@ -1301,6 +1320,8 @@ void laik_exec_actions(Laik_ActionSeq* as)
         exit(1);
     }
 
+    startTotalTime(d->space->inst);
+
     Laik_MappingList* toList = prepareMaps(d, t->toPartitioning);
 
     if (tc->prepFromList && (tc->prepFromList != d->activeMappings)) {
@@ -1321,6 +1342,8 @@ void laik_exec_actions(Laik_ActionSeq* as)
     // set new mapping/partitioning active
     d->activePartitioning = t->toPartitioning;
     d->activeMappings = toList;
+
+    stopTotalTime(d->space->inst);
 }
 
 
@@ -1329,6 +1352,8 @@ void laik_switchto_partitioning(Laik_Data* d,
                                 Laik_Partitioning* toP, Laik_DataFlow flow,
                                 Laik_ReductionOperation redOp)
 {
+    startTotalTime(d->space->inst);
+
     // calculate actions to be done for switching
 
     Laik_Group *toGroup = 0, *fromGroup = 0, *commonGroup = 0;
@@ -1365,6 +1390,8 @@ void laik_switchto_partitioning(Laik_Data* d,
     // set new mapping/partitioning active
     d->activePartitioning = toP;
     d->activeMappings = toList;
+
+    stopTotalTime(d->space->inst);
 }
 
 
-- 
2.43.0


From fa080697c7295bd2ebb5ec27dac1040456e953d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:39 +0000
Subject: [PATCH 58/65] fix: TCP backend: KVS synchronization without any
 change

---
 src/backends/tcp/backend-tcp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backends/tcp/backend-tcp.c b/src/backends/tcp/backend-tcp.c
index c740880..b77ef31 100644
--- a/src/backends/tcp/backend-tcp.c
+++ b/src/backends/tcp/backend-tcp.c
@@ -902,7 +902,7 @@ static void laik_tcp_sync(Laik_KVStore* kvs)
     // send merged changes to all others: may be 0 entries
     count[0] = dst->offUsed;
     count[1] = dst->dataUsed;
-    assert(count[1] > count[0]); // more byte than offsets
+    assert((count[0] == 0) || ((count[0] & 1) == 1)); // 0 or odd number of offsets
     for(int i = 1; i < world->size; i++) {
         laik_log(1, "MPI sync: sending %d changes (total %d chars) to T%d",
                  count[0] / 2, count[1], i);
-- 
2.43.0


From 78acbe60c3ff88a63293bcae6b9f70931bba561c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:39 +0000
Subject: [PATCH 59/65] fix: TCP backend: all reduction operations, and/or are
 bitwise as in LAIK's own reduction functions

---
 src/backends/tcp/backend-tcp.c |  4 +-
 src/backends/tcp/minimpi.c     | 76 +++++++++++++++++++++-------------
 src/backends/tcp/minimpi.h     |  2 +
 src/backends/tcp/mpi.h         |  2 +
 4 files changed, 53 insertions(+), 31 deletions(-)

diff --git a/src/backends/tcp/backend-tcp.c b/src/backends/tcp/backend-tcp.c
index b77ef31..4247592 100644
--- a/src/backends/tcp/backend-tcp.c
+++ b/src/backends/tcp/backend-tcp.c
@@ -281,8 +281,8 @@ MPI_Op getMPIOp(Laik_ReductionOperation redOp)
     case LAIK_RO_Prod: mpiRedOp = MPI_PROD; break;
     case LAIK_RO_Min:  mpiRedOp = MPI_MIN; break;
     case LAIK_RO_Max:  mpiRedOp = MPI_MAX; break;
-    case LAIK_RO_And:  mpiRedOp = MPI_LAND; break;
-    case LAIK_RO_Or:   mpiRedOp = MPI_LOR; break;
+    case LAIK_RO_And:  mpiRedOp = MPI_BAND; break;
+    case LAIK_RO_Or:   mpiRedOp = MPI_BOR; break;
     default: assert(0);
     }
     return mpiRedOp;
diff --git a/src/backends/tcp/minimpi.c b/src/backends/tcp/minimpi.c
index f2eb846..9ddbbaa 100644
--- a/src/backends/tcp/minimpi.c
+++ b/src/backends/tcp/minimpi.c
@@ -165,40 +165,58 @@ static void laik_tcp_minimpi_combine (void* buffer, const void* data, const size
     laik_tcp_always (data);
     laik_tcp_always (errors);
 
+// Combine element b of the buffer with element d of the data using EXPR
+#define combine(TYPE, EXPR) { \
+                TYPE* buf = buffer; \
+                const TYPE* in = data; \
+                for (size_t i = 0; i < elements; i++) { \
+                    const TYPE b = buf[i]; \
+                    const TYPE d = in[i]; \
+                    buf[i] = (EXPR); \
+                } \
+            } break
+
+#define combine_integers(EXPR) \
+            case LAIK_TCP_MINIMPI_INT64:  combine (int64_t,  EXPR); \
+            case LAIK_TCP_MINIMPI_INT32:  combine (int32_t,  EXPR); \
+            case LAIK_TCP_MINIMPI_INT8:   combine (int8_t,   EXPR); \
+            case LAIK_TCP_MINIMPI_UINT64: combine (uint64_t, EXPR); \
+            case LAIK_TCP_MINIMPI_UINT32: combine (uint32_t, EXPR); \
+            case LAIK_TCP_MINIMPI_UINT8:  combine (uint8_t,  EXPR)
+
+#define combine_all(EXPR) \
+            case LAIK_TCP_MINIMPI_DOUBLE: combine (double, EXPR); \
+            case LAIK_TCP_MINIMPI_FLOAT:  combine (float,  EXPR); \
+            combine_integers (EXPR)
+
+#define combine_case(OP, TYPES, EXPR) \
+        case OP: \
+            switch (datatype) { \
+            TYPES (EXPR); \
+            default: \
+                laik_tcp_errors_push (errors, __func__, 0, "Invalid MPI datatype %d", datatype); \
+                break; \
+            } \
+            break
+
     switch (op) {
-        case LAIK_TCP_MINIMPI_SUM:
-        switch (datatype) {
-
-#define do_sum(TYPE) TYPE* b = buffer; \
-                     const TYPE* d = data; \
-                     for (size_t i = 0; i < elements; i++) \
-                         b[i] += d[i];
-
-            case LAIK_TCP_MINIMPI_DOUBLE: { do_sum(double)   } break;
-            case LAIK_TCP_MINIMPI_FLOAT:  { do_sum(float)    } break;
-            case LAIK_TCP_MINIMPI_INT64:  { do_sum(int64_t)  } break;
-            case LAIK_TCP_MINIMPI_INT32:  { do_sum(int32_t)  } break;
-            case LAIK_TCP_MINIMPI_INT8:   { do_sum(int8_t)   } break;
-            case LAIK_TCP_MINIMPI_UINT64: { do_sum(uint64_t) } break;
-            case LAIK_TCP_MINIMPI_UINT32: { do_sum(uint32_t) } break;
-            case LAIK_TCP_MINIMPI_UINT8:  { do_sum(uint8_t)  } break;
-#undef do_sum
-            default:
-                    laik_tcp_errors_push (errors, __func__, 0, "Invalid MPI datatype %d", datatype);
-                    break;
-            }
-            break;
-        case LAIK_TCP_MINIMPI_PROD:
-        case LAIK_TCP_MINIMPI_MIN:
-        case LAIK_TCP_MINIMPI_MAX:
-        case LAIK_TCP_MINIMPI_LAND:
-        case LAIK_TCP_MINIMPI_LOR:
-            laik_tcp_errors_push (errors, __func__, 1, "Unimplemented MPI operation %d", op);
-            break;
+        combine_case (LAIK_TCP_MINIMPI_SUM,  combine_all, b + d);
+        combine_case (LAIK_TCP_MINIMPI_PROD, combine_all, b * d);
+        combine_case (LAIK_TCP_MINIMPI_MIN,  combine_all, d < b ? d : b);
+        combine_case (LAIK_TCP_MINIMPI_MAX,  combine_all, d > b ? d : b);
+        combine_case (LAIK_TCP_MINIMPI_LAND, combine_integers, b && d);
+        combine_case (LAIK_TCP_MINIMPI_LOR,  combine_integers, b || d);
+        combine_case (LAIK_TCP_MINIMPI_BAND, combine_integers, b & d);
+        combine_case (LAIK_TCP_MINIMPI_BOR,  combine_integers, b | d);
         default:
             laik_tcp_errors_push (errors, __func__, 1, "Invalid MPI operation %d", op);
             break;
     }
+
+#undef combine_case
+#undef combine_all
+#undef combine_integers
+#undef combine
 }
 
 static void* laik_tcp_minimpi_run_async_split (void* input, __attribute__ ((unused)) Laik_Tcp_Errors* errors) {
diff --git a/src/backends/tcp/minimpi.h b/src/backends/tcp/minimpi.h
index 48c08ca..b54eceb 100644
--- a/src/backends/tcp/minimpi.h
+++ b/src/backends/tcp/minimpi.h
@@ -37,6 +37,8 @@ typedef enum {
     LAIK_TCP_MINIMPI_MAX,
     LAIK_TCP_MINIMPI_LAND,
     LAIK_TCP_MINIMPI_LOR,
+    LAIK_TCP_MINIMPI_BAND,
+    LAIK_TCP_MINIMPI_BOR,
 } Laik_Tcp_MiniMpiOp;
 
 typedef size_t Laik_Tcp_MiniMpiStatus;
diff --git a/src/backends/tcp/mpi.h b/src/backends/tcp/mpi.h
index 485cdeb..8c0b823 100644
--- a/src/backends/tcp/mpi.h
+++ b/src/backends/tcp/mpi.h
@@ -37,6 +37,8 @@ typedef Laik_Tcp_MiniMpiType MPI_Datatype;
 #define MPI_MAX  LAIK_TCP_MINIMPI_MAX
 #define MPI_LAND LAIK_TCP_MINIMPI_LAND
 #define MPI_LOR  LAIK_TCP_MINIMPI_LOR
+#define MPI_BAND LAIK_TCP_MINIMPI_BAND
+#define MPI_BOR  LAIK_TCP_MINIMPI_BOR
 typedef Laik_Tcp_MiniMpiOp MPI_Op;
 
 typedef Laik_Tcp_MiniMpiStatus MPI_Status;
-- 
2.43.0


From 9ec34918ec6f935b65754697843acb3bec474a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:20 +0000
Subject: [PATCH 60/65] fix: TCP backend: messages must not get received in
 another communicator with the same parent

---
 src/backends/tcp/minimpi.c | 22 +++++++++++++++++-----
 src/backends/tcp/minimpi.h |  4 ++--
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/backends/tcp/minimpi.c b/src/backends/tcp/minimpi.c
index 9ddbbaa..44e57b8 100644
--- a/src/backends/tcp/minimpi.c
+++ b/src/backends/tcp/minimpi.c
@@ -36,7 +36,8 @@
 struct Laik_Tcp_MiniMpiComm {
     GArray*  tasks;      // Mapping from per-communicator ranks to world ranks
     size_t   rank;       // Our own rank in this communicator
-    size_t   generation; // The number of generations to the world communicator
+    size_t   generation; // Identifies this communicator among all with same members
+    size_t   children;   // The number of communicators derived from this one
 };
 
 typedef struct __attribute__ ((packed)) {
@@ -83,6 +84,17 @@ static Laik_Tcp_MiniMpiComm* laik_tcp_minimpi_new (GArray* tasks, size_t rank, s
     return this;
 }
 
+// Messages sent within a communicator must never be received in another one,
+// thus every derived communicator (not just every level of derivation) needs
+// its own generation. Deriving is a collective operation, so all members of
+// the parent come to the same result.
+__attribute__ ((warn_unused_result))
+static size_t laik_tcp_minimpi_derive (Laik_Tcp_MiniMpiComm* parent) {
+    laik_tcp_always (parent);
+
+    return parent->generation * 1000003 + ++parent->children;
+}
+
 __attribute__ ((warn_unused_result))
 static size_t laik_tcp_minimpi_lookup (const Laik_Tcp_MiniMpiComm* comm, size_t rank) {
     laik_tcp_always (comm);
@@ -368,10 +380,10 @@ int laik_tcp_minimpi_bcast (void* buffer, const int elements, const Laik_Tcp_Min
 }
 
 // https://www.mpich.org/static/docs/v3.2/www3/MPI_Comm_dup.html
-int laik_tcp_minimpi_comm_dup (const Laik_Tcp_MiniMpiComm* comm, Laik_Tcp_MiniMpiComm** new_communicator) {
+int laik_tcp_minimpi_comm_dup (Laik_Tcp_MiniMpiComm* comm, Laik_Tcp_MiniMpiComm** new_communicator) {
     laik_tcp_always (comm);
 
-    *new_communicator = laik_tcp_minimpi_new (g_array_ref (comm->tasks), comm->rank, comm->generation + 1);
+    *new_communicator = laik_tcp_minimpi_new (g_array_ref (comm->tasks), comm->rank, laik_tcp_minimpi_derive (comm));
 
     return LAIK_TCP_MINIMPI_SUCCESS;
 }
@@ -395,7 +407,7 @@ int laik_tcp_minimpi_comm_size (const Laik_Tcp_MiniMpiComm* comm, int* size) {
 }
 
 // https://www.mpich.org/static/docs/v3.2/www3/MPI_Comm_split.html
-int laik_tcp_minimpi_comm_split (const Laik_Tcp_MiniMpiComm* comm, const int color, const int hint, Laik_Tcp_MiniMpiComm** new_communicator) {
+int laik_tcp_minimpi_comm_split (Laik_Tcp_MiniMpiComm* comm, const int color, const int hint, Laik_Tcp_MiniMpiComm** new_communicator) {
     laik_tcp_always (comm);
 
     laik_tcp_debug ("Splitting with color %d and hint %d (I am task %zu)", color, hint, comm->rank);
@@ -514,7 +526,7 @@ int laik_tcp_minimpi_comm_split (const Laik_Tcp_MiniMpiComm* comm, const int col
     laik_tcp_always (new_local_rank < tasks->len);
 
     // Construct the new communicator
-    *new_communicator = laik_tcp_minimpi_new (g_steal_pointer (&tasks), new_local_rank, comm->generation + 1);
+    *new_communicator = laik_tcp_minimpi_new (g_steal_pointer (&tasks), new_local_rank, laik_tcp_minimpi_derive (comm));
 
     return LAIK_TCP_MINIMPI_SUCCESS;
 }
diff --git a/src/backends/tcp/minimpi.h b/src/backends/tcp/minimpi.h
index b54eceb..7397c9a 100644
--- a/src/backends/tcp/minimpi.h
+++ b/src/backends/tcp/minimpi.h
@@ -63,7 +63,7 @@ __attribute__ ((warn_unused_result))
 int laik_tcp_minimpi_bcast (void* buffer, int elements, Laik_Tcp_MiniMpiType datatype, size_t root, const Laik_Tcp_MiniMpiComm* comm);
 
 __attribute__ ((warn_unused_result))
-int laik_tcp_minimpi_comm_dup (const Laik_Tcp_MiniMpiComm* comm, Laik_Tcp_MiniMpiComm** new_communicator);
+int laik_tcp_minimpi_comm_dup (Laik_Tcp_MiniMpiComm* comm, Laik_Tcp_MiniMpiComm** new_communicator);
 
 __attribute__ ((warn_unused_result))
 int laik_tcp_minimpi_comm_rank (const Laik_Tcp_MiniMpiComm* comm, int* rank);
@@ -72,7 +72,7 @@ __attribute__ ((warn_unused_result))
 int laik_tcp_minimpi_comm_size (const Laik_Tcp_MiniMpiComm* comm, int* size);
 
 __attribute__ ((warn_unused_result))
-int laik_tcp_minimpi_comm_split (const Laik_Tcp_MiniMpiComm* comm, int color, int hint, Laik_Tcp_MiniMpiComm** new_communicator);
+int laik_tcp_minimpi_comm_split (Laik_Tcp_MiniMpiComm* comm, int color, int hint, Laik_Tcp_MiniMpiComm** new_communicator);
 
 __attribute__ ((warn_unused_result))
 int laik_tcp_minimpi_error_string (int error_code, char *string, int *result_length);
-- 
2.43.0


From 6da797ed162b0b1e62b5066251a62c8a75d6c46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:14 +0000
Subject: [PATCH 61/65] fix: TCP backend: support union of groups

---
 src/backends/tcp/backend-tcp.c | 26 ++++++++++++++-
 src/backends/tcp/minimpi.c     | 58 ++++++++++++++++++++++++++++++++++
 src/backends/tcp/minimpi.h     |  3 ++
 3 files changed, 86 insertions(+), 1 deletion(-)

diff --git a/src/backends/tcp/backend-tcp.c b/src/backends/tcp/backend-tcp.c
index 4247592..76089e0 100644
--- a/src/backends/tcp/backend-tcp.c
+++ b/src/backends/tcp/backend-tcp.c
@@ -218,13 +218,37 @@ void laik_tcp_finalize(Laik_Instance* inst)
     }
 }
 
+// create communicator for union of groups: only collective among members
+// of union, as not all processes may know about both groups
+static
+void updateUnionGroup(Laik_Group* g)
+{
+    if (g->myid < 0) return;
+
+    TCPGroupData* gd = malloc(sizeof(TCPGroupData));
+    if (!gd) {
+        laik_panic("Out of memory allocating TCPGroupData object");
+        exit(1); // not actually needed, laik_panic never returns
+    }
+    assert(g->backend_data == 0); // must not be updated yet
+    g->backend_data = gd;
+
+    // location IDs are ranks in communicator of instance
+    int err = laik_tcp_minimpi_comm_create(tcpData(g->inst)->comm,
+                                           g->locationid, g->size, &(gd->comm));
+    if (err != MPI_SUCCESS) laik_tcp_panic(err);
+}
+
 // update backend specific data for group if needed
 static
 void laik_tcp_updateGroup(Laik_Group* g)
 {
     // calculate MPI communicator for group <g>
-    // TODO: only supports shrinking of parent for now
     assert(g->parent);
+    if (g->parent2) {
+        updateUnionGroup(g);
+        return;
+    }
     assert(g->parent->size >= g->size);
 
     laik_log(1, "TCP backend updateGroup: parent %d (size %d, myid %d) "
diff --git a/src/backends/tcp/minimpi.c b/src/backends/tcp/minimpi.c
index 44e57b8..b5ae838 100644
--- a/src/backends/tcp/minimpi.c
+++ b/src/backends/tcp/minimpi.c
@@ -52,6 +52,7 @@ typedef enum {
     TYPE_REDUCE       = 0xcc,
     TYPE_SEND_RECEIVE = 0xdd,
     TYPE_SPLIT        = 0xee,
+    TYPE_CREATE       = 0xff,
 } MessageType;
 
 typedef struct {
@@ -379,6 +380,63 @@ int laik_tcp_minimpi_bcast (void* buffer, const int elements, const Laik_Tcp_Min
     return LAIK_TCP_MINIMPI_SUCCESS;
 }
 
+// Similar to https://www.mpich.org/static/docs/v3.2/www3/MPI_Comm_create_group.html
+// New communicator for <count> given <ranks>, only to be called by these
+int laik_tcp_minimpi_comm_create (const Laik_Tcp_MiniMpiComm* comm, const int* ranks, const size_t count, Laik_Tcp_MiniMpiComm** new_communicator) {
+    laik_tcp_always (comm);
+    laik_tcp_always (ranks);
+    laik_tcp_always (count > 0);
+
+    g_autoptr (Laik_Tcp_Errors) errors = laik_tcp_errors_new ();
+
+    // Create the task list and look for our new rank
+    g_autoptr (GArray) tasks = g_array_new (false, false, sizeof (size_t));
+    size_t new_local_rank = SIZE_MAX;
+    for (size_t i = 0; i < count; i++) {
+        if ((size_t) ranks[i] == comm->rank) {
+            new_local_rank = i;
+        }
+        const size_t world_rank = laik_tcp_minimpi_lookup (comm, ranks[i]);
+        g_array_append_vals (tasks, &world_rank, 1);
+    }
+    laik_tcp_always (new_local_rank < count);
+
+    // The other tasks of <comm> do not take part. So the first task chooses the
+    // generation, from a range which is not used when deriving collectively
+    uint64_t generation = 0;
+    const size_t master = ranks[0];
+
+    if (comm->rank == master) {
+        static uint64_t created = 0;
+        generation = GUINT64_TO_LE (UINT64_MAX - (((uint64_t) g_array_index (tasks, size_t, 0) << 32) + created++));
+        g_autoptr (GBytes) body = g_bytes_new (&generation, sizeof (generation));
+
+        for (size_t i = 1; i < count; i++) {
+            g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->generation, TYPE_CREATE, master, ranks[i], 0);
+            laik_tcp_messenger_push (messenger, laik_tcp_minimpi_lookup (comm, ranks[i]), header, body);
+        }
+    } else {
+        g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->generation, TYPE_CREATE, master, comm->rank, 0);
+
+        g_autoptr (GBytes) body = laik_tcp_messenger_get (messenger, laik_tcp_minimpi_lookup (comm, master), header, errors);
+        if (laik_tcp_errors_present (errors)) {
+            laik_tcp_errors_push (errors, __func__, 0, "Failed to receive generation from task %zu", master);
+            return laik_tcp_minimpi_error (errors);
+        }
+
+        if (g_bytes_get_size (body) != sizeof (generation)) {
+            laik_tcp_errors_push (errors, __func__, 1, "Task %zu sent %zu bytes when creating a communicator, expected %zu bytes", master, g_bytes_get_size (body), sizeof (generation));
+            return laik_tcp_minimpi_error (errors);
+        }
+
+        memcpy (&generation, g_bytes_get_data (body, NULL), sizeof (generation));
+    }
+
+    *new_communicator = laik_tcp_minimpi_new (g_steal_pointer (&tasks), new_local_rank, GUINT64_FROM_LE (generation));
+
+    return LAIK_TCP_MINIMPI_SUCCESS;
+}
+
 // https://www.mpich.org/static/docs/v3.2/www3/MPI_Comm_dup.html
 int laik_tcp_minimpi_comm_dup (Laik_Tcp_MiniMpiComm* comm, Laik_Tcp_MiniMpiComm** new_communicator) {
     laik_tcp_always (comm);
diff --git a/src/backends/tcp/minimpi.h b/src/backends/tcp/minimpi.h
index 7397c9a..b871ab9 100644
--- a/src/backends/tcp/minimpi.h
+++ b/src/backends/tcp/minimpi.h
@@ -62,6 +62,9 @@ int laik_tcp_minimpi_barrier (const Laik_Tcp_MiniMpiComm* comm);
 __attribute__ ((warn_unused_result))
 int laik_tcp_minimpi_bcast (void* buffer, int elements, Laik_Tcp_MiniMpiType datatype, size_t root, const Laik_Tcp_MiniMpiComm* comm);
 
+__attribute__ ((warn_unused_result))
+int laik_tcp_minimpi_comm_create (const Laik_Tcp_MiniMpiComm* comm, const int* ranks, size_t count, Laik_Tcp_MiniMpiComm** new_communicator);
+
 __attribute__ ((warn_unused_result))
 int laik_tcp_minimpi_comm_dup (Laik_Tcp_MiniMpiComm* comm, Laik_Tcp_MiniMpiComm** new_communicator);
 
-- 
2.43.0


From 91ab5b1b99f478ea84b2e34b05cc3f3052456424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:14 +0000
Subject: [PATCH 62/65] fix: TCP backend: check length of the hostname
 received, not of uninitialized memory

---
 src/backends/tcp/minimpi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backends/tcp/minimpi.c b/src/backends/tcp/minimpi.c
index b5ae838..18d9256 100644
--- a/src/backends/tcp/minimpi.c
+++ b/src/backends/tcp/minimpi.c
@@ -652,7 +652,7 @@ int laik_tcp_minimpi_get_processor_name (char* name, int* result_length) {
     g_autoptr (Laik_Tcp_Errors) errors = laik_tcp_errors_new ();
 
     char hostname[1024];
-    if (gethostname (hostname, sizeof (hostname)) != 0 || strnlen (name, sizeof (hostname)) == sizeof (hostname)) {
+    if (gethostname (hostname, sizeof (hostname)) != 0 || strnlen (hostname, sizeof (hostname)) == sizeof (hostname)) {
         laik_tcp_errors_push (errors, __func__, 0, "Failed to determine hostname");
         return laik_tcp_minimpi_error (errors);
     }
-- 
2.43.0


From 379273c2f4b0d58b94ff4b43508d516d5a76951d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:40 +0000
Subject: [PATCH 63/65] fix: TCP backend: all tasks must agree on order of
 tasks when splitting a communicator

---
 src/backends/tcp/minimpi.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/backends/tcp/minimpi.c b/src/backends/tcp/minimpi.c
index 18d9256..c40712e 100644
--- a/src/backends/tcp/minimpi.c
+++ b/src/backends/tcp/minimpi.c
@@ -152,7 +152,12 @@ static int laik_tcp_split_compare (const void* a, const void* b) {
     const Laik_Tcp_Split* x = a;
     const Laik_Tcp_Split* y = b;
 
-    return x->hint - y->hint;
+    // Ties are broken by the rank in the old communicator
+    if (x->hint != y->hint) {
+        return x->hint < y->hint ? -1 : 1;
+    }
+
+    return x->rank < y->rank ? -1 : x->rank > y->rank;
 }
 
 static size_t laik_tcp_minimpi_sizeof (const Laik_Tcp_MiniMpiType datatype, Laik_Tcp_Errors* errors) {
-- 
2.43.0


From 8c7f6f944fbf5c523a80ded7d13ce9c25876c868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:36 +0000
Subject: [PATCH 64/65] fix: space received via space store: let its range
 refer to the space

---
 src/space.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/space.c b/src/space.c
index 8c687e5..0eee395 100644
--- a/src/space.c
+++ b/src/space.c
@@ -441,6 +441,7 @@ bool laik_space_set(Laik_Space* s, char* v)
 {
     if ((v[0] < '1') || (v[0] > '3')) return false;
     s->dims = v[0] - '0';
+    s->range.space = s;
     if (s->dims == 1) {
         if (sscanf(v+1, "(%" SCNd64 "/%" SCNd64 ")",
                    &(s->range.from.i[0]), &(s->range.to.i[0]) ) != 2) return false;
-- 
2.43.0


From 794232fe55e638e84d38bada397774cfcab246cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:36 +0000
Subject: [PATCH 65/65] fix: serialization of 3d spaces with large coordinates
 overflows buffer

---
 src/space.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/space.c b/src/space.c
index 0eee395..bea9006 100644
--- a/src/space.c
+++ b/src/space.c
@@ -417,7 +417,8 @@ void laik_set_space_name(Laik_Space* s, char* n)
 
 char* laik_space_serialize(Laik_Space* s, unsigned* psize)
 {
-    static char buf[100];
+    // 3d: 6 numbers with up to 20 characters, and 8 separators/dimension
+    static char buf[150];
 
     int off = -1;
     if (s->dims == 1)
-- 
2.43.0

