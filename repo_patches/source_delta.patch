From 93ea9923d0961f295541a806ca43d37efceefcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:08 +0000
Subject: [PATCH 01/21] fix: truncate received rows at the limit in fixed-size
 transfers

cap_rows() added the excess to the last kept message instead of removing
it, so a fixed-size transfer (crystal_tuple_transfer) that receives more
columns than fit wrote past the end of the caller's arrays.
---
 src/sarray_transfer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sarray_transfer.c b/src/sarray_transfer.c
index 5f94192..771982a 100644
--- a/src/sarray_transfer.c
+++ b/src/sarray_transfer.c
@@ -125,7 +125,7 @@ static uint cap_rows(buffer *const data, const unsigned row_size,const uint max)
     uint len=buf[2]; n+=len;
     if(n<maxn) buf+=len+3;
     else {
-      buf[2]-=(maxn-n); data->n = (buf-(uint*)data->ptr)+3+buf[2];
+      buf[2]-=(n-maxn); data->n = (buf-(uint*)data->ptr)+3+buf[2];
       buf+=len+3;
       while(buf!=buf_end) { uint len=buf[2]; n+=len, buf+=len+3; }
       break;
-- 
2.43.0


From 5a526e07994da574aee991f479488494fe018a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:08 +0000
Subject: [PATCH 02/21] fix: transfer records that consist of the target field
 alone

With nothing but the processor field in a record the packed row size was
zero, and counting the received rows divided by it.
---
 src/sarray_transfer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sarray_transfer.c b/src/sarray_transfer.c
index 771982a..c9398cc 100644
--- a/src/sarray_transfer.c
+++ b/src/sarray_transfer.c
@@ -148,6 +148,7 @@ uint sarray_transfer_many(
   if(!ext) off1 -= sizeof(uint);
   row_size=off1; for(i=1;i<An;++i) row_size += size[i];
   row_size = (row_size+sizeof(uint)-1)/sizeof(uint);
+  if(row_size==0) row_size=1; /* record is just the target: rows must count */
   
   perm = sortp(&cr->work,0, proc,A[0]->n,proc_stride);
 
-- 
2.43.0


From d4904c73f9d1eb473b4a6056697d1c8365c50e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:58 +0000
Subject: [PATCH 03/21] fix: keep unflagged entries first when a handle is made
 unique

The local maps rely on the primary entry leading its group; sorting by
primary alone put a flagged entry with a smaller index in front of it.
---
 src/gs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gs.c b/src/gs.c
index e3a7b70..e9df227 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -275,7 +275,7 @@ static void make_topology_unique(struct gs_topology *top, slong *id,
     for(p=nz->ptr,e=p+nz->n;p!=e;++p)
       if(p->i != p->primary) p->flag=1;
   }
-  sarray_sort(struct nonzero_id,nz->ptr,nz->n, primary,0, buf);
+  sarray_sort_2(struct nonzero_id,nz->ptr,nz->n, primary,0, flag,0, buf);
 
   /* assign owner among shared primaries */
 
-- 
2.43.0


From 9c8758b8e0aab6a64f15453ae2806ce4bdbc7b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:58 +0000
Subject: [PATCH 04/21] fix: set the nonblocking entry points of the crystal
 router method

---
 src/gs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gs.c b/src/gs.c
index e9df227..3b497ea 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -938,6 +938,10 @@ static void cr_setup(struct gs_remote *r, struct gs_topology *top,
   r->buffer_size = crd->buffer_size;
   r->data = crd;
   r->exec = (exec_fun*)&cr_exec;
+  /* no split-phase version: the whole exchange happens when it is started */
+  r->exec_irecv = (exec_fun*)&cr_exec;
+  r->exec_isend = NULL;
+  r->exec_wait = NULL;
   r->fin = (fin_fun*)&cr_free;
 }
 
-- 
2.43.0


From ff43dd78b0487fd31339ff6f9d46b1758f4ebdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:58 +0000
Subject: [PATCH 05/21] fix: complete request and result of nonblocking
 reductions in all cases

With nothing to reduce, or an operation without MPI equivalent, the
request was left unset and then waited for; in the latter case the
result was also left in the wrong buffer.
---
 src/comm.c | 4 ++++
 src/gs.c   | 4 +---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/comm.c b/src/comm.c
index 19507c0..ea4599b 100644
--- a/src/comm.c
+++ b/src/comm.c
@@ -143,6 +143,9 @@ comm_allreduce_byhand:
 void comm_iallreduce(comm_req *req, const struct comm *com, gs_dom dom, gs_op op,
                           void *v, uint vn, void *buf)
 {
+#ifdef GSLIB_USE_MPI
+  *req = MPI_REQUEST_NULL;
+#endif
   if(vn==0) return;
 #ifdef GSLIB_USE_MPI
   {
@@ -177,6 +180,7 @@ void comm_iallreduce(comm_req *req, const struct comm *com, gs_dom dom, gs_op op
 #ifdef GSLIB_USE_MPI
 comm_allreduce_byhand:
   allreduce_imp(com,dom,op, v,vn, buf);
+  memcpy(buf,v,vn*gs_dom_size[dom]); /* result goes to buf, as above */
 #endif
 }
 
diff --git a/src/gs.c b/src/gs.c
index 3b497ea..42b69f6 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1012,9 +1012,7 @@ static void allreduce_exec_wait(
   unsigned unit_size = gs_dom_size[dom];
   char *ardbuf = buf+unit_size*gvn;
 
-  /* Why do I need this? Ugly */
-  if (comm->np > 1)
-    comm_wait(ard->req, 1);
+  comm_wait(ard->req, 1);
 #ifdef GSLIB_USE_MPI
   memcpy(buf,ardbuf,gvn*gs_dom_size[dom]);
 #endif
-- 
2.43.0


From 9e6fc460c883d0e7649abd411303016df3e822dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:58 +0000
Subject: [PATCH 06/21] fix: free the request of the all-reduce method

---
 src/gs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gs.c b/src/gs.c
index 42b69f6..d9271b9 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1070,6 +1070,7 @@ static void allreduce_free(struct allreduce_data *ard)
   free((uint*)ard->map_to_buf[1]);
   free((uint*)ard->map_from_buf[0]);
   free((uint*)ard->map_from_buf[1]);
+  free(ard->req);
   free(ard);
 }
 
-- 
2.43.0


From 241fd8e08b15588e2c9e17a619f1e0668c6c3fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:58 +0000
Subject: [PATCH 07/21] fix: free the communicator duplicated by the Fortran
 gs_unique

---
 src/gs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gs.c b/src/gs.c
index d9271b9..cf3be97 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1665,5 +1665,6 @@ void fgs_unique(slong id[], const sint *n, const MPI_Fint *c, const sint *np)
   comm = tmalloc(struct comm, 1);
   comm_init_check(comm, *c, *np);
   cgs_unique(id, un, comm);
+  comm_free(comm);
   free(comm);
 }
-- 
2.43.0


From a1778d87ec6cf284196ee37a299aa0ca0e2d7649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:58 +0000
Subject: [PATCH 08/21] fix: use the size of the selected datatype in
 gs_op_fields

---
 src/gs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gs.c b/src/gs.c
index cf3be97..89cd4b7 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1643,7 +1643,7 @@ void fgs_fields(const sint *handle,
 
   array_reserve(void*,&fgs_fields_array,*n);
   p = fgs_fields_array.ptr;
-  offset = *stride * gs_dom_size[*dom-1];
+  offset = *stride * gs_dom_size[fgs_dom[*dom]];
   for(i=*n;i;--i) *p++ = u, u = (char*)u + offset;
 
   cgs_many((void *const*)fgs_fields_array.ptr,*n,
-- 
2.43.0


From d76b20be2f6a236a8be5a44983499a611c820a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 09/21] fix: keep the array pointers of igs_many until the
 operation completes

The Fortran wrapper passes an array on its stack, which was still in use
in gs_wait.
---
 src/gs.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/gs.c b/src/gs.c
index 89cd4b7..9cbd1f1 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1302,6 +1302,7 @@ void gs_wait(int handle)
 	        nblkng_dict[handle]->transpose,
 	        nblkng_dict[handle]->gsh,
 	        nblkng_dict[handle]->buf);
+    if(nblkng_dict[handle]->mode==mode_many) free(nblkng_dict[handle]->u);
     free(nblkng_dict[handle]);
     nblkng_dict[handle] = 0;
     nblkng_count--;
@@ -1358,12 +1359,16 @@ void gs_many(void *const*u, unsigned vn, gs_dom dom, gs_op op,
 void igs_many(void *const*u, unsigned vn, gs_dom dom, gs_op op,
              unsigned transpose, struct gs_data *gsh, buffer *buf, int *handle)
 {
+  void **up;
   if(nblkng_n==nblkng_max) nblkng_max+=nblkng_max/2+1,
                      nblkng_dict=trealloc(nblkng,nblkng_dict,nblkng_max);
 
   nblkng_dict[nblkng_n] = tmalloc(struct nonblocking_private, 1);
 
-  nblkng_dict[nblkng_n]->u = (void *)u;
+  /* the caller's array of pointers need not outlive this call */
+  up = tmalloc(void*,vn);
+  memcpy(up,u,vn*sizeof(void*));
+  nblkng_dict[nblkng_n]->u = up;
   nblkng_dict[nblkng_n]->dom = dom;
   nblkng_dict[nblkng_n]->op = op;
   nblkng_dict[nblkng_n]->transpose = transpose;
@@ -1375,8 +1380,8 @@ void igs_many(void *const*u, unsigned vn, gs_dom dom, gs_op op,
   *handle = nblkng_n++;
   nblkng_count++;
 
-  gs_aux_irecv((void *)u,mode_many,vn,dom,op,transpose,gsh,buf);
-  gs_aux_isend((void *)u,mode_many,vn,dom,op,transpose,gsh,buf);
+  gs_aux_irecv(up,mode_many,vn,dom,op,transpose,gsh,buf);
+  gs_aux_isend(up,mode_many,vn,dom,op,transpose,gsh,buf);
 }
 
 /*------------------------------------------------------------------------------
-- 
2.43.0


From ec091331a4450dddb8d21401819c5156d168391c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 10/21] fix: give each nonblocking operation without buffer its
 own

The shared static buffer was reused, and reallocated, by operations
started while another one was still in flight.
---
 src/gs.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/gs.c b/src/gs.c
index 9cbd1f1..dad687d 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1250,7 +1250,7 @@ struct nonblocking_private {
   gs_op op;
   unsigned transpose;
   struct gs_data *gsh;
-  buffer *buf;
+  buffer *buf, own; /* own: used when the caller gives no buffer */
   unsigned vn;
 };
 
@@ -1280,6 +1280,8 @@ void igs(void *u, gs_dom dom, gs_op op, unsigned transpose,
   nblkng_dict[nblkng_n]->op = op;
   nblkng_dict[nblkng_n]->transpose = transpose;
   nblkng_dict[nblkng_n]->gsh = gsh;
+  buffer_init(&nblkng_dict[nblkng_n]->own,0);
+  if(!buf) buf = &nblkng_dict[nblkng_n]->own;
   nblkng_dict[nblkng_n]->buf = buf;
   nblkng_dict[nblkng_n]->mode = mode_plain;
   nblkng_dict[nblkng_n]->vn = 1;
@@ -1302,6 +1304,7 @@ void gs_wait(int handle)
 	        nblkng_dict[handle]->transpose,
 	        nblkng_dict[handle]->gsh,
 	        nblkng_dict[handle]->buf);
+    buffer_free(&nblkng_dict[handle]->own);
     if(nblkng_dict[handle]->mode==mode_many) free(nblkng_dict[handle]->u);
     free(nblkng_dict[handle]);
     nblkng_dict[handle] = 0;
@@ -1337,6 +1340,8 @@ void igs_vec(void *u, unsigned vn, gs_dom dom, gs_op op,
   nblkng_dict[nblkng_n]->op = op;
   nblkng_dict[nblkng_n]->transpose = transpose;
   nblkng_dict[nblkng_n]->gsh = gsh;
+  buffer_init(&nblkng_dict[nblkng_n]->own,0);
+  if(!buf) buf = &nblkng_dict[nblkng_n]->own;
   nblkng_dict[nblkng_n]->buf = buf;
   nblkng_dict[nblkng_n]->vn = vn;
   nblkng_dict[nblkng_n]->mode = mode_vec;
@@ -1373,6 +1378,8 @@ void igs_many(void *const*u, unsigned vn, gs_dom dom, gs_op op,
   nblkng_dict[nblkng_n]->op = op;
   nblkng_dict[nblkng_n]->transpose = transpose;
   nblkng_dict[nblkng_n]->gsh = gsh;
+  buffer_init(&nblkng_dict[nblkng_n]->own,0);
+  if(!buf) buf = &nblkng_dict[nblkng_n]->own;
   nblkng_dict[nblkng_n]->buf = buf;
   nblkng_dict[nblkng_n]->vn = vn;
   nblkng_dict[nblkng_n]->mode = mode_many;
-- 
2.43.0


From c798887b6fc99bc6f89ec306abbfa86a60260f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:33 +0000
Subject: [PATCH 11/21] fix: leave flagged entries alone in transposed
 operations

A process holding several flagged and no unflagged members of a group
summed them into the first of them and did not put its value back.
---
 src/gs.c | 66 ++++++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 60 insertions(+), 6 deletions(-)

diff --git a/src/gs.c b/src/gs.c
index dad687d..339a8fe 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -375,6 +375,30 @@ static const uint *flagged_primaries_map(const struct array *nz, uint *mem_size)
   return map;
 }
 
+/* flagged primaries that the transpose gather uses as accumulator of their
+   group; sets up maps to save and restore them, and returns their number */
+static uint saved_primaries_maps(const uint *map[2], const struct array *nz,
+                                 uint *mem_size)
+{
+  uint *save, *restore, n=0;
+  const struct nonzero_id *row, *end;
+  #define IS_SAVED(row) ((row)->i==(row)->primary && (row)->flag==1 && \
+                         (row)+1!=end && (row)[1].id==(row)->id)
+  for(row=nz->ptr,end=row+nz->n;row!=end;++row) if(IS_SAVED(row)) ++n;
+  map[0] = save    = tmalloc(uint,3*n+1);
+  map[1] = restore = tmalloc(uint,3*n+1);
+  *mem_size += 2*(3*n+1)*sizeof(uint);
+  n=0;
+  for(row=nz->ptr;row!=end;++row) if(IS_SAVED(row)) {
+    *save++ = row->i, *save++ = n, *save++ = UINT_MAX;
+    *restore++ = n, *restore++ = row->i, *restore++ = UINT_MAX;
+    ++n;
+  }
+  #undef IS_SAVED
+  *save = *restore = UINT_MAX;
+  return n;
+}
+
 /*------------------------------------------------------------------------------
   Remote execution and setup
 ------------------------------------------------------------------------------*/
@@ -1160,6 +1184,8 @@ struct gs_data {
   struct comm comm;
   const uint *map_local[2]; /* 0=unflagged, 1=all */
   const uint *flagged_primaries;
+  const uint *map_saved[2]; /* to save, and restore, flagged primaries */
+  uint n_saved;
   struct gs_remote r;
   uint handle_size;
 };
@@ -1167,6 +1193,26 @@ struct gs_data {
 /*------------------------------------------------------------------------------
   GS_AUX - blocking and non-blocking
 ------------------------------------------------------------------------------*/
+static void gs_save_flagged(char *save, const void *u, gs_mode mode,
+                            unsigned vn, gs_dom dom, const struct gs_data *gsh)
+{
+  static gs_scatter_fun *const scatter_to_buf[] =
+    { &gs_scatter, &gs_scatter_vec, &gs_scatter_many_to_vec, &scatter_noop };
+  scatter_to_buf[mode](save,u,vn,gsh->map_saved[0],dom);
+}
+
+static void gs_restore_flagged(void *u, const char *save, gs_mode mode,
+                               unsigned vn, gs_dom dom,
+                               const struct gs_data *gsh)
+{
+  static gs_scatter_fun *const scatter_from_buf[] =
+    { &gs_scatter, &gs_scatter_vec, &gs_scatter_vec_to_many, &scatter_noop };
+  scatter_from_buf[mode](u,save,vn,gsh->map_saved[1],dom);
+}
+
+/* the buffer holds the saved values first, then the communication buffer */
+#define EXEC_BUF ((char*)buf->ptr+vn*gs_dom_size[dom]*gsh->n_saved)
+
 static void gs_aux(
   void *u, gs_mode mode, unsigned vn, gs_dom dom, gs_op op, unsigned transpose,
   struct gs_data *gsh, buffer *buf)
@@ -1178,11 +1224,13 @@ static void gs_aux(
   static gs_init_fun *const init[] =
     { &gs_init, &gs_init_vec, &gs_init_many, &init_noop };
   if(!buf) buf = &static_buffer;
-  buffer_reserve(buf,vn*gs_dom_size[dom]*gsh->r.buffer_size);
+  buffer_reserve(buf,vn*gs_dom_size[dom]*(gsh->r.buffer_size+gsh->n_saved));
+  if(transpose) gs_save_flagged(buf->ptr,u,mode,vn,dom,gsh);
   local_gather [mode](u,u,vn,gsh->map_local[0^transpose],dom,op);
   if(transpose==0) init[mode](u,vn,gsh->flagged_primaries,dom,op);
-  gsh->r.exec(u,mode,vn,dom,op,transpose,gsh->r.data,&gsh->comm,buf->ptr);
+  gsh->r.exec(u,mode,vn,dom,op,transpose,gsh->r.data,&gsh->comm,EXEC_BUF);
   local_scatter[mode](u,u,vn,gsh->map_local[1^transpose],dom);
+  if(transpose) gs_restore_flagged(u,buf->ptr,mode,vn,dom,gsh);
 }
 
 static void gs_aux_irecv(
@@ -1196,12 +1244,13 @@ static void gs_aux_irecv(
   static gs_init_fun *const init[] =
     { &gs_init, &gs_init_vec, &gs_init_many, &init_noop };
   if(!buf) buf = &static_buffer;
-  buffer_reserve(buf,vn*gs_dom_size[dom]*gsh->r.buffer_size);
+  buffer_reserve(buf,vn*gs_dom_size[dom]*(gsh->r.buffer_size+gsh->n_saved));
+  if(transpose) gs_save_flagged(buf->ptr,u,mode,vn,dom,gsh);
   local_gather [mode](u,u,vn,gsh->map_local[0^transpose],dom,op);
   if(transpose==0) init[mode](u,vn,gsh->flagged_primaries,dom,op);
 
   if (gsh->r.exec_irecv)
-    gsh->r.exec_irecv(u,mode,vn,dom,op,transpose,gsh->r.data,&gsh->comm,buf->ptr);
+    gsh->r.exec_irecv(u,mode,vn,dom,op,transpose,gsh->r.data,&gsh->comm,EXEC_BUF);
 }
 
 static void gs_aux_isend(
@@ -1218,7 +1267,7 @@ static void gs_aux_isend(
   if(!buf) buf = &static_buffer;
 
   if (gsh->r.exec_isend)
-    gsh->r.exec_isend(u,mode,vn,dom,op,transpose,gsh->r.data,&gsh->comm,buf->ptr);
+    gsh->r.exec_isend(u,mode,vn,dom,op,transpose,gsh->r.data,&gsh->comm,EXEC_BUF);
 }
 
 static void gs_aux_wait(
@@ -1235,11 +1284,14 @@ static void gs_aux_wait(
   if(!buf) buf = &static_buffer;
 
   if (gsh->r.exec_wait)
-    gsh->r.exec_wait(u,mode,vn,dom,op,transpose,gsh->r.data,&gsh->comm,buf->ptr);
+    gsh->r.exec_wait(u,mode,vn,dom,op,transpose,gsh->r.data,&gsh->comm,EXEC_BUF);
 
   local_scatter[mode](u,u,vn,gsh->map_local[1^transpose],dom);
+  if(transpose) gs_restore_flagged(u,buf->ptr,mode,vn,dom,gsh);
 }
 
+#undef EXEC_BUF
+
 /*------------------------------------------------------------------------------
   GS interface - blocking and non-blocking
 ------------------------------------------------------------------------------*/
@@ -1402,6 +1454,7 @@ static uint local_setup(struct gs_data *gsh, const struct array *nz)
   gsh->map_local[0] = local_map(nz,1, &mem_size);
   gsh->map_local[1] = local_map(nz,0, &mem_size);
   gsh->flagged_primaries = flagged_primaries_map(nz, &mem_size);
+  gsh->n_saved = saved_primaries_maps(gsh->map_saved,nz, &mem_size);
   return mem_size;
 }
 
@@ -1464,6 +1517,7 @@ void gs_free(struct gs_data *gsh)
   comm_free(&gsh->comm);
   free((uint*)gsh->map_local[0]), free((uint*)gsh->map_local[1]);
   free((uint*)gsh->flagged_primaries);
+  free((uint*)gsh->map_saved[0]), free((uint*)gsh->map_saved[1]);
   gsh->r.fin(gsh->r.data);
   free(gsh);
 }
-- 
2.43.0


From e4d0eb335f2c4daa51cc2ea09d20fd7ca299386d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:33 +0000
Subject: [PATCH 12/21] fix: keep the requests of nonblocking operations apart

Two operations in flight on the same handle shared one array of requests.
---
 src/gs.c | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/gs.c b/src/gs.c
index 339a8fe..257fdc6 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -403,6 +403,14 @@ static uint saved_primaries_maps(const uint *map[2], const struct array *nz,
   Remote execution and setup
 ------------------------------------------------------------------------------*/
 
+/* Requests of nonblocking operations are kept in the buffer of the operation,
+   behind the data, since several can be in flight on the same handle. */
+static comm_req *buffer_reqs(char *buf, size_t data_size)
+{
+  const size_t a = sizeof(comm_req);
+  return (comm_req*)(buf + data_size + (a-1)-((size_t)buf+data_size+a-1)%a);
+}
+
 typedef void exec_fun(
   void *data, gs_mode mode, unsigned vn, gs_dom dom, gs_op op,
   unsigned transpose, const void *execdata, const struct comm *comm, char *buf);
@@ -410,6 +418,7 @@ typedef void fin_fun(void *data);
 
 struct gs_remote {
   uint buffer_size, mem_size;
+  uint n_req; /* requests needed by a nonblocking operation */
   void *data;
   exec_fun *exec;
   exec_fun *exec_irecv;
@@ -504,7 +513,8 @@ static void pw_exec_irecv(
   const unsigned recv = 0^transpose, send = 1^transpose;
   unsigned unit_size = vn*gs_dom_size[dom];
   /* post receives */
-  char *sendbuf = pw_exec_recvs(buf,unit_size,comm,&pwd->comm[recv],pwd->req);
+  pw_exec_recvs(buf,unit_size,comm,&pwd->comm[recv],
+                buffer_reqs(buf,unit_size*pwd->buffer_size));
 }
 
 static void pw_exec_isend(
@@ -524,7 +534,8 @@ static void pw_exec_isend(
   scatter_to_buf[mode](sendbuf,data,vn,pwd->map[send],dom);
   /* post sends */
   pw_exec_sends(sendbuf,unit_size,comm,&pwd->comm[send],
-                &pwd->req[pwd->comm[recv].n]);
+                buffer_reqs(buf,unit_size*pwd->buffer_size)
+                  +pwd->comm[recv].n);
 }
 
 static void pw_exec_wait(
@@ -539,7 +550,8 @@ static void pw_exec_wait(
   const unsigned recv = 0^transpose, send = 1^transpose;
   unsigned unit_size = vn*gs_dom_size[dom];
 
-  comm_wait(pwd->req,pwd->comm[0].n+pwd->comm[1].n);
+  comm_wait(buffer_reqs(buf,unit_size*pwd->buffer_size),
+            pwd->comm[0].n+pwd->comm[1].n);
   /* gather using recv buffer */
   gather_from_buf[mode](data,buf,vn,pwd->map[recv],dom,op);
 }
@@ -642,6 +654,7 @@ static void pw_setup(struct gs_remote *r, struct gs_topology *top,
 {
   struct pw_data *pwd = pw_setup_aux(&top->sh,buf, &r->mem_size);
   r->buffer_size = pwd->buffer_size;
+  r->n_req = pwd->comm[0].n+pwd->comm[1].n;
   r->data = pwd;
   r->exec = (exec_fun*)&pw_exec;
   r->exec_irecv = (exec_fun*)&pw_exec_irecv;
@@ -960,6 +973,7 @@ static void cr_setup(struct gs_remote *r, struct gs_topology *top,
 {
   struct cr_data *crd = cr_setup_aux(&top->sh,comm,buf, &r->mem_size);
   r->buffer_size = crd->buffer_size;
+  r->n_req = 0;
   r->data = crd;
   r->exec = (exec_fun*)&cr_exec;
   /* no split-phase version: the whole exchange happens when it is started */
@@ -975,7 +989,6 @@ static void cr_setup(struct gs_remote *r, struct gs_topology *top,
 struct allreduce_data {
   const uint *map_to_buf[2], *map_from_buf[2];
   uint buffer_size;
-  comm_req *req;
 };
 
 static void allreduce_exec(
@@ -1020,7 +1033,7 @@ static void allreduce_exec_i(
   gs_init_array(buf,gvn,dom,op);
   scatter_to_buf[mode](buf,data,vn,ard->map_to_buf[transpose],dom);
   /* all reduce */
-  comm_iallreduce(ard->req,comm,dom,op,buf,gvn,ardbuf);
+  comm_iallreduce(buffer_reqs(buf,2*unit_size*gvn),comm,dom,op,buf,gvn,ardbuf);
 }
 
 static void allreduce_exec_wait(
@@ -1036,7 +1049,7 @@ static void allreduce_exec_wait(
   unsigned unit_size = gs_dom_size[dom];
   char *ardbuf = buf+unit_size*gvn;
 
-  comm_wait(ard->req, 1);
+  comm_wait(buffer_reqs(buf,2*unit_size*gvn), 1);
 #ifdef GSLIB_USE_MPI
   memcpy(buf,ardbuf,gvn*gs_dom_size[dom]);
 #endif
@@ -1082,8 +1095,6 @@ static struct allreduce_data *allreduce_setup_aux(
   ard->map_to_buf  [1] = allreduce_map_setup(pr,0,1, mem_size);
   ard->map_from_buf[1] = allreduce_map_setup(pr,1,0, mem_size);
 
-  ard->req = tmalloc(comm_req, 1);
-
   ard->buffer_size = total_shared*2;
   return ard;
 }
@@ -1094,7 +1105,6 @@ static void allreduce_free(struct allreduce_data *ard)
   free((uint*)ard->map_to_buf[1]);
   free((uint*)ard->map_from_buf[0]);
   free((uint*)ard->map_from_buf[1]);
-  free(ard->req);
   free(ard);
 }
 
@@ -1104,6 +1114,7 @@ static void allreduce_setup(struct gs_remote *r, struct gs_topology *top,
   struct allreduce_data *ard
     = allreduce_setup_aux(&top->pr,top->total_shared, &r->mem_size);
   r->buffer_size = ard->buffer_size;
+  r->n_req = 1;
   r->data = ard;
   r->exec = (exec_fun*)&allreduce_exec;
   r->exec_irecv = (exec_fun*)&allreduce_exec_i;
@@ -1244,7 +1255,8 @@ static void gs_aux_irecv(
   static gs_init_fun *const init[] =
     { &gs_init, &gs_init_vec, &gs_init_many, &init_noop };
   if(!buf) buf = &static_buffer;
-  buffer_reserve(buf,vn*gs_dom_size[dom]*(gsh->r.buffer_size+gsh->n_saved));
+  buffer_reserve(buf,vn*gs_dom_size[dom]*(gsh->r.buffer_size+gsh->n_saved)
+                     +(gsh->r.n_req+1)*sizeof(comm_req));
   if(transpose) gs_save_flagged(buf->ptr,u,mode,vn,dom,gsh);
   local_gather [mode](u,u,vn,gsh->map_local[0^transpose],dom,op);
   if(transpose==0) init[mode](u,vn,gsh->flagged_primaries,dom,op);
-- 
2.43.0


From 1319dfeca2bd696995b6a3db1941ab9a5662a879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:42 +0000
Subject: [PATCH 13/21] fix: do not call MPI in builds without it

---
 src/crystal.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crystal.c b/src/crystal.c
index d7eab1f..6195fd6 100644
--- a/src/crystal.c
+++ b/src/crystal.c
@@ -141,7 +141,10 @@ void crystal_router(struct crystal *p)
       fprintf(stderr, "Error in crystal_router: rank = %d send_n = %lld (> "
         "INT_MAX)\n", p->comm.id, send_n_long);
       fflush(stderr);
+#ifdef GSLIB_USE_MPI
       MPI_Abort(p->comm.c, EXIT_FAILURE);
+#endif
+      die(EXIT_FAILURE);
     }
 
     recvn = 1, targ = n-1-(id-bl)+bl;
-- 
2.43.0


From 680f8f3e3b1c1a9b9c4f314372ea235243b550ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:59 +0000
Subject: [PATCH 14/21] fix: relax constraints by their side in the
 trust-region step of the element search

A point starting on a constraint has a zero step in that direction, so the sign
test never relaxed it and the search converged to a corner that is not closest.
---
 src/findpts_el_2.c | 16 +++++++++++-----
 src/findpts_el_3.c | 16 +++++++++++-----
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/findpts_el_2.c b/src/findpts_el_2.c
index aad9aad..576a18a 100644
--- a/src/findpts_el_2.c
+++ b/src/findpts_el_2.c
@@ -348,8 +348,8 @@ static void newton_area(struct findpts_el_pt_2 *const out,
   const double tr = p->tr;
   double bnd[4] = { -1,1, -1,1 };
   double r0[2];
-  double dr[2], fac;
-  unsigned d, mask, flags;
+  double dr[2], fac, newt, step=0;
+  unsigned d, mask, flags, nrelax=0;
   
   r0[0] = p->r[0], r0[1] = p->r[1];
   
@@ -370,6 +370,7 @@ static void newton_area(struct findpts_el_pt_2 *const out,
   }
   
   lin_solve_2(dr, jac,resid);
+  newt = fabs(dr[0])+fabs(dr[1]);
 
 #ifdef DIAGNOSTICS_1
   printf("  min at r = (%.17g,%.17g)\n", r0[0]+dr[0],r0[1]+dr[1]);
@@ -455,7 +456,10 @@ static void newton_area(struct findpts_el_pt_2 *const out,
     for(d=0;d<2;++d) {
       unsigned c = flags>>(2*d) & 3u;
       if(c==0) continue;
-      else if(dr[d]*y[d]<0) flags &= ~(3u<<(2*d));
+      /* relax one constraint when the objective decreases inwards
+         (the sign of dr[d] can't tell: it is 0 when p is on the constraint) */
+      else if(flags==old_flags && (c==1 ? y[d]>0 : y[d]<0))
+        flags &= ~(3u<<(2*d));
 #ifdef DIAGNOSTICS_1
       if( (c==1&&dr[d]>0) || (c==2&&dr[d]<0) )
         printf("FAIL! c=%u, dr[d]=%g\n",c,dr[d]);
@@ -469,9 +473,10 @@ static void newton_area(struct findpts_el_pt_2 *const out,
     printf("    relaxed %x -> %x\n",old_flags,flags);
 #endif
     if(flags==old_flags) goto newton_area_fin;
-    switch(num_constrained(flags)) {
+    if(++nrelax<=4*2) switch(num_constrained(flags)) {
       case 1: goto newton_area_edge;
     }
+    step = newt; /* not the minimum within the constraints yet */
   }
 
 newton_area_fin:
@@ -485,7 +490,8 @@ newton_area_fin:
   }
 #endif
   flags &= mask;
-  if(fabs(dr[0])+fabs(dr[1]) < tol) flags |= CONVERGED_FLAG;
+  if(step < tol && fabs(dr[0])+fabs(dr[1]) < tol)
+    flags |= CONVERGED_FLAG;
   {
     const double res0 = resid[0]-(jac[0]*dr[0]+jac[1]*dr[1]),
                  res1 = resid[1]-(jac[2]*dr[0]+jac[3]*dr[1]);
diff --git a/src/findpts_el_3.c b/src/findpts_el_3.c
index 62561ff..285ce0a 100644
--- a/src/findpts_el_3.c
+++ b/src/findpts_el_3.c
@@ -538,8 +538,8 @@ static void newton_vol(struct findpts_el_pt_3 *const out,
   const double tr = p->tr;
   double bnd[6] = { -1,1, -1,1, -1,1 };
   double r0[3];
-  double dr[3], fac;
-  unsigned d, mask, flags;
+  double dr[3], fac, newt, step=0;
+  unsigned d, mask, flags, nrelax=0;
   r0[0]=p->r[0],r0[1]=p->r[1],r0[2]=p->r[2];
 #ifdef DIAGNOSTICS_1
   printf("newton_vol:\n");
@@ -559,6 +559,7 @@ static void newton_vol(struct findpts_el_pt_3 *const out,
   }
 
   lin_solve_3(dr, jac,resid);
+  newt = fabs(dr[0])+fabs(dr[1])+fabs(dr[2]);
 
 #ifdef DIAGNOSTICS_1
   printf("  min at r = (%.17g,%.17g,%.17g)\n",
@@ -693,7 +694,10 @@ static void newton_vol(struct findpts_el_pt_3 *const out,
     for(d=0;d<3;++d) {
       unsigned c = flags>>(2*d) & 3u;
       if(c==0) continue;
-      else if(dr[d]*y[d]<0) flags &= ~(3u<<(2*d));
+      /* relax one constraint when the objective decreases inwards
+         (the sign of dr[d] can't tell: it is 0 when p is on the constraint) */
+      else if(flags==old_flags && (c==1 ? y[d]>0 : y[d]<0))
+        flags &= ~(3u<<(2*d));
 #ifdef DIAGNOSTICS_1
       if( (c==1&&dr[d]>0) || (c==2&&dr[d]<0) )
         printf("FAIL! c=%u, dr[d]=%g\n",c,dr[d]);
@@ -707,10 +711,11 @@ static void newton_vol(struct findpts_el_pt_3 *const out,
     printf("    relaxed %x -> %x\n",old_flags,flags);
 #endif
     if(flags==old_flags) goto newton_vol_fin;
-    switch(num_constrained(flags)) {
+    if(++nrelax<=4*3) switch(num_constrained(flags)) {
       case 1: goto newton_vol_face;
       case 2: goto newton_vol_edge;
     }
+    step = newt; /* not the minimum within the constraints yet */
   }
 
 newton_vol_fin:
@@ -725,7 +730,8 @@ newton_vol_fin:
   }
 #endif
   flags &= mask;
-  if(fabs(dr[0])+fabs(dr[1])+fabs(dr[2]) < tol) flags |= CONVERGED_FLAG;
+  if(step < tol && fabs(dr[0])+fabs(dr[1])+fabs(dr[2]) < tol)
+    flags |= CONVERGED_FLAG;
   {
     const double res0 = resid[0]-(jac[0]*dr[0]+jac[1]*dr[1]+jac[2]*dr[2]),
                  res1 = resid[1]-(jac[3]*dr[0]+jac[4]*dr[1]+jac[5]*dr[2]),
-- 
2.43.0


From c8d7a1b55d0f0b57b1412fe8d1c3c20f2894b1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:20 +0000
Subject: [PATCH 15/21] fix: clamp the hash cell of a point before converting
 it to an integer

---
 src/findpts.c       | 4 ++--
 src/findpts_local.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/findpts.c b/src/findpts.c
index c708fda..2bf88d8 100644
--- a/src/findpts.c
+++ b/src/findpts.c
@@ -37,8 +37,8 @@ static slong lceil (double x) { return ceil (x); }
 
 static ulong hash_index_aux(double low, double fac, ulong n, double x)
 {
-  const slong i = lfloor((x-low)*fac);
-  return i<0 ? 0 : (n-1<(ulong)i ? n-1 : (ulong)i);
+  const double i = (x-low)*fac; /* may be out of range of slong */
+  return i>0 ? (i<n-1 ? (ulong)i : n-1) : 0;
 }
 
 static void set_bit(unsigned char *const p, const uint i)
diff --git a/src/findpts_local.c b/src/findpts_local.c
index ea80960..bd5aef4 100644
--- a/src/findpts_local.c
+++ b/src/findpts_local.c
@@ -31,8 +31,8 @@ static sint iceil (double x) { return ceil (x); }
 
 static uint hash_index_aux(double low, double fac, uint n, double x)
 {
-  const sint i = ifloor((x-low)*fac);
-  return i<0 ? 0 : (n-1<(uint)i ? n-1 : (uint)i);
+  const double i = (x-low)*fac; /* may be out of range of sint */
+  return i>0 ? (i<n-1 ? (uint)i : n-1) : 0;
 }
 
 #define CODE_INTERNAL 0
-- 
2.43.0


From b714479d4c3449b43a436abab2ed069460408275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:20 +0000
Subject: [PATCH 16/21] fix: do not divide by the zero width of an empty mesh

---
 src/findpts_imp.h       | 5 ++++-
 src/findpts_local_imp.h | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/findpts_imp.h b/src/findpts_imp.h
index 8c08479..6120139 100644
--- a/src/findpts_imp.h
+++ b/src/findpts_imp.h
@@ -59,7 +59,10 @@ static void hash_setfac(struct hash_data *p, const ulong n)
 {
   unsigned d;
   p->hash_n = n;
-  for(d=0;d<D;++d) p->fac[d] = n/(p->bnd[d].max-p->bnd[d].min);
+  for(d=0;d<D;++d) { /* no width when there are no elements */
+    const double w = p->bnd[d].max-p->bnd[d].min;
+    p->fac[d] = w>0 ? n/w : 0;
+  }
 }
 
 static struct ulong_range hash_range(const struct hash_data *p, unsigned d,
diff --git a/src/findpts_local_imp.h b/src/findpts_local_imp.h
index 25cf8b0..8b2289c 100644
--- a/src/findpts_local_imp.h
+++ b/src/findpts_local_imp.h
@@ -83,7 +83,10 @@ static void hash_setfac(struct hash_data *p, const uint n)
 {
   unsigned d;
   p->hash_n = n;
-  for(d=0;d<D;++d) p->fac[d] = n/(p->bnd[d].max-p->bnd[d].min);
+  for(d=0;d<D;++d) { /* no width when there are no elements */
+    const double w = p->bnd[d].max-p->bnd[d].min;
+    p->fac[d] = w>0 ? n/w : 0;
+  }
 }
 
 static struct uint_range hash_range(const struct hash_data *p, unsigned d,
-- 
2.43.0


From 81f3ed3bbc010b8a41cff3a039aba8dbdbc63606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:11 +0000
Subject: [PATCH 17/21] fix: evaluate at the points given when they differ from
 the previous call's

---
 src/findpts_imp.h | 45 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/findpts_imp.h b/src/findpts_imp.h
index 6120139..53a130c 100644
--- a/src/findpts_imp.h
+++ b/src/findpts_imp.h
@@ -39,6 +39,7 @@
 #define findpts               GS_TOKEN_PASTE(GS_PREFIXED_NAME(findpts_      ),D)
 #define findpts_eval          GS_TOKEN_PASTE(GS_PREFIXED_NAME(findpts_eval_ ),D)
 #define setup_fev_aux         GS_TOKEN_PASTE(setup_fev_aux_,D)
+#define fev_same_points       GS_TOKEN_PASTE(fev_same_points_,D)
 
 struct hash_data {
   ulong hash_n;
@@ -220,7 +221,7 @@ struct findpts_data {
   struct crystal cr;
   struct findpts_local_data local;
   struct hash_data hash;
-  struct array savpt;
+  struct array savpt, usrpt;
   struct findpts_dummy_ms_data fdms;
   uint   fevsetup;
 };
@@ -264,7 +265,7 @@ void findptsms_free(struct findpts_data *fd)
   hash_free(&fd->hash);
   findptsms_local_free(&fd->local);
   crystal_free(&fd->cr);
-  if (fd->fevsetup==1) array_free(&fd->savpt);
+  if (fd->fevsetup==1) array_free(&fd->savpt), array_free(&fd->usrpt);
   free(fd);
 }
 
@@ -282,7 +283,7 @@ void findptsms(        uint   *const        code_base, const unsigned       code
                        struct findpts_data *const fd)
 {
   if (fd->fevsetup==1) {
-    array_free(&fd->savpt);
+    array_free(&fd->savpt), array_free(&fd->usrpt);
     fd->fevsetup=0;
   }
   const uint np = fd->cr.comm.np, id=fd->cr.comm.id;
@@ -531,6 +532,21 @@ void findptsms(        uint   *const        code_base, const unsigned       code
 struct eval_src_pt { double r[D]; uint index, proc, el; };
 struct eval_out_pt { double out; uint index, proc; };
 
+static int fev_same_points(const struct array *const a,
+                           const struct array *const b)
+{
+  const struct eval_src_pt *p=a->ptr, *q=b->ptr;
+  uint n=a->n;
+  if(n!=b->n) return 0;
+  for(;n;--n,++p,++q) {
+    unsigned d;
+    for(d=0;d<D;++d) if(p->r[d]!=q->r[d]) return 0;
+    if(p->index!=q->index || p->proc!=q->proc || p->el!=q->el) return 0;
+  }
+  return 1;
+}
+
+/* no-op when called again, on all processes, with the same points */
 static void setup_fev_aux(
   const uint   *const code_base, const unsigned code_stride,
   const uint   *const proc_base, const unsigned proc_stride,
@@ -561,6 +577,14 @@ static void setup_fev_aux(
       el   = (const   uint*)((const char*)el  +  el_stride);
     }
     src.n = pt - (struct eval_src_pt*)src.ptr;
+    if(fd->fevsetup==1) {
+      sint buf, differ = !fev_same_points(&src,&fd->usrpt);
+      comm_allreduce(&fd->cr.comm,gs_sint,gs_max,&differ,1,&buf);
+      if(!differ) { array_free(&src); return; }
+      array_free(&fd->savpt), array_free(&fd->usrpt);
+    }
+    array_init(struct eval_src_pt, &fd->usrpt, src.n), fd->usrpt.n=src.n;
+    if(src.n) memcpy(fd->usrpt.ptr,src.ptr,src.n*sizeof(struct eval_src_pt));
     sarray_transfer(struct eval_src_pt,&src,proc,1,&fd->cr);
   }
   /* setup space for source points*/
@@ -592,14 +616,12 @@ void findptsms_eval(
   const uint npt,
   const double *const in, struct findpts_data *const fd)
 { 
-  if (fd->fevsetup==0) {
-    setup_fev_aux(code_base,code_stride,
-                  proc_base,proc_stride,
-                    el_base,  el_stride,
-                     r_base,   r_stride,
-                        npt,         fd);
-    fd->fevsetup=1;
-  }
+  setup_fev_aux(code_base,code_stride,
+                proc_base,proc_stride,
+                  el_base,  el_stride,
+                   r_base,   r_stride,
+                      npt,         fd);
+  fd->fevsetup=1;
   struct array outpt;
   /* evaluate points, send back */
   { 
@@ -706,6 +728,7 @@ void findpts_eval(
 #undef findpts_setup
 #undef setup_aux
 #undef setup_fev_aux
+#undef fev_same_points
 #undef eval_out_pt
 #undef eval_src_pt
 #undef out_pt
-- 
2.43.0


From 8375a362dc37aab91a9cf68ab20609a1e8440608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:22 +0000
Subject: [PATCH 18/21] fix: free or avoid the placeholders of single-session
 searches

---
 src/findpts.c           | 10 ++--------
 src/findpts_local_imp.h | 21 ++++++++-------------
 2 files changed, 10 insertions(+), 21 deletions(-)

diff --git a/src/findpts.c b/src/findpts.c
index 2bf88d8..98d2929 100644
--- a/src/findpts.c
+++ b/src/findpts.c
@@ -327,12 +327,8 @@ void ffindpts_setup(sint *const handle,
     comm_init_check(&fd->cr.comm, *comm, *np);
     buffer_init(&fd->cr.data,1000);
     buffer_init(&fd->cr.work,1000);
-    unsigned int *nsid = tmalloc(uint,1);
-    double *distfint = tmalloc(double,1);
-    *nsid = 0;
-    *distfint = 0;
     setupms_aux_2(fd, elx,n,*nel,m,*bbox_tol,
-                *loc_hash_size,*gbl_hash_size, *npt_max, *newt_tol, nsid, distfint,ims);
+                *loc_hash_size,*gbl_hash_size, *npt_max, *newt_tol, 0, 0, ims);
   } else if(h->ndim==3) {
     struct findpts_data_3 *const fd = tmalloc(struct findpts_data_3,1);
     const double *elx[3];
@@ -344,10 +340,8 @@ void ffindpts_setup(sint *const handle,
     comm_init_check(&fd->cr.comm, *comm, *np);
     buffer_init(&fd->cr.data,1000);
     buffer_init(&fd->cr.work,1000);
-    const uint *nsid;
-    const double *distfint;
     setupms_aux_3(fd, elx,n,*nel,m,*bbox_tol,
-                *loc_hash_size,*gbl_hash_size, *npt_max, *newt_tol, nsid, distfint,ims);
+                *loc_hash_size,*gbl_hash_size, *npt_max, *newt_tol, 0, 0, ims);
   } else
     fail(1,__FILE__,__LINE__,
          "findpts_setup: ndim must be 2 or 3; given ndim=%u",(unsigned)h->ndim);
diff --git a/src/findpts_local_imp.h b/src/findpts_local_imp.h
index 8b2289c..f0b29b2 100644
--- a/src/findpts_local_imp.h
+++ b/src/findpts_local_imp.h
@@ -436,15 +436,10 @@ void findpts_local(
   const uint npt, struct findpts_local_data *const fd,
   buffer *buf)
 {
-    unsigned int *sess_base = tmalloc(uint,1);
-    double *disti_base = tmalloc(double,1);
-    unsigned int *elsid_base = tmalloc(uint,1);
-    unsigned int *sess_match = tmalloc(uint,1);
-    *sess_base = 0;
-    *sess_match = 0;
-    *disti_base = 0;
-    *elsid_base = 0;
-    
+    uint sess_base = 0;
+    double disti_base = 0;
+    uint elsid_base = 0;
+    uint sess_match = 0;
 
     unsigned sess_stride=0;
     unsigned disti_stride=0;
@@ -455,10 +450,10 @@ void findpts_local(
             r_base,    r_stride,
         dist2_base,dist2_stride,
             x_base,    x_stride,
-         sess_base, sess_stride,
-        disti_base,disti_stride,
-        elsid_base,elsid_stride,
-        sess_match,npt,fd,buf);
+         &sess_base, sess_stride,
+        &disti_base,disti_stride,
+        &elsid_base,elsid_stride,
+        &sess_match,npt,fd,buf);
 }
 
 /* assumes points are already grouped by elements */
-- 
2.43.0


From 93aa4d37a2971490fff026ef766f905a76812408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:21 +0000
Subject: [PATCH 19/21] fix: comm_split sets id and np of the result without
 MPI, too

---
 src/comm.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/comm.h b/src/comm.h
index 72a54fe..a140010 100644
--- a/src/comm.h
+++ b/src/comm.h
@@ -191,6 +191,7 @@ static void comm_split_(const struct comm *s, int bin, int key, struct comm *d,
   MPI_Comm_free(&nc);
 #else
   if(s->np!=1) fail(1,file,line,"%s not compiled with -DMPI\n",file);
+  comm_init(d,0);
 #endif
 }
 #define comm_split(s, bin, key, d) comm_split_(s, bin, key, d, __FILE__, __LINE__)
-- 
2.43.0


From c376193c25a107ceac6eea49a34185f7a9be3d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:37 +0000
Subject: [PATCH 20/21] fix: findpts: consistent integer types, so that
 GSLIB_USE_LONG(_LONG) works

---
 src/findpts.c           | 8 ++++----
 src/findpts_imp.h       | 6 +++---
 src/findpts_local.h     | 8 ++++----
 src/findpts_local_imp.h | 6 +++---
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/findpts.c b/src/findpts.c
index 98d2929..6fd1c36 100644
--- a/src/findpts.c
+++ b/src/findpts.c
@@ -268,7 +268,7 @@ void ffindptsms_setup(sint *const handle,
   if(h->ndim==2) {
     struct findpts_data_2 *const fd = tmalloc(struct findpts_data_2,1);
     const double *elx[2];
-    uint n[2], m[2];
+    unsigned n[2], m[2];
     elx[0]=xm,elx[1]=ym;
     n[0]=*nr,n[1]=*ns;
     m[0]=*mr,m[1]=*ms;
@@ -281,7 +281,7 @@ void ffindptsms_setup(sint *const handle,
   } else if(h->ndim==3) {
     struct findpts_data_3 *const fd = tmalloc(struct findpts_data_3,1);
     const double *elx[3];
-    uint n[3], m[3];
+    unsigned n[3], m[3];
     elx[0]=xm,elx[1]=ym,elx[2]=zm;
     n[0]=*nr,n[1]=*ns,n[2]=*nt;
     m[0]=*mr,m[1]=*ms,m[2]=*mt;
@@ -319,7 +319,7 @@ void ffindpts_setup(sint *const handle,
   if(h->ndim==2) {
     struct findpts_data_2 *const fd = tmalloc(struct findpts_data_2,1);
     const double *elx[2];
-    uint n[2], m[2];
+    unsigned n[2], m[2];
     elx[0]=xm,elx[1]=ym;
     n[0]=*nr,n[1]=*ns;
     m[0]=*mr,m[1]=*ms;
@@ -332,7 +332,7 @@ void ffindpts_setup(sint *const handle,
   } else if(h->ndim==3) {
     struct findpts_data_3 *const fd = tmalloc(struct findpts_data_3,1);
     const double *elx[3];
-    uint n[3], m[3];
+    unsigned n[3], m[3];
     elx[0]=xm,elx[1]=ym,elx[2]=zm;
     n[0]=*nr,n[1]=*ns,n[2]=*nt;
     m[0]=*mr,m[1]=*ms,m[2]=*mt;
diff --git a/src/findpts_imp.h b/src/findpts_imp.h
index 53a130c..c6f3a39 100644
--- a/src/findpts_imp.h
+++ b/src/findpts_imp.h
@@ -213,7 +213,7 @@ static void hash_build(struct hash_data *const p,
 static void hash_free(struct hash_data *p) { free(p->offset); }
 
 struct findpts_dummy_ms_data {
-    unsigned int *nsid;
+    uint *nsid;
     double       *distfint;
 };
 
@@ -686,8 +686,8 @@ void findpts(      uint   *const  code_base   , const unsigned  code_stride   ,
        printf("Please use findptsms\n");
        die(1);
     }
-    unsigned int sess_base = 0;
-    unsigned int sess_match = 0;
+    uint sess_base = 0;
+    uint sess_match = 0;
     unsigned sess_stride = 0;
 
     findptsms( code_base, code_stride,
diff --git a/src/findpts_local.h b/src/findpts_local.h
index 30be675..dcbfc17 100644
--- a/src/findpts_local.h
+++ b/src/findpts_local.h
@@ -26,7 +26,7 @@ struct findpts_local_hash_data_2 {
 struct findpts_local_data_2 {
   unsigned ntot;
   const double *elx[2];
-  const unsigned *nsid;
+  const uint *nsid;
   struct obbox_2 *obb;
   struct findpts_local_hash_data_2 hd;
   struct findpts_el_data_2 fed;
@@ -38,7 +38,7 @@ struct findpts_local_data_2 {
 
 void findptsms_local_setup_2(struct findpts_local_data_2 *const fd,
                            const double *const elx[2],
-                           const unsigned *const nsid,
+                           const uint *const nsid,
                            const double *const distfint,
                            const unsigned n[2], const uint nel,
                            const unsigned m[2], const double bbox_tol,
@@ -105,7 +105,7 @@ struct findpts_local_hash_data_3 {
 struct findpts_local_data_3 {
   unsigned ntot;
   const double *elx[3];
-  const unsigned *nsid;
+  const uint *nsid;
   struct obbox_3 *obb;
   struct findpts_local_hash_data_3 hd;
   struct findpts_el_data_3 fed;
@@ -117,7 +117,7 @@ struct findpts_local_data_3 {
 
 void findptsms_local_setup_3(struct findpts_local_data_3 *const fd,
                            const double *const elx[3],
-                           const unsigned *const nsid,
+                           const uint *const nsid,
                            const double *const distfint,
                            const unsigned n[3], const uint nel,
                            const unsigned m[3], const double bbox_tol,
diff --git a/src/findpts_local_imp.h b/src/findpts_local_imp.h
index f0b29b2..86ac013 100644
--- a/src/findpts_local_imp.h
+++ b/src/findpts_local_imp.h
@@ -203,7 +203,7 @@ static void hash_free(struct hash_data *p) { free(p->offset); }
 struct findpts_local_data {
   unsigned ntot;
   const double *elx[D];
-  const unsigned *nsid;
+  const uint *nsid;
   struct obbox *obb;
   struct hash_data hd;
   struct findpts_el_data fed;
@@ -215,7 +215,7 @@ struct findpts_local_data {
 
 void findptsms_local_setup(struct findpts_local_data *const fd,
                          const double *const elx[D],
-                         const unsigned *const nsid,
+                         const uint *const nsid,
                          const double *const distfint,
                          const unsigned n[D], const uint nel,
                          const unsigned m[D], const double bbox_tol,
@@ -410,7 +410,7 @@ void findpts_local_setup(struct findpts_local_data *const fd,
                          const unsigned npt_max, const double newt_tol)
 {
   uint ims=0;
-  unsigned int nsid = 0;
+  uint nsid = 0;
   double distfint = 0.;
   findptsms_local_setup(fd,
                         elx,
-- 
2.43.0


From cb36ded941ac377feda73c50e399701d5076c40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:57 +0000
Subject: [PATCH 21/21] fix: gs_vec with no components does nothing

---
 src/gs_local.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gs_local.c b/src/gs_local.c
index fa758c9..500c143 100644
--- a/src/gs_local.c
+++ b/src/gs_local.c
@@ -235,6 +235,7 @@ void gs_init(void *out, const unsigned vn, const uint *map,
 void gs_gather_vec(void *out, const void *in, const unsigned vn,
                    const uint *map, gs_dom dom, gs_op op)
 {
+  if(vn==0) return;
 #define WITH_OP(T,OP) gather_vec_##T##_##OP(out,in,vn,map)
 #define WITH_DOMAIN(T) SWITCH_OP(T,op)
   SWITCH_DOMAIN(dom);
@@ -245,6 +246,7 @@ void gs_gather_vec(void *out, const void *in, const unsigned vn,
 void gs_init_vec(void *out, const unsigned vn, const uint *map,
                  gs_dom dom, gs_op op)
 {
+  if(vn==0) return;
 #define WITH_DOMAIN(T) init_vec_##T(out,vn,map,op)
   SWITCH_DOMAIN(dom);
 #undef  WITH_DOMAIN
-- 
2.43.0

