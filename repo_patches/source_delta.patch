From eb08782e14131651e6b2fc04bd6ff50ea997c95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:10 +0000
Subject: [PATCH 01/21] fix: gs_setup(unique): keep the group primary first in
 the local map

make_topology_unique re-sorted the ids by primary only, so a flagged id with a
smaller index than its group's primary came first, and local_map then treated
that flagged entry as the one to combine and exchange.
---
 src/gs.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gs.c b/src/gs.c
index e3a7b70..f9e3a08 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -275,7 +275,9 @@ static void make_topology_unique(struct gs_topology *top, slong *id,
     for(p=nz->ptr,e=p+nz->n;p!=e;++p)
       if(p->i != p->primary) p->flag=1;
   }
-  sarray_sort(struct nonzero_id,nz->ptr,nz->n, primary,0, buf);
+  /* restore the order local_map relies on: the primary (at this point the only
+     entry of its group that can be unflagged) comes first */
+  sarray_sort_2(struct nonzero_id,nz->ptr,nz->n, primary,0, flag,0, buf);
 
   /* assign owner among shared primaries */
 
-- 
2.43.0


From 7c7dc3f7aa75b488a458a33420bfaade49deb483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 02/21] fix: give every nonblocking operation without a buffer
 its own work space

All outstanding igs operations started with a NULL buffer (every igs_op* call
of the Fortran interface) shared one static buffer, which a second operation,
blocking or not, overwrote or reallocated before gs_wait.
---
 src/gs.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/gs.c b/src/gs.c
index f9e3a08..9fdd433 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1249,7 +1249,7 @@ struct nonblocking_private {
   gs_op op;
   unsigned transpose;
   struct gs_data *gsh;
-  buffer *buf;
+  buffer *buf, own_buf; /* own_buf: work space when the caller gave none */
   unsigned vn;
 };
 
@@ -1279,6 +1279,8 @@ void igs(void *u, gs_dom dom, gs_op op, unsigned transpose,
   nblkng_dict[nblkng_n]->op = op;
   nblkng_dict[nblkng_n]->transpose = transpose;
   nblkng_dict[nblkng_n]->gsh = gsh;
+  buffer_init(&nblkng_dict[nblkng_n]->own_buf,0);
+  if(!buf) buf = &nblkng_dict[nblkng_n]->own_buf;
   nblkng_dict[nblkng_n]->buf = buf;
   nblkng_dict[nblkng_n]->mode = mode_plain;
   nblkng_dict[nblkng_n]->vn = 1;
@@ -1301,6 +1303,7 @@ void gs_wait(int handle)
 	        nblkng_dict[handle]->transpose,
 	        nblkng_dict[handle]->gsh,
 	        nblkng_dict[handle]->buf);
+    buffer_free(&nblkng_dict[handle]->own_buf);
     free(nblkng_dict[handle]);
     nblkng_dict[handle] = 0;
     nblkng_count--;
@@ -1335,6 +1338,8 @@ void igs_vec(void *u, unsigned vn, gs_dom dom, gs_op op,
   nblkng_dict[nblkng_n]->op = op;
   nblkng_dict[nblkng_n]->transpose = transpose;
   nblkng_dict[nblkng_n]->gsh = gsh;
+  buffer_init(&nblkng_dict[nblkng_n]->own_buf,0);
+  if(!buf) buf = &nblkng_dict[nblkng_n]->own_buf;
   nblkng_dict[nblkng_n]->buf = buf;
   nblkng_dict[nblkng_n]->vn = vn;
   nblkng_dict[nblkng_n]->mode = mode_vec;
@@ -1367,6 +1372,8 @@ void igs_many(void *const*u, unsigned vn, gs_dom dom, gs_op op,
   nblkng_dict[nblkng_n]->op = op;
   nblkng_dict[nblkng_n]->transpose = transpose;
   nblkng_dict[nblkng_n]->gsh = gsh;
+  buffer_init(&nblkng_dict[nblkng_n]->own_buf,0);
+  if(!buf) buf = &nblkng_dict[nblkng_n]->own_buf;
   nblkng_dict[nblkng_n]->buf = buf;
   nblkng_dict[nblkng_n]->vn = vn;
   nblkng_dict[nblkng_n]->mode = mode_many;
-- 
2.43.0


From 8494f628bbfe7fff8defe99cc88b04b38dc49b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 03/21] fix: igs_many: copy the list of arrays

figs_many passes a list on its stack, which gs_wait reads after it is gone.
---
 src/gs.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gs.c b/src/gs.c
index 9fdd433..77331e5 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1303,6 +1303,7 @@ void gs_wait(int handle)
 	        nblkng_dict[handle]->transpose,
 	        nblkng_dict[handle]->gsh,
 	        nblkng_dict[handle]->buf);
+    if(nblkng_dict[handle]->mode==mode_many) free(nblkng_dict[handle]->u);
     buffer_free(&nblkng_dict[handle]->own_buf);
     free(nblkng_dict[handle]);
     nblkng_dict[handle] = 0;
@@ -1367,7 +1368,9 @@ void igs_many(void *const*u, unsigned vn, gs_dom dom, gs_op op,
 
   nblkng_dict[nblkng_n] = tmalloc(struct nonblocking_private, 1);
 
-  nblkng_dict[nblkng_n]->u = (void *)u;
+  /* keep our own copy of the list: the caller's may be gone before gs_wait */
+  nblkng_dict[nblkng_n]->u = tmalloc(void*,vn);
+  if(vn) memcpy(nblkng_dict[nblkng_n]->u,u,vn*sizeof(void*));
   nblkng_dict[nblkng_n]->dom = dom;
   nblkng_dict[nblkng_n]->op = op;
   nblkng_dict[nblkng_n]->transpose = transpose;
-- 
2.43.0


From 137b781dfb38a12c88f0ed192b33bbac22e9d182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 04/21] fix: gs_op_fields: use the size of the Fortran datatype
 for the stride

Fortran datatypes 1-3 are double, sint and slong; gs_dom_size[*dom-1] is the
size of the C domains double, float and int.
---
 src/gs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gs.c b/src/gs.c
index 77331e5..de4cda8 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1652,7 +1652,7 @@ void fgs_fields(const sint *handle,
 
   array_reserve(void*,&fgs_fields_array,*n);
   p = fgs_fields_array.ptr;
-  offset = *stride * gs_dom_size[*dom-1];
+  offset = *stride * gs_dom_size[fgs_dom[*dom]];
   for(i=*n;i;--i) *p++ = u, u = (char*)u + offset;
 
   cgs_many((void *const*)fgs_fields_array.ptr,*n,
-- 
2.43.0


From f89b512392ecfc4be8d1634ae188a1332b75a067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 05/21] fix: gs_unique (Fortran): free the duplicated
 communicator

---
 src/gs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gs.c b/src/gs.c
index de4cda8..7d5395b 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1674,5 +1674,6 @@ void fgs_unique(slong id[], const sint *n, const MPI_Fint *c, const sint *np)
   comm = tmalloc(struct comm, 1);
   comm_init_check(comm, *c, *np);
   cgs_unique(id, un, comm);
+  comm_free(comm);
   free(comm);
 }
-- 
2.43.0


From 800a27a7dd4b18775115778e388a2e8cb3b763e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 06/21] fix: allreduce_free: free the request

---
 src/gs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gs.c b/src/gs.c
index 7d5395b..942de70 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1070,6 +1070,7 @@ static void allreduce_free(struct allreduce_data *ard)
   free((uint*)ard->map_to_buf[1]);
   free((uint*)ard->map_from_buf[0]);
   free((uint*)ard->map_from_buf[1]);
+  free(ard->req);
   free(ard);
 }
 
-- 
2.43.0


From 4c17a8f013fc1289f18f91bb23952a5e258fcaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 07/21] fix: set the nonblocking entry points of the crystal
 router method

They were left uninitialised, so that igs on a handle using this method
(chosen explicitly or by gs_auto) called an arbitrary address.
---
 src/gs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gs.c b/src/gs.c
index 942de70..4ae3693 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -940,6 +940,10 @@ static void cr_setup(struct gs_remote *r, struct gs_topology *top,
   r->buffer_size = crd->buffer_size;
   r->data = crd;
   r->exec = (exec_fun*)&cr_exec;
+  /* a nonblocking operation is carried out completely when it is started */
+  r->exec_irecv = NULL;
+  r->exec_isend = (exec_fun*)&cr_exec;
+  r->exec_wait = NULL;
   r->fin = (fin_fun*)&cr_free;
 }
 
-- 
2.43.0


From 6859269f99877b201b34c263db70a53631736ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 08/21] fix: comm_iallreduce: define request and result on
 every path

With nothing to reduce, or with gs_bpr, no request is started; the caller then
waited on an uninitialised request, and for gs_bpr took its result from buf
although it was left in v.
---
 src/comm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/comm.c b/src/comm.c
index 19507c0..d849081 100644
--- a/src/comm.c
+++ b/src/comm.c
@@ -143,6 +143,9 @@ comm_allreduce_byhand:
 void comm_iallreduce(comm_req *req, const struct comm *com, gs_dom dom, gs_op op,
                           void *v, uint vn, void *buf)
 {
+#ifdef GSLIB_USE_MPI
+  *req = MPI_REQUEST_NULL; /* for the returns that start no request */
+#endif
   if(vn==0) return;
 #ifdef GSLIB_USE_MPI
   {
@@ -177,6 +180,7 @@ void comm_iallreduce(comm_req *req, const struct comm *com, gs_dom dom, gs_op op
 #ifdef GSLIB_USE_MPI
 comm_allreduce_byhand:
   allreduce_imp(com,dom,op, v,vn, buf);
+  memcpy(buf,v,vn*gs_dom_size[dom]); /* MPI_Iallreduce leaves the result there */
 #endif
 }
 
-- 
2.43.0


From 4974f79b057a6fcd94d5bc8e234bea7d3ffeda85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 09/21] fix: gs_vec, gs_many: accept an empty vector

gs_op_fields lets n=0 through; the vector kernels then ran past their end.
---
 src/gs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gs.c b/src/gs.c
index 4ae3693..d332d57 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1181,6 +1181,7 @@ static void gs_aux(
     { &gs_gather,  &gs_gather_vec,  &gs_gather_many, &gather_noop  };
   static gs_init_fun *const init[] =
     { &gs_init, &gs_init_vec, &gs_init_many, &init_noop };
+  if(vn==0) return;
   if(!buf) buf = &static_buffer;
   buffer_reserve(buf,vn*gs_dom_size[dom]*gsh->r.buffer_size);
   local_gather [mode](u,u,vn,gsh->map_local[0^transpose],dom,op);
@@ -1199,6 +1200,7 @@ static void gs_aux_irecv(
     { &gs_gather,  &gs_gather_vec,  &gs_gather_many, &gather_noop  };
   static gs_init_fun *const init[] =
     { &gs_init, &gs_init_vec, &gs_init_many, &init_noop };
+  if(vn==0) return;
   if(!buf) buf = &static_buffer;
   buffer_reserve(buf,vn*gs_dom_size[dom]*gsh->r.buffer_size);
   local_gather [mode](u,u,vn,gsh->map_local[0^transpose],dom,op);
@@ -1218,6 +1220,7 @@ static void gs_aux_isend(
     { &gs_gather,  &gs_gather_vec,  &gs_gather_many, &gather_noop  };
   static gs_init_fun *const init[] =
     { &gs_init, &gs_init_vec, &gs_init_many, &init_noop };
+  if(vn==0) return;
 
   if(!buf) buf = &static_buffer;
 
@@ -1235,6 +1238,7 @@ static void gs_aux_wait(
     { &gs_gather,  &gs_gather_vec,  &gs_gather_many, &gather_noop  };
   static gs_init_fun *const init[] =
     { &gs_init, &gs_init_vec, &gs_init_many, &init_noop };
+  if(vn==0) return;
 
   if(!buf) buf = &static_buffer;
 
-- 
2.43.0


From 8609aaea4c8c99df7608b68eee6428635d35b915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:19 +0000
Subject: [PATCH 10/21] fix: sarray_transfer: drop the rows that exceed a fixed
 capacity

cap_rows extended the message that crosses the limit instead of shortening it,
so that crystal_tuple_transfer wrote past the caller's arrays when more than
max tuples arrived.
---
 src/sarray_transfer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sarray_transfer.c b/src/sarray_transfer.c
index 5f94192..771982a 100644
--- a/src/sarray_transfer.c
+++ b/src/sarray_transfer.c
@@ -125,7 +125,7 @@ static uint cap_rows(buffer *const data, const unsigned row_size,const uint max)
     uint len=buf[2]; n+=len;
     if(n<maxn) buf+=len+3;
     else {
-      buf[2]-=(maxn-n); data->n = (buf-(uint*)data->ptr)+3+buf[2];
+      buf[2]-=(n-maxn); data->n = (buf-(uint*)data->ptr)+3+buf[2];
       buf+=len+3;
       while(buf!=buf_end) { uint len=buf[2]; n+=len, buf+=len+3; }
       break;
-- 
2.43.0


From d24595b3191345c19e971400de28f20793bb0cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:19 +0000
Subject: [PATCH 11/21] fix: sarray_transfer: rows that hold nothing but the
 target process

Such rows had length 0, and counting them divided by zero.
---
 src/sarray_transfer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sarray_transfer.c b/src/sarray_transfer.c
index 771982a..30693fe 100644
--- a/src/sarray_transfer.c
+++ b/src/sarray_transfer.c
@@ -148,6 +148,7 @@ uint sarray_transfer_many(
   if(!ext) off1 -= sizeof(uint);
   row_size=off1; for(i=1;i<An;++i) row_size += size[i];
   row_size = (row_size+sizeof(uint)-1)/sizeof(uint);
+  if(row_size==0) row_size=1; /* rows are counted by their length */
   
   perm = sortp(&cr->work,0, proc,A[0]->n,proc_stride);
 
-- 
2.43.0


From ea6045fea901bd438a5f9180512adfc49e1381a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 12/21] fix: findpts_eval: do not reuse the points of a
 different list

---
 src/findpts_imp.h | 48 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/findpts_imp.h b/src/findpts_imp.h
index 8c08479..5ab3914 100644
--- a/src/findpts_imp.h
+++ b/src/findpts_imp.h
@@ -39,6 +39,7 @@
 #define findpts               GS_TOKEN_PASTE(GS_PREFIXED_NAME(findpts_      ),D)
 #define findpts_eval          GS_TOKEN_PASTE(GS_PREFIXED_NAME(findpts_eval_ ),D)
 #define setup_fev_aux         GS_TOKEN_PASTE(setup_fev_aux_,D)
+#define same_eval_list        GS_TOKEN_PASTE(same_eval_list_,D)
 
 struct hash_data {
   ulong hash_n;
@@ -217,7 +218,7 @@ struct findpts_data {
   struct crystal cr;
   struct findpts_local_data local;
   struct hash_data hash;
-  struct array savpt;
+  struct array savpt, savlist;
   struct findpts_dummy_ms_data fdms;
   uint   fevsetup;
 };
@@ -261,7 +262,7 @@ void findptsms_free(struct findpts_data *fd)
   hash_free(&fd->hash);
   findptsms_local_free(&fd->local);
   crystal_free(&fd->cr);
-  if (fd->fevsetup==1) array_free(&fd->savpt);
+  if (fd->fevsetup==1) array_free(&fd->savpt), array_free(&fd->savlist);
   free(fd);
 }
 
@@ -279,7 +280,7 @@ void findptsms(        uint   *const        code_base, const unsigned       code
                        struct findpts_data *const fd)
 {
   if (fd->fevsetup==1) {
-    array_free(&fd->savpt);
+    array_free(&fd->savpt), array_free(&fd->savlist);
     fd->fevsetup=0;
   }
   const uint np = fd->cr.comm.np, id=fd->cr.comm.id;
@@ -528,6 +529,18 @@ void findptsms(        uint   *const        code_base, const unsigned       code
 struct eval_src_pt { double r[D]; uint index, proc, el; };
 struct eval_out_pt { double out; uint index, proc; };
 
+/* whether a list of points to evaluate is the one that was sent out last */
+static int same_eval_list(const struct array *const a,
+                          const struct array *const b)
+{
+  const struct eval_src_pt *p=a->ptr, *q=b->ptr, *const pe=p+a->n;
+  if(a->n!=b->n) return 0;
+  for(;p!=pe;++p,++q)
+    if(p->index!=q->index || p->proc!=q->proc || p->el!=q->el ||
+       memcmp(p->r,q->r,sizeof(p->r))) return 0;
+  return 1;
+}
+
 static void setup_fev_aux(
   const uint   *const code_base, const unsigned code_stride,
   const uint   *const proc_base, const unsigned proc_stride,
@@ -536,7 +549,7 @@ static void setup_fev_aux(
   const uint npt, struct findpts_data *const fd)
 {
   struct array src;
-  /* copy user data, weed out unfound points, send out */
+  /* copy user data, weed out unfound points */
   {
     uint index;
     const uint *code=code_base, *proc=proc_base, *el=el_base;
@@ -558,6 +571,18 @@ static void setup_fev_aux(
       el   = (const   uint*)((const char*)el  +  el_stride);
     }
     src.n = pt - (struct eval_src_pt*)src.ptr;
+  }
+  /* the points sent out last can be used again if no process changed its list */
+  if(fd->fevsetup==1) {
+    sint changed = !same_eval_list(&src,&fd->savlist), buf;
+    comm_allreduce(&fd->cr.comm,gs_int,gs_max,&changed,1,&buf);
+    if(!changed) { array_free(&src); return; }
+    array_free(&fd->savpt), array_free(&fd->savlist);
+  }
+  /* keep the list, send out */
+  {
+    array_init(struct eval_src_pt,&fd->savlist,src.n), fd->savlist.n=src.n;
+    if(src.n) memcpy(fd->savlist.ptr,src.ptr,src.n*sizeof(struct eval_src_pt));
     sarray_transfer(struct eval_src_pt,&src,proc,1,&fd->cr);
   }
   /* setup space for source points*/
@@ -578,6 +603,7 @@ static void setup_fev_aux(
     }
     array_free(&src);
   }
+  fd->fevsetup=1;
 }
 
 void findptsms_eval(
@@ -589,14 +615,11 @@ void findptsms_eval(
   const uint npt,
   const double *const in, struct findpts_data *const fd)
 { 
-  if (fd->fevsetup==0) {
-    setup_fev_aux(code_base,code_stride,
-                  proc_base,proc_stride,
-                    el_base,  el_stride,
-                     r_base,   r_stride,
-                        npt,         fd);
-    fd->fevsetup=1;
-  }
+  setup_fev_aux(code_base,code_stride,
+                proc_base,proc_stride,
+                  el_base,  el_stride,
+                   r_base,   r_stride,
+                      npt,         fd);
   struct array outpt;
   /* evaluate points, send back */
   { 
@@ -702,6 +725,7 @@ void findpts_eval(
 #undef findpts_free
 #undef findpts_setup
 #undef setup_aux
+#undef same_eval_list
 #undef setup_fev_aux
 #undef eval_out_pt
 #undef eval_src_pt
-- 
2.43.0


From 6fd8e1914e4936dc097b5e0ccc89df627d03355d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 13/21] fix: findpts_local: keep the session arguments on the
 stack

---
 src/findpts_local_imp.h | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/findpts_local_imp.h b/src/findpts_local_imp.h
index 25cf8b0..bf25e61 100644
--- a/src/findpts_local_imp.h
+++ b/src/findpts_local_imp.h
@@ -433,16 +433,8 @@ void findpts_local(
   const uint npt, struct findpts_local_data *const fd,
   buffer *buf)
 {
-    unsigned int *sess_base = tmalloc(uint,1);
-    double *disti_base = tmalloc(double,1);
-    unsigned int *elsid_base = tmalloc(uint,1);
-    unsigned int *sess_match = tmalloc(uint,1);
-    *sess_base = 0;
-    *sess_match = 0;
-    *disti_base = 0;
-    *elsid_base = 0;
-    
-
+    uint sess_base = 0, sess_match = 0, elsid_base = 0;
+    double disti_base = 0;
     unsigned sess_stride=0;
     unsigned disti_stride=0;
     unsigned elsid_stride=0;
@@ -452,10 +444,10 @@ void findpts_local(
             r_base,    r_stride,
         dist2_base,dist2_stride,
             x_base,    x_stride,
-         sess_base, sess_stride,
-        disti_base,disti_stride,
-        elsid_base,elsid_stride,
-        sess_match,npt,fd,buf);
+        &sess_base, sess_stride,
+       &disti_base,disti_stride,
+       &elsid_base,elsid_stride,
+       &sess_match,npt,fd,buf);
 }
 
 /* assumes points are already grouped by elements */
-- 
2.43.0


From de6d80ea7441be7c3372085523f11057e44284af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:36 +0000
Subject: [PATCH 14/21] fix: fgslib_findpts_setup: pass no session data instead
 of leaked or undefined pointers

---
 src/findpts.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/findpts.c b/src/findpts.c
index c708fda..07afece 100644
--- a/src/findpts.c
+++ b/src/findpts.c
@@ -327,12 +327,8 @@ void ffindpts_setup(sint *const handle,
     comm_init_check(&fd->cr.comm, *comm, *np);
     buffer_init(&fd->cr.data,1000);
     buffer_init(&fd->cr.work,1000);
-    unsigned int *nsid = tmalloc(uint,1);
-    double *distfint = tmalloc(double,1);
-    *nsid = 0;
-    *distfint = 0;
     setupms_aux_2(fd, elx,n,*nel,m,*bbox_tol,
-                *loc_hash_size,*gbl_hash_size, *npt_max, *newt_tol, nsid, distfint,ims);
+                *loc_hash_size,*gbl_hash_size, *npt_max, *newt_tol, 0, 0,ims);
   } else if(h->ndim==3) {
     struct findpts_data_3 *const fd = tmalloc(struct findpts_data_3,1);
     const double *elx[3];
@@ -344,10 +340,8 @@ void ffindpts_setup(sint *const handle,
     comm_init_check(&fd->cr.comm, *comm, *np);
     buffer_init(&fd->cr.data,1000);
     buffer_init(&fd->cr.work,1000);
-    const uint *nsid;
-    const double *distfint;
     setupms_aux_3(fd, elx,n,*nel,m,*bbox_tol,
-                *loc_hash_size,*gbl_hash_size, *npt_max, *newt_tol, nsid, distfint,ims);
+                *loc_hash_size,*gbl_hash_size, *npt_max, *newt_tol, 0, 0,ims);
   } else
     fail(1,__FILE__,__LINE__,
          "findpts_setup: ndim must be 2 or 3; given ndim=%u",(unsigned)h->ndim);
-- 
2.43.0


From 41bca0a85d60e5522f4ea72f869b4267e1dff67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:55 +0000
Subject: [PATCH 15/21] fix: crystal_router: build without MPI

---
 src/crystal.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/crystal.c b/src/crystal.c
index d7eab1f..8e93e15 100644
--- a/src/crystal.c
+++ b/src/crystal.c
@@ -141,7 +141,11 @@ void crystal_router(struct crystal *p)
       fprintf(stderr, "Error in crystal_router: rank = %d send_n = %lld (> "
         "INT_MAX)\n", p->comm.id, send_n_long);
       fflush(stderr);
+#ifdef GSLIB_USE_MPI
       MPI_Abort(p->comm.c, EXIT_FAILURE);
+#else
+      exit(EXIT_FAILURE);
+#endif
     }
 
     recvn = 1, targ = n-1-(id-bl)+bl;
-- 
2.43.0


From 742f1598178acc53de902d303d1b99dd6c8159c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:55 +0000
Subject: [PATCH 16/21] fix: comm_split: set the new communicator without MPI

---
 src/comm.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/comm.h b/src/comm.h
index 72a54fe..a384a3f 100644
--- a/src/comm.h
+++ b/src/comm.h
@@ -190,6 +190,7 @@ static void comm_split_(const struct comm *s, int bin, int key, struct comm *d,
   comm_init(d, nc);
   MPI_Comm_free(&nc);
 #else
+  d->id = s->id, d->np = s->np;
   if(s->np!=1) fail(1,file,line,"%s not compiled with -DMPI\n",file);
 #endif
 }
-- 
2.43.0


From 2faeb348ea80a82c1cb212f733dc5ed7c1b334fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:55 +0000
Subject: [PATCH 17/21] fix: diagnostics: bound the length of the message

---
 src/fail.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fail.c b/src/fail.c
index 6d007a5..922e43f 100644
--- a/src/fail.c
+++ b/src/fail.c
@@ -31,8 +31,10 @@ void vdiagnostic(const char *prefix, const char *file, unsigned line,
                  const char *fmt, va_list ap)
 {
   static char buf[2048]; int n,na,i=0;
-  sprintf(buf,"%s(proc %04d, %s:%d): ",prefix,(int)comm_gbl_id,file,line);
-  vsprintf(buf+strlen(buf),fmt,ap);
+  /* leave room for the newline */
+  snprintf(buf,sizeof(buf)-1,"%s(proc %04d, %s:%d): ",prefix,(int)comm_gbl_id,file,line);
+  n=strlen(buf);
+  vsnprintf(buf+n,sizeof(buf)-1-n,fmt,ap);
   strcat(buf,"\n");
   n=strlen(buf);
   while(n && (na=fwrite(buf+i,1,n,stdout))) n-=na, i+=na;
-- 
2.43.0


From 174c12bf05a6e177dd42669db2defe755b388970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:45 +0000
Subject: [PATCH 18/21] fix: findpts_el: release a constraint that is active
 where the step starts

---
 src/findpts_el_2.c | 8 ++++++--
 src/findpts_el_3.c | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/findpts_el_2.c b/src/findpts_el_2.c
index aad9aad..5d92de2 100644
--- a/src/findpts_el_2.c
+++ b/src/findpts_el_2.c
@@ -349,7 +349,7 @@ static void newton_area(struct findpts_el_pt_2 *const out,
   double bnd[4] = { -1,1, -1,1 };
   double r0[2];
   double dr[2], fac;
-  unsigned d, mask, flags;
+  unsigned d, mask, flags, released=0;
   
   r0[0] = p->r[0], r0[1] = p->r[1];
   
@@ -455,7 +455,11 @@ static void newton_area(struct findpts_el_pt_2 *const out,
     for(d=0;d<2;++d) {
       unsigned c = flags>>(2*d) & 3u;
       if(c==0) continue;
-      else if(dr[d]*y[d]<0) flags &= ~(3u<<(2*d));
+      else if(!(released>>d&1u) && (c==1 ? y[d]>0 : y[d]<0)) {
+        /* one at a time, and each at most once */
+        flags &= ~(3u<<(2*d)), released |= 1u<<d;
+        break;
+      }
 #ifdef DIAGNOSTICS_1
       if( (c==1&&dr[d]>0) || (c==2&&dr[d]<0) )
         printf("FAIL! c=%u, dr[d]=%g\n",c,dr[d]);
diff --git a/src/findpts_el_3.c b/src/findpts_el_3.c
index 62561ff..b306634 100644
--- a/src/findpts_el_3.c
+++ b/src/findpts_el_3.c
@@ -539,7 +539,7 @@ static void newton_vol(struct findpts_el_pt_3 *const out,
   double bnd[6] = { -1,1, -1,1, -1,1 };
   double r0[3];
   double dr[3], fac;
-  unsigned d, mask, flags;
+  unsigned d, mask, flags, released=0;
   r0[0]=p->r[0],r0[1]=p->r[1],r0[2]=p->r[2];
 #ifdef DIAGNOSTICS_1
   printf("newton_vol:\n");
@@ -693,7 +693,11 @@ static void newton_vol(struct findpts_el_pt_3 *const out,
     for(d=0;d<3;++d) {
       unsigned c = flags>>(2*d) & 3u;
       if(c==0) continue;
-      else if(dr[d]*y[d]<0) flags &= ~(3u<<(2*d));
+      else if(!(released>>d&1u) && (c==1 ? y[d]>0 : y[d]<0)) {
+        /* one at a time, and each at most once */
+        flags &= ~(3u<<(2*d)), released |= 1u<<d;
+        break;
+      }
 #ifdef DIAGNOSTICS_1
       if( (c==1&&dr[d]>0) || (c==2&&dr[d]<0) )
         printf("FAIL! c=%u, dr[d]=%g\n",c,dr[d]);
-- 
2.43.0


From a168f653d3f522dfd8f5120ca44d991f4a6d0d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 19/21] fix: findpts_el: a point that stops on the boundary is
 not inside

---
 src/findpts_el_2.c | 10 +++++++++-
 src/findpts_el_3.c | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/findpts_el_2.c b/src/findpts_el_2.c
index 5d92de2..ae2d088 100644
--- a/src/findpts_el_2.c
+++ b/src/findpts_el_2.c
@@ -334,7 +334,15 @@ static int reject_prior_step_q(struct findpts_el_pt_2 *const out,
     out->r[0]=p->oldr[0],out->r[1]=p->oldr[1];
     out->flags=p->flags>>5;
     out->dist2p=-DBL_MAX;
-    if(pred < dist2*tol) out->flags|=CONVERGED_FLAG;
+    if(pred < dist2*tol) {
+      /* the constraints where the point stops; the search starts with none,
+         even on the boundary */
+      unsigned d;
+      for(d=0;d<2;++d)
+        if(out->r[d]==-1)     out->flags|=1u<<(2*d);
+        else if(out->r[d]==1) out->flags|=2u<<(2*d);
+      out->flags|=CONVERGED_FLAG;
+    }
     return 1;
   }
 }
diff --git a/src/findpts_el_3.c b/src/findpts_el_3.c
index b306634..3e8b11a 100644
--- a/src/findpts_el_3.c
+++ b/src/findpts_el_3.c
@@ -524,7 +524,15 @@ static int reject_prior_step_q(struct findpts_el_pt_3 *const out,
     out->r[0]=p->oldr[0],out->r[1]=p->oldr[1],out->r[2]=p->oldr[2];
     out->flags=p->flags>>7;
     out->dist2p=-DBL_MAX;
-    if(pred < dist2*tol) out->flags|=CONVERGED_FLAG;
+    if(pred < dist2*tol) {
+      /* the constraints where the point stops; the search starts with none,
+         even on the boundary */
+      unsigned d;
+      for(d=0;d<3;++d)
+        if(out->r[d]==-1)     out->flags|=1u<<(2*d);
+        else if(out->r[d]==1) out->flags|=2u<<(2*d);
+      out->flags|=CONVERGED_FLAG;
+    }
     return 1;
   }
 }
-- 
2.43.0


From 9e8300ea80f62a8b369fb59896b67bdf51fe1e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:16 +0000
Subject: [PATCH 20/21] fix: findpts: hash index of a point far outside

---
 src/findpts.c       | 6 ++++--
 src/findpts_local.c | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/findpts.c b/src/findpts.c
index 07afece..097534f 100644
--- a/src/findpts.c
+++ b/src/findpts.c
@@ -37,8 +37,10 @@ static slong lceil (double x) { return ceil (x); }
 
 static ulong hash_index_aux(double low, double fac, ulong n, double x)
 {
-  const slong i = lfloor((x-low)*fac);
-  return i<0 ? 0 : (n-1<(ulong)i ? n-1 : (ulong)i);
+  /* (not converted before it is known to fit: the point can be anywhere,
+     and fac is infinite without elements) */
+  const double i = floor((x-low)*fac);
+  return i>0 ? (i<n-1 ? (ulong)i : n-1) : 0;
 }
 
 static void set_bit(unsigned char *const p, const uint i)
diff --git a/src/findpts_local.c b/src/findpts_local.c
index ea80960..977a036 100644
--- a/src/findpts_local.c
+++ b/src/findpts_local.c
@@ -31,8 +31,10 @@ static sint iceil (double x) { return ceil (x); }
 
 static uint hash_index_aux(double low, double fac, uint n, double x)
 {
-  const sint i = ifloor((x-low)*fac);
-  return i<0 ? 0 : (n-1<(uint)i ? n-1 : (uint)i);
+  /* (not converted before it is known to fit: the point can be anywhere,
+     and fac is infinite without elements) */
+  const double i = floor((x-low)*fac);
+  return i>0 ? (i<n-1 ? (uint)i : n-1) : 0;
 }
 
 #define CODE_INTERNAL 0
-- 
2.43.0


From fc003fb8e4ba9cc88d1c2e806df17e956c7b5a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 21/21] fix: gs_wait: report a handle that is not outstanding

---
 src/gs.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gs.c b/src/gs.c
index d332d57..2dd7158 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1303,6 +1303,8 @@ void igs(void *u, gs_dom dom, gs_op op, unsigned transpose,
 
 void gs_wait(int handle)
 {
+  if(handle<0 || (handle<nblkng_n && !nblkng_dict[handle]))
+    fail(1,__FILE__,__LINE__,"gs_wait: invalid handle");
   if(handle < nblkng_n) {
     gs_aux_wait(nblkng_dict[handle]->u,
 	        nblkng_dict[handle]->mode,
-- 
2.43.0

