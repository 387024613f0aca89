/* C23: what operations on live objects leave behind, and what freeing objects in any order returns */
#include "h.h"
#include "gsu.h"
#include "sess.h"
#include "gslib.h"
typedef int fint;
#define F(x) fgslib_##x##_
void F(gs_setup_pick)(fint*,const slong*,const fint*,const MPI_Fint*,const fint*,const fint*); void F(gs_free)(const fint*);
void F(gs_op)(const fint*,void*,const fint*,const fint*,const fint*); void F(igs_op)(const fint*,void*,const fint*,const fint*,const fint*,int*); void F(gs_op_wait)(int*);
void F(gs_op_fields)(const fint*,void*,const fint*,const fint*,const fint*,const fint*,const fint*); void F(gs_unique)(slong*,const fint*,const MPI_Fint*,const fint*);
void F(crystal_setup)(fint*,const MPI_Fint*,const fint*); void F(crystal_free)(fint*); void F(crystal_ituple_transfer)(const fint*,fint*,const fint*,fint*,const fint*,const fint*); void F(crystal_ituple_sort)(const fint*,fint*,const fint*,const fint*,const fint*,const fint*);
struct obj { int kind,method,n,dim; struct gs_data *g; struct crystal cr; struct comm cm; fint h; void *f; slong *id; double *u; void *lf; };
enum { KGS, KFGS, KCR, KFCR, KCOMM, KFP2, KFP3, KQUAD, NKIND };
static double XY[3][27];
struct row { uint to; double v; };
static void o_open(struct obj *o,struct sess *s,struct rng *r){ int i; fint fc=MPI_Comm_c2f(s->mc),np=s->np,n,m; static const unsigned nn[3]={3,3,3},mm[3]={7,7,7}; const double *xp[3]; 
  o->n=1+(int)rn(r,30); o->id=g_new(o->n*sizeof(slong)); o->u=g_new(o->n*4*8); for(i=0;i<o->n;i++) o->id[i]=1+(slong)rn(r,o->n*2)-(rpct(r,8)?o->n*2:0); for(i=0;i<o->n*4;i++) o->u[i]=i; n=o->n; 
  for(i=0;i<27;i++) XY[0][i]=i%3-1+2*s->me,XY[1][i]=i/3%3-1,XY[2][i]=i/9-1; for(i=0;i<3;i++) xp[i]=XY[i];
  switch(o->kind){ case KGS: o->g=gs_setup(o->id,o->n,&s->c,o->method>>3,(gs_method)(o->method&3),0); break; case KFGS: m=o->method&3; F(gs_setup_pick)(&o->h,o->id,&n,&fc,&np,&m); break;
    case KCR: crystal_init(&o->cr,&s->c); break; case KFCR: F(crystal_setup)(&o->h,&fc,&np); break; case KCOMM: comm_dup(&o->cm,&s->c); break;
    case KFP2: o->f=findpts_setup_2(&s->c,xp,nn,1,mm,.1,20,20,16,1e-12); break; case KFP3: o->f=findpts_setup_3(&s->c,xp,nn,1,mm,.1,20,20,16,1e-12); break; default: break; } }
static void o_close(struct obj *o){ switch(o->kind){ case KGS: gs_free(o->g); break; case KFGS: F(gs_free)(&o->h); break; case KCR: crystal_free(&o->cr); break; case KFCR: F(crystal_free)(&o->h); break; case KCOMM: comm_free(&o->cm); break; case KFP2: findpts_free_2(o->f); break; case KFP3: findpts_free_3(o->f); break; default: break; } g_free(o->id); g_free(o->u); }
/* one round of the same work on an object; collective */
static void o_use(struct obj *o,struct sess *s,uint64_t seed){ struct rng r; int k,i,what; r.s=seed; what=(int)rn(&r,6); for(i=0;i<o->n*4;i++) o->u[i]=i;
  switch(o->kind){
    case KGS: if(what==0) gs(o->u,gs_double,gs_add,0,o->g,0); else if(what==1) gs_vec(o->u,3,gs_double,gs_max,0,o->g,0); else if(what==2){ void *v[3]; for(k=0;k<3;k++) v[k]=o->u+k*o->n; gs_many(v,3,gs_double,gs_min,0,o->g,0); }
      else if(what==3){ slong *t=hmalloc(o->n*sizeof(slong)); memcpy(t,o->id,o->n*sizeof(slong)); gs_unique(t,o->n,&s->c); hfree(t); }
      else { int h[2]; 
#ifndef GSLIB_USE_NBC
        if((o->method&3)==0||(o->method&3)==3) return;
#endif
        if(what==4){ igs(o->u,gs_double,gs_add,0,o->g,0,&h[0]); gs_wait(h[0]); } else { void *v[3]; for(k=0;k<3;k++) v[k]=o->u+k*o->n; igs_many(v,3,gs_double,gs_add,0,o->g,0,&h[0]); gs_wait(h[0]); igs_vec(o->u,2,gs_double,gs_add,0,o->g,0,&h[1]); gs_wait(h[1]); } } break;
    case KFGS: { fint dom=1,op=1,tr=0,st=o->n,nf=3; if(what<2) F(gs_op)(&o->h,o->u,&dom,&op,&tr); else if(what<4) F(gs_op_fields)(&o->h,o->u,&st,&nf,&dom,&op,&tr); else if(what==4){ slong *t=hmalloc(o->n*sizeof(slong)); fint n=o->n,np=s->np; MPI_Fint fc=MPI_Comm_c2f(s->mc); memcpy(t,o->id,o->n*sizeof(slong)); F(gs_unique)(t,&n,&fc,&np); hfree(t); }
      else { int w; 
#ifndef GSLIB_USE_NBC
        if((o->method&3)==0||(o->method&3)==3) return;
#endif
        F(igs_op)(&o->h,o->u,&dom,&op,&tr,&w); F(gs_op_wait)(&w); } break; }
    case KCR: { struct array a={0,0,0}; struct row *p; array_init(struct row,&a,o->n); a.n=o->n; p=a.ptr; for(i=0;i<o->n;i++) p[i].to=(uint)((i*7+what)%s->np),p[i].v=i; sarray_transfer(struct row,&a,to,what&1,&o->cr); if(what<3&&(what&1)) sarray_transfer(struct row,&a,to,0,&o->cr); sarray_sort(struct row,a.ptr,a.n,v,3,&o->cr.data); array_free(&a); break; }
    case KFCR: { fint m=2,n=o->n,nmax=o->n*s->np+10,key=1,*A=hmalloc((size_t)nmax*2*sizeof(fint)),nk=1; for(i=0;i<n;i++) A[2*i]=(i*5+what)%s->np,A[2*i+1]=i; F(crystal_ituple_transfer)(&o->h,A,&m,&n,&nmax,&key); F(crystal_ituple_sort)(&o->h,A,&m,&n,&key,&nk); hfree(A); break; }
    case KCOMM: { double v[3]={1,2,3},b[6]; comm_allreduce(&o->cm,gs_double,gs_add,v,3,b); { double o2[2][3]; comm_scan(o2,&o->cm,gs_double,gs_add,v,3,b); } if(what==3){ struct comm d; comm_split(&o->cm,s->me&1,s->me,&d); comm_barrier(&d); comm_free(&d); } break; }
    case KFP2: case KFP3: { int d=o->kind==KFP2?2:3,np_=o->n; uint *code=hmalloc(np_*4),*pr=hmalloc(np_*4),*el=hmalloc(np_*4); double *rr=hmalloc(np_*d*8),*ds=hmalloc(np_*8),*x=hmalloc(np_*3*8),*out=hmalloc(np_*8); const double *xb[3]; unsigned xs[3]={8,8,8}; for(i=0;i<np_*3;i++) x[i]=rdr(&r,-1,i<np_?2*s->np-1:1); for(i=0;i<3;i++) xb[i]=x+i*np_;
      memset(el,0,np_*4); memset(pr,0,np_*4); memset(rr,0,np_*d*8);
      if(d==2){ findpts_2(code,4,pr,4,el,4,rr,16,ds,8,xb,xs,np_,o->f); findpts_eval_2(out,8,code,4,pr,4,el,4,rr,16,np_,XY[0],o->f); } else { findpts_3(code,4,pr,4,el,4,rr,24,ds,8,xb,xs,np_,o->f); findpts_eval_3(out,8,code,4,pr,4,el,4,rr,24,np_,XY[0],o->f); }
      hfree(code); hfree(pr); hfree(el); hfree(rr); hfree(ds); hfree(x); hfree(out); break; }
    default: { double z[20],w[20]; int n=2+what*3; gauss_quad(z,w,n); lobatto_quad(z,w,n); break; } } }
#define NO 6
static void c23(struct ctx *c){ struct sess s; struct rng r; struct obj o[NO]; int n,k,i,ord[NO],rounds; struct vm_heap h[4]; long nb[4]; int nc[4],lr=0; uint64_t sig=5,us[NO]; struct vm_heap e0; int ec0; buffer keep=null_buffer; (void)keep;
  int noise=sess_noise_pct; sess_noise_pct=0; sess_open(&s,c); sess_noise_pct=noise; r.s=s.seed; n=1+(int)rn(&r,NO); vm_heap_get(&e0); ec0=vm_live_comms();
  for(k=0;k<n;k++){ o[k].kind=(int)rn(&r,NKIND); o[k].method=(int)rn(&r,16); o_open(&o[k],&s,&r); us[k]=r64(&r); sig=hfold(sig,o[k].kind*16+o[k].method); }
  /* the same work again and again: what is kept must stop growing. Scratch memory is reused, so the first rounds may grow it */
  rounds=12; h_leak_slack=128; 
  for(i=0;i<4;i++){ int j; for(j=0;j<(i==0?3:rounds);j++) for(k=0;k<n;k++) o_use(&o[k],&s,us[k]); vm_heap_get(&h[i]); nb[i]=h[i].blocks; nc[i]=vm_live_comms(); if(i==0) lr=vm_live_requests(); H_CHECK(vm_live_requests()<=lr,"leak-request","repeating the same operations left %d requests alive, %d before",vm_live_requests(),lr); }
  if(nc[1]>nc[0]&&nc[2]>nc[1]&&nc[3]>nc[2]) H_FAIL("leak-comm","the same operations on live objects left %d, %d, %d, %d communicators alive",nc[0],nc[1],nc[2],nc[3]);
  if(nb[1]>nb[0]&&nb[2]>nb[1]&&nb[3]>nb[2]) H_FAIL("leak-memory","the same operations on live objects repeated 3, 15, 27 and 39 times kept %ld, %ld, %ld, %ld allocations",nb[0],nb[1],nb[2],nb[3]);
  if(h[3].bytes>=h[2].bytes+64&&h[2].bytes>=h[1].bytes+64) H_FAIL("leak-growth","the same operations on live objects repeated 3, 15, 27 and 39 times kept %ld, %ld, %ld, %ld bytes",h[0].bytes,h[1].bytes,h[2].bytes,h[3].bytes);
  g_check("operations"); 
  for(k=0;k<n;k++) ord[k]=k; rshuffle(&r,ord,n); for(k=0;k<n;k++) o_close(&o[ord[k]]);
  { int cc=vm_live_comms(); struct vm_heap h1; long d; vm_heap_get(&h1); H_CHECK(cc==ec0,"leak-comm","freeing every object leaves %d communicators alive that were not there before",cc-ec0);
    /* static scratch and the Fortran handle tables may have been allocated meanwhile */
    d=h1.blocks-e0.blocks; H_CHECK(d<=6,"leak-memory","freeing every object leaves %ld allocations that were not there before",d); vm_max("allocations kept for reuse",d>0?d:0); }
  h_count("rounds of operations on live objects",(rounds*3+3)*n); h_count("objects freed in random order",n); vm_sig(hfold(sig,hfold(s.np,s.seed))); h_sample("np=%d objects=%d bytes kept after 3,15,27,39 rounds: %ld %ld %ld %ld",s.np,n,h[0].bytes,h[1].bytes,h[2].bytes,h[3].bytes);
  sess_close(&s); }
const struct prop h_props[]={ {"C23",c23,6,6}, {0,0,0,0} };
