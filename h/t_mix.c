/* C28: operations on many kinds of live objects, interleaved, on the same few caller arrays and scratch buffers.
   The cases of one chunk are the steps of one history: objects stay alive from case to case, are freed and made
   anew in the same memory. In fresh processes a single step opens only the object it needs. */
#include "h.h"
#include "gsu.h"
#include "gslib.h"
typedef int fint; typedef const int *CI; typedef const double *CD;
#define F(x) fgslib_##x##_
void F(gs_setup)(fint*,const slong*,CI,const MPI_Fint*,CI); void F(gs_setup_pick)(fint*,const slong*,CI,const MPI_Fint*,CI,CI); void F(gs_free)(CI);
void F(gs_op)(CI,void*,CI,CI,CI); void F(gs_op_vec)(CI,void*,CI,CI,CI,CI); void F(gs_op_many)(CI,void*,void*,void*,void*,void*,void*,CI,CI,CI,CI);
void F(igs_op)(CI,void*,CI,CI,CI,int*); void F(igs_op_vec)(CI,void*,CI,CI,CI,CI,int*); void F(igs_op_many)(CI,void*,void*,void*,void*,void*,void*,CI,CI,CI,CI,int*); void F(gs_op_wait)(int*);
void F(gs_op_fields)(CI,void*,CI,CI,CI,CI,CI); void F(gs_unique)(slong*,CI,const MPI_Fint*,CI);
void F(crystal_setup)(fint*,const MPI_Fint*,CI); void F(crystal_free)(fint*); void F(crystal_ituple_transfer)(CI,fint*,CI,fint*,CI,CI); void F(crystal_ituple_sort)(CI,fint*,CI,CI,CI,CI);
void F(crystal_tuple_transfer)(CI,CI,CI,fint*,CI,slong*,CI,double*,CI,CI); 
void F(findpts_setup)(int*,CI,CI,CI,CD,CD,CD,CI,CI,CI,CI,CI,CI,CI,CD,CI,CI,CI,CD); void F(findpts_free)(CI);
void F(findpts)(CI,int*,CI,int*,CI,int*,CI,double*,CI,double*,CI,CD,CI,CD,CI,CD,CI,CI); void F(findpts_eval)(CI,double*,CI,CI,CI,CI,CI,CI,CI,CD,CI,CI,CD);
#define CH 16
#define NS_ 6
#define NMAX 40
#define NP_ 32
enum { KGS, KGS2, KFGS, KFGS2, KCR, KFCR, KCOMM, KFP2, KFP3, KMS2, KMS3, KFFP, KLOC2, KLOC3, KEL2, KEL3, KPURE, NKIND };
static const char *kname[]={"gs","gs","Fortran gs","Fortran gs","crystal","Fortran crystal","comm","findpts 2","findpts 3","findptsms 2","findptsms 3","Fortran findpts","findpts_local 2","findpts_local 3","findpts_el 2","findpts_el 3","sorts and polynomials"};
struct obj { int live,gen,kind; int n,meth,dim,nel,deg[3],noT; struct gs_data *g; struct crystal cr; struct comm cm; fint h; void *f; union { struct findpts_local_data_2 l2; struct findpts_local_data_3 l3; struct findpts_el_data_2 e2; struct findpts_el_data_3 e3; } u; uint sid;
  slong id[NMAX]; double x[3][3*64], w[3*64]; };
static struct obj O[NS_]; static buffer B[3]; static double A[4][6*(NMAX+2)]; static struct comm C; static int open_, nlive_;
static long live_chunk=-1;
static void fold(const void *p,size_t n){ size_t i; uint64_t h=n,v; for(i=0;i+8<=n;i+=8) memcpy(&v,(const char*)p+i,8),h=hfold(h,v); for(;i<n;i++) h=hfold(h,((const unsigned char*)p)[i]); h_fold(h); }
static int isfp(int k){ return k>=KFP2&&k<=KEL3; }
static void shape(struct obj *o,struct rng *r){ int e,i,d,nt=1,n[3]={1,1,1}; double amp=rdr(r,0,.15); for(d=0;d<o->dim;d++) n[d]=o->deg[d],nt*=n[d];
  for(e=0;e<o->nel;e++){ double a[6]; for(i=0;i<6;i++) a[i]=rdr(r,-amp,amp); for(i=0;i<nt;i++){ int k[3]; double t[3]={0,0,0}; k[0]=i%n[0],k[1]=i/n[0]%n[1],k[2]=i/(n[0]*n[1]); for(d=0;d<o->dim;d++) t[d]=2.*k[d]/(n[d]-1)-1;
      o->x[0][e*nt+i]=t[0]+a[0]*t[1]*t[1]+a[1]*t[2]+1.9*e+(o->kind==KEL2||o->kind==KEL3?0:4*(int)C.id); o->x[1][e*nt+i]=t[1]+a[2]*t[0]*t[2]+a[3]*t[0]; o->x[2][e*nt+i]=t[2]+a[4]*t[0]+a[5]*t[1]*t[0]; o->w[e*nt+i]=rdr(r,-1,1); } } }
static void o_close(struct obj *o){ if(!o->live) return; o->live=0; nlive_--; switch(o->kind){ case KGS: case KGS2: gs_free(o->g); break; case KFGS: case KFGS2: F(gs_free)(&o->h); break; case KCR: crystal_free(&o->cr); break; case KFCR: F(crystal_free)(&o->h); break; case KCOMM: comm_free(&o->cm); break;
    case KFP2: findpts_free_2(o->f); break; case KFP3: findpts_free_3(o->f); break; case KMS2: findptsms_free_2(o->f); break; case KMS3: findptsms_free_3(o->f); break; case KFFP: F(findpts_free)(&o->h); break;
    case KLOC2: findpts_local_free_2(&o->u.l2); break; case KLOC3: findpts_local_free_3(&o->u.l3); break; case KEL2: findpts_el_free_2(&o->u.e2); break; case KEL3: findpts_el_free_3(&o->u.e3); break; } }
/* everything about the object follows from the seed */
static void o_open(struct obj *o,uint64_t seed,uint64_t hs){ struct rng r,l; int i,d; fint fc=MPI_Comm_c2f(MPI_COMM_WORLD),np=C.np,one=1; unsigned n[3],m[3]; const double *xp[3]; unsigned nmax; double bt,nt=1e-12; uint lh,gh;
  r.s=seed; l.s=mix64(seed,100+C.id); o->kind=(int)rn(&r,NKIND); if(hs%3){ struct rng t; t.s=mix64(hs,7+rn(&r,2)); o->kind=(int)rn(&t,NKIND); } /* two of three histories are of two kinds of objects only */ o->meth=(int)rn(&r,8); o->n=rpct(&l,10)?0:1+(int)rn(&l,NMAX); o->noT=rpct(&r,30); { unsigned span=1+rn(&r,60); for(i=0;i<o->n;i++){ o->id[i]=(slong)rn(&l,span+1); if(o->noT&&rpct(&l,15)) o->id[i]=-o->id[i]; } }
  o->dim=o->kind==KFFP?2+(int)rn(&r,2):(o->kind==KFP3||o->kind==KMS3||o->kind==KLOC3||o->kind==KEL3)?3:2; for(d=0;d<3;d++) o->deg[d]=o->dim==2?2+(int)rn(&r,5):2+(int)rn(&r,3); 
  o->nel=o->kind==KEL2||o->kind==KEL3?1:(int)rn(&l,3); if(isfp(o->kind)&&C.id==0&&!o->nel) o->nel=1; nmax=1+rn(&r,20); bt=rdr(&r,.01,.2); lh=8+rn(&r,40); gh=8+rn(&r,60)+C.np; o->sid=C.id%3;
  for(d=0;d<3;d++) n[d]=o->deg[d],m[d]=2*n[d]+rn(&r,4),xp[d]=o->x[d]; if(isfp(o->kind)) shape(o,&l); o->live=1; nlive_++;
  switch(o->kind){ case KGS: case KGS2: o->g=gs_setup(o->id,o->n,&C,o->meth>>2,(gs_method)(o->meth&3),0); break; case KFGS: case KFGS2: { fint nn=o->n,mm=o->meth&3; if(mm==0&&o->meth&4) F(gs_setup)(&o->h,o->id,&nn,&fc,&np); else F(gs_setup_pick)(&o->h,o->id,&nn,&fc,&np,&mm); break; }
    case KCR: crystal_init(&o->cr,&C); break; case KFCR: F(crystal_setup)(&o->h,&fc,&np); break; case KCOMM: comm_dup(&o->cm,&C); break;
    case KFP2: o->f=findpts_setup_2(&C,xp,n,o->nel,m,bt,lh,gh,nmax,nt); break; case KFP3: o->f=findpts_setup_3(&C,xp,n,o->nel,m,bt,lh,gh,nmax,nt); break;
    case KMS2: o->f=findptsms_setup_2(&C,xp,n,o->nel,m,bt,lh,gh,nmax,nt,&o->sid,o->w); break; case KMS3: o->f=findptsms_setup_3(&C,xp,n,o->nel,m,bt,lh,gh,nmax,nt,&o->sid,o->w); break;
    case KFFP: { fint dim=o->dim,q[6],nel=o->nel,a=lh,b=gh,c=nmax; for(d=0;d<3;d++) q[d]=n[d],q[3+d]=m[d]; F(findpts_setup)(&o->h,&fc,&np,&dim,xp[0],xp[1],xp[2],q,q+1,q+2,&nel,q+3,q+4,q+5,&bt,&a,&b,&c,&nt); break; }
    case KLOC2: findpts_local_setup_2(&o->u.l2,xp,n,o->nel,m,bt,lh,nmax,nt); break; case KLOC3: findpts_local_setup_3(&o->u.l3,xp,n,o->nel,m,bt,lh,nmax,nt); break;
    case KEL2: findpts_el_setup_2(&o->u.e2,n,NP_); break; case KEL3: findpts_el_setup_3(&o->u.e3,n,NP_); break; } (void)one; }
static double val(struct rng *l,int op){ return op==1?(rpct(l,50)?1:-1):(double)((int)rn(l,41)-20); }
static void fill(void *p,int n,int dom,int op,struct rng *l){ int i; for(i=0;i<n;i++){ double v=val(l,op); if(dom==0) ((double*)p)[i]=v; else if(dom==1) ((float*)p)[i]=v; else if(dom==2) ((sint*)p)[i]=(sint)v; else ((slong*)p)[i]=(slong)v; } }
static int nb_ok(int m){
#ifdef GSLIB_USE_NBC
  (void)m; return 1;
#else
  return m==1||m==2;
#endif
}
struct row { uint to; ulong k; double v; uint w; };
/* one operation; r: the same on every process, l: of this process */
static void o_use(struct obj *o,uint64_t seed){ struct rng r,l; int what,i,d,np=C.np; static const gs_dom gd[4]={gs_double,gs_float,gs_sint,gs_slong}; static const int sz[4]={8,4,sizeof(sint),sizeof(slong)}; void *a; buffer *b; 
  r.s=seed; l.s=mix64(seed,C.id+1); what=(int)rn(&r,8); a=A[rpct(&r,60)?0:rn(&r,4)]; b=&B[rn(&r,3)]; memset(a,0x33,sizeof A[0]);
  switch(o->kind){
    case KGS: case KGS2: { int dom=(int)rn(&r,4),op=(int)rn(&r,4),tr=o->noT?0:(int)rn(&r,2),k=1+(int)rn(&r,6),n=o->n,h; void *v[6]; if(rpct(&r,25)) b=0; if(rpct(&r,3)) k=0; for(i=0;i<6;i++) v[i]=(char*)a+(size_t)i*(n+(what&1))*sz[dom]; fill(a,6*(n+1),dom,op,&l);
      if(what<2) gs(a,gd[dom],(gs_op)op,tr,o->g,b); else if(what<4) gs_vec(a,k,gd[dom],(gs_op)op,tr,o->g,b); else if(what<6) gs_many(v,k,gd[dom],(gs_op)op,tr,o->g,b);
      else if(nb_ok(o->meth&3)){ int f=(int)rn(&r,3); if(f==0) igs(a,gd[dom],(gs_op)op,tr,o->g,b,&h); else if(f==1) igs_vec(a,k,gd[dom],(gs_op)op,tr,o->g,b,&h); else igs_many(v,k,gd[dom],(gs_op)op,tr,o->g,b,&h); gs_wait(h); }
      else { memcpy(a,o->id,n*sizeof(slong)); gs_unique(a,n,&C); }
      fold(a,sizeof A[0]); break; }
    case KFGS: case KFGS2: { fint dom=1+(int)rn(&r,3),op=1+(int)rn(&r,4),tr=o->noT?0:(int)rn(&r,2),k=1+(int)rn(&r,6),n=o->n,st=n+(int)rn(&r,2),h; void *v[6]; static const int md[4]={0,0,2,3}; int dd=md[dom]; for(i=0;i<6;i++) v[i]=(char*)a+(size_t)i*st*sz[dd]; fill(a,6*(n+1),dd,op-1,&l);
      if(what==0) F(gs_op)(&o->h,a,&dom,&op,&tr); else if(what==1) F(gs_op_vec)(&o->h,a,&k,&dom,&op,&tr); else if(what==2) F(gs_op_many)(&o->h,v[0],v[1],v[2],v[3],v[4],v[5],&k,&dom,&op,&tr); else if(what<6){ k=(int)rn(&r,7); F(gs_op_fields)(&o->h,a,&st,&k,&dom,&op,&tr); }
      else if(nb_ok(o->meth&3)){ int f=(int)rn(&r,3); if(f==0) F(igs_op)(&o->h,a,&dom,&op,&tr,&h); else if(f==1) F(igs_op_vec)(&o->h,a,&k,&dom,&op,&tr,&h); else F(igs_op_many)(&o->h,v[0],v[1],v[2],v[3],v[4],v[5],&k,&dom,&op,&tr,&h); F(gs_op_wait)(&h); }
      else { MPI_Fint fc=MPI_Comm_c2f(MPI_COMM_WORLD); fint npp=np; memcpy(a,o->id,n*sizeof(slong)); F(gs_unique)(a,&n,&fc,&npp); }
      fold(a,sizeof A[0]); break; }
    case KCR: { struct array t={0,0,0}; struct row *p; array_init(struct row,&t,o->n); t.n=o->n; p=t.ptr; if(o->n) memset(p,0,o->n*sizeof *p); for(i=0;i<o->n;i++) p[i].to=rn(&l,np),p[i].k=r64(&l)>>(what*7),p[i].v=rdr(&l,-1,1),p[i].w=rn(&l,4);
      if(what<5) sarray_transfer(struct row,&t,to,what&1,&o->cr); else { uint *pr=hmalloc(4*o->n+4); for(i=0;i<o->n;i++) pr[i]=rn(&l,np); sarray_transfer_ext(struct row,&t,pr,sizeof(uint),&o->cr); hfree(pr); }
      fold(t.ptr,t.n*sizeof(struct row)); if(what&1) sarray_sort_2(struct row,t.ptr,t.n,w,0,k,1,b); else sarray_sort(struct row,t.ptr,t.n,v,3,&o->cr.data); fold(t.ptr,t.n*sizeof(struct row)); array_free(&t); break; }
    case KFCR: { fint m=2+what%3,n=o->n,mi=o->n+(int)rn(&l,60),key=1+(int)rn(&r,m),nk=1,*T=hmalloc(((size_t)mi+1)*m*sizeof(fint)); memset(T,0,((size_t)mi+1)*m*sizeof(fint)); for(i=0;i<n*m;i++) T[i]=(int)rn(&l,np);
      F(crystal_ituple_transfer)(&o->h,T,&m,&n,&mi,&key); h_fold(n); if(n>mi) n=mi; fold(T,(size_t)n*m*sizeof(fint)); key=1+(int)rn(&r,m); F(crystal_ituple_sort)(&o->h,T,&m,&n,&key,&nk); fold(T,(size_t)n*m*sizeof(fint)); hfree(T); break; }
    case KCOMM: { int n=(int)rn(&r,20),dom=(int)rn(&r,4),op=(int)rn(&r,4); double t[2*20],s[2*20]; memset(s,0,sizeof s); fill(a,n,dom,op,&l); if(what<4){ comm_allreduce(&o->cm,gd[dom],(gs_op)op,a,n,t); fold(a,n*sz[dom]); } else if(what<7){ comm_scan(s,&o->cm,gd[dom],(gs_op)op,a,n,t); fold(s,2*n*sz[dom]); } else { struct comm x; int k=(int)C.id%2; comm_split(&o->cm,k,-(int)C.id,&x); h_fold(x.id*100+x.np); comm_free(&x); } break; }
    case KPURE: { int n=2+(int)rn(&l,20),m=1+(int)rn(&l,NMAX); double z[24],w[24],q[3*24]; if(what<2){ gauss_quad(z,w,n); fold(z,n*8),fold(w,n*8); } else if(what<4){ lobatto_quad(z,w,n); fold(z,n*8); fold(w,n*8); } else if(what<6){ double *ld=hmalloc(gll_lag_size(n)*8); lagrange_fun *lf=gll_lag_setup(ld,n); lf(q,ld,n,2,rdr(&l,-1,1)); fold(q,3*n*8); hfree(ld); }
      else { ulong *k=(ulong*)a; uint *pm; for(i=0;i<m;i++) k[i]=r64(&l)>>rn(&l,64); sortp_long(b,0,k,m,sizeof(ulong)); pm=b->ptr; fold(pm,m*sizeof(uint)); sortp_double(b,1,(double*)(void*)A[3],m,8); } break; }
    case KEL2: case KEL3: { int n=(int)rn(&l,NP_)+1; const double *xp[3]; uint64_t h=0; for(d=0;d<3;d++) xp[d]=o->x[d]; if(what>2) shape(o,&l); else { struct rng q; q.s=seed&~0xfff; shape(o,&q); }
      if(o->dim==2){ struct findpts_el_pt_2 *p=findpts_el_points_2(&o->u.e2); findpts_el_start_2(&o->u.e2,xp); for(i=0;i<n;i++) for(d=0;d<2;d++) p[i].x[d]=rdr(&l,-2,2); findpts_el_2(&o->u.e2,n,1e-12); for(i=0;i<n;i++){ fold(p[i].r,16); fold(&p[i].dist2,8); h=hfold(h,p[i].flags); } if(what&1){ double t[NP_]; findpts_el_eval_2(t,8,p[0].r,sizeof *p,n,o->w,&o->u.e2); fold(t,n*8); } }
      else { struct findpts_el_pt_3 *p=findpts_el_points_3(&o->u.e3); findpts_el_start_3(&o->u.e3,xp); for(i=0;i<n;i++) for(d=0;d<3;d++) p[i].x[d]=rdr(&l,-2,2); findpts_el_3(&o->u.e3,n,1e-12); for(i=0;i<n;i++){ fold(p[i].r,24); fold(&p[i].dist2,8); h=hfold(h,p[i].flags); } if(what&1){ double t[NP_]; findpts_el_eval_3(t,8,p[0].r,sizeof *p,n,o->w,&o->u.e3); fold(t,n*8); } }
      h_fold(h); break; }
    default: { static uint code[NP_],pr[NP_],el[NP_],sid[NP_]; static double rr[3*NP_],ds[NP_],x[3][NP_],out[NP_]; const double *xb[3]; unsigned xs[3]={8,8,8}; int n=rpct(&l,8)?0:1+(int)rn(&l,NP_),dim=o->dim; uint match=rn(&r,2); int far=rpct(&r,15);
      for(i=0;i<n;i++){ x[0][i]=rdr(&l,-1.1,o->kind>=KLOC2?3:4*np-2)+far*1000; if(o->kind>=KLOC2) x[0][i]+=4*(int)C.id; x[1][i]=rdr(&l,-1.15,1.15); x[2][i]=rdr(&l,-1.15,1.15); sid[i]=rn(&l,4); } for(d=0;d<3;d++) xb[d]=x[d];
      memset(pr,0,sizeof pr); memset(el,0,sizeof el); memset(rr,0,sizeof rr);
      switch(o->kind){ case KFP2: findpts_2(code,4,pr,4,el,4,rr,16,ds,8,xb,xs,n,o->f); break; case KFP3: findpts_3(code,4,pr,4,el,4,rr,24,ds,8,xb,xs,n,o->f); break;
        case KMS2: findptsms_2(code,4,pr,4,el,4,rr,16,ds,8,xb,xs,sid,4,&match,n,o->f); break; case KMS3: findptsms_3(code,4,pr,4,el,4,rr,24,ds,8,xb,xs,sid,4,&match,n,o->f); break;
        case KLOC2: findpts_local_2(code,4,el,4,rr,16,ds,8,xb,xs,n,&o->u.l2,b); break; case KLOC3: findpts_local_3(code,4,el,4,rr,24,ds,8,xb,xs,n,&o->u.l3,b); break;
        case KFFP: { fint one=1,nn=n,rs=dim; F(findpts)(&o->h,(int*)code,&one,(int*)pr,&one,(int*)el,&one,rr,&rs,ds,&one,x[0],&one,x[1],&one,x[2],&one,&nn); break; } }
      for(i=0;i<n;i++){ h_fold(code[i]); if(code[i]<2){ h_fold(pr[i]*1000003u+el[i]); fold(rr+dim*i,8*dim); fold(ds+i,8); } }
      for(i=0;i<n;i++) out[i]=-7.5;
      if(what&1) switch(o->kind){ case KFP2: findpts_eval_2(out,8,code,4,pr,4,el,4,rr,16,n,o->w,o->f); break; case KFP3: findpts_eval_3(out,8,code,4,pr,4,el,4,rr,24,n,o->w,o->f); break; case KMS2: findptsms_eval_2(out,8,code,4,pr,4,el,4,rr,16,n,o->w,o->f); break; case KMS3: findptsms_eval_3(out,8,code,4,pr,4,el,4,rr,24,n,o->w,o->f); break;
        case KFFP: { fint one=1,nn=n,rs=dim; F(findpts_eval)(&o->h,out,&one,(CI)code,&one,(CI)pr,&one,(CI)el,&one,rr,&rs,&nn,o->w); break; } default: break; }
      for(i=0;i<n;i++) if(code[i]<2) fold(out+i,8); } } }
/* what step k of the history does: possibly free an object, then use one */
struct step { int drop,use; };
static void step_of(uint64_t hs,int k,struct step *s){ struct rng r; r.s=mix64(hs,1000+k); s->use=(int)rn(&r,NS_); if(rpct(&r,45)){ struct step p; if(k){ step_of(hs,k-1,&p); s->use=p.use; } } s->drop=rpct(&r,25)?(int)rn(&r,NS_):-1; }
static void c28(struct ctx *c){ long chunk=c->idx/CH; int k=(int)(c->idx%CH),i,gen[NS_]={0}; uint64_t hs,us; struct step s={-1,0}; struct obj *o;
  /* the seed of the history: that of its first case, which the harness derives from the index */
  hs=mix64(0x6d6978,(uint64_t)chunk)^h_seed;
  if(!open_) comm_init(&C,MPI_COMM_WORLD),open_=1;
  if(live_chunk!=chunk){ for(i=0;i<NS_;i++) o_close(&O[i]); live_chunk=chunk; }
  for(i=0;i<=k;i++){ step_of(hs,i,&s); if(s.drop>=0) gen[s.drop]++; }
  if(s.drop>=0&&O[s.drop].live) o_close(&O[s.drop]),h_count("objects freed between the operations of others",1);
  o=&O[s.use]; us=mix64(hs,50000+k); if(rpct(&c->g,35)&&k) us=mix64(hs,50000+k-1-(int)rn(&c->g,k<3?k:3)); /* sometimes the data of an earlier step again */
  if(o->live&&o->gen!=gen[s.use]) o_close(o);
  if(!o->live){ o_open(o,mix64(hs,s.use*1000+gen[s.use]),hs); o->gen=gen[s.use]; h_count("objects made",1); }
  o_use(o,us); h_count("operations on live objects",1); vm_max("objects alive at once",nlive_);
  vm_sig(hfold(hfold(hs,k),c->np)); h_sample("np=%d step %d of its history: %s, object %d generation %d, %d alive",c->np,k,kname[o->kind],s.use,gen[s.use],nlive_); }
const struct prop h_props[]={ {"C28",c28,6,CH}, {0,0,0,0} };
