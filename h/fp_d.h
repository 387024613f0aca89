/* dimension-generic wrappers around the search routines; included with D = 2 and 3 */
#define P_(a,b) a##b
#define P2(a,b) P_(a,b)
#define N_(a) P2(P2(a,_),D)
/* one element */
static void *N_(el_new)(const int *n,unsigned nmax){ struct N_(findpts_el_data) *f=hmalloc(sizeof *f); unsigned nn[3]; int d; for(d=0;d<D;d++) nn[d]=n[d]; N_(findpts_el_setup)(f,nn,nmax); return f; }
static void N_(el_start)(void *f,const double *const *x){ N_(findpts_el_start)(f,x); }
static void N_(el_find)(void *f,const double *x,unsigned npt,double tol,double *r,double *d2,unsigned *fl){ struct N_(findpts_el_pt) *p=N_(findpts_el_points)(f); unsigned i; int d;
  for(i=0;i<npt;i++) for(d=0;d<D;d++) p[i].x[d]=x[i*D+d];
  N_(findpts_el)(f,npt,tol);
  for(i=0;i<npt;i++){ for(d=0;d<D;d++) r[i*D+d]=p[i].r[d]; d2[i]=p[i].dist2, fl[i]=p[i].flags; } }
static void N_(el_eval)(void *f,double *o,unsigned os,const double *r,unsigned rs,unsigned n,const double *in){ N_(findpts_el_eval)(o,os,r,rs,n,in,f); }
static void N_(el_free)(void *f){ N_(findpts_el_free)(f); hfree(f); }
/* elements of one process */
static void *N_(loc_new)(const struct fpar *a,const double *const *x,const int *n,unsigned nel){ struct N_(findpts_local_data) *f=hmalloc(sizeof *f); unsigned nn[3],mm[3]; int d; for(d=0;d<D;d++) nn[d]=n[d],mm[d]=a->m[d];
  N_(findpts_local_setup)(f,x,nn,nel,mm,a->bbtol,a->lhash,a->nmax,a->tol); return f; }
static void N_(loc_find)(void *f,const struct fout *o,const struct fin *q,unsigned npt,buffer *b){ const double *xb[D]; unsigned xs[D]; int d; for(d=0;d<D;d++) xb[d]=q->x[d],xs[d]=q->xst[d];
  N_(findpts_local)((uint*)o->f[0],o->st[0],(uint*)o->f[2],o->st[2],(double*)o->f[3],o->st[3],(double*)o->f[4],o->st[4],xb,xs,npt,f,b); }
static void N_(loc_eval)(void *f,double *o,unsigned os,const uint *el,unsigned es,const double *r,unsigned rs,unsigned n,const double *in){ N_(findpts_local_eval)(o,os,el,es,r,rs,n,in,f); }
static void N_(loc_free)(void *f){ N_(findpts_local_free)(f); hfree(f); }
/* distributed */
static void *N_(d_new)(const struct fpar *a,const struct comm *c,const double *const *x,const int *n,unsigned nel,const uint *sid,const double *dist){ unsigned nn[3],mm[3]; int d; for(d=0;d<D;d++) nn[d]=n[d],mm[d]=a->m[d];
  return sid?(void*)N_(findptsms_setup)(c,x,nn,nel,mm,a->bbtol,a->lhash,a->ghash,a->nmax,a->tol,sid,dist):(void*)N_(findpts_setup)(c,x,nn,nel,mm,a->bbtol,a->lhash,a->ghash,a->nmax,a->tol); }
static void N_(d_find)(void *f,const struct fout *o,const struct fin *q,unsigned npt){ const double *xb[D]; unsigned xs[D]; int d; for(d=0;d<D;d++) xb[d]=q->x[d],xs[d]=q->xst[d];
  if(q->sid) N_(findptsms)((uint*)o->f[0],o->st[0],(uint*)o->f[1],o->st[1],(uint*)o->f[2],o->st[2],(double*)o->f[3],o->st[3],(double*)o->f[4],o->st[4],xb,xs,q->sid,q->sidst,&q->match,npt,f);
  else N_(findpts)((uint*)o->f[0],o->st[0],(uint*)o->f[1],o->st[1],(uint*)o->f[2],o->st[2],(double*)o->f[3],o->st[3],(double*)o->f[4],o->st[4],xb,xs,npt,f); }
static void N_(d_eval)(void *f,double *out,unsigned os,const struct fout *o,unsigned npt,const double *in,int ms){
  if(ms) N_(findptsms_eval)(out,os,(uint*)o->f[0],o->st[0],(uint*)o->f[1],o->st[1],(uint*)o->f[2],o->st[2],(double*)o->f[3],o->st[3],npt,in,f);
  else N_(findpts_eval)(out,os,(uint*)o->f[0],o->st[0],(uint*)o->f[1],o->st[1],(uint*)o->f[2],o->st[2],(double*)o->f[3],o->st[3],npt,in,f); }
static void N_(d_free)(void *f,int ms){ if(ms) N_(findptsms_free)(f); else N_(findpts_free)(f); }
#undef P_
#undef P2
#undef N_
