#ifndef GSU_H
#define GSU_H
/* gather-scatter problem generator and oracle */
#include "gslib.h"
#if !defined(GSLIB_USE_LONG_LONG) && !defined(GSLIB_USE_GLOBAL_LONG_LONG)
#define gs_long_long ((gs_dom)4) /* this build has no such domain */
#define NDOMS 4
#else
#define NDOMS 5
#endif

struct pat { int np; int *n; slong **id; int D; int style; long total; };
/* group table of one pattern: distinct |id| */
struct grp { ulong id; int cnt, pos; };

static slong pat_label(struct rng *r,int style,int k){
  if(sizeof(slong)<8) style&=1;
  switch(style){ case 0: return k+1; case 1: return (slong)(((ulong)k+1)*1000003ULL); case 2: return (slong)(((ulong)1<<40)+(ulong)k*7+1);
    case 3: return (slong)(mix64(0x1234,k)>>2)+1; case 4: return (slong)(LLONG_MAX-k); default: return (slong)((ulong)(k+1)<<32); } }
static int pat_dense; /* make the next pattern share most of its labels */
static void pat_gen(struct pat *p,struct rng *r,int np,int maxn){
  int i,k,D,ls=(int)rn(r,6),style=(int)rn(r,8),pneg,pzero,pempty; static const int pn[]={0,0,20,50,90,100}, pz[]={0,0,10,40};
  p->np=np; p->style=style; p->n=hmalloc(np*sizeof(int)); p->id=hmalloc(np*sizeof(slong*)); p->total=0;
  D=1+(int)rn(r,rpct(r,30)?4:rpct(r,50)?maxn:maxn*np); p->D=D;
  if(pat_dense) p->style=style=(int)rn(r,2), p->D=D=style?1000000:1+maxn/(1+(int)rn(r,3));
  pneg=pn[rn(r,6)], pzero=pz[rn(r,4)], pempty=rpct(r,25)?40:0; if(pat_dense) pneg=rpct(r,20)?20:0,pzero=rpct(r,20)?10:0,pempty=0; 
  for(k=0;k<np;k++){ int n=pat_dense?maxn-(int)rn(r,1+maxn/4):(int)rn(r,maxn+1); if(rpct(r,pempty)) n=0; if(style==7&&k!=0&&rpct(r,70)) n=0;
    p->n[k]=n; p->id[k]=hmalloc((n+1)*sizeof(slong)); p->total+=n;
    for(i=0;i<n;i++){ int d; slong v;
      switch(style){
        default: d=(int)rn(r,D); break;                          /* random sharing */
        case 1: d=i%D; break;                                    /* all ranks share everything */
        case 2: d=k*3+(int)rn(r,6); break;                       /* chain of neighbours */
        case 3: d=k*maxn+(int)rn(r,maxn); break;                 /* nothing shared between ranks */
        case 4: d=rpct(r,80)?0:(int)rn(r,D); break;              /* one dominating group */
        case 5: d=rpct(r,50)?(int)rn(r,3):1000+k*maxn+i; break;  /* few shared, many private */
        case 6: d=(np-1-k)*2+(int)rn(r,4)+i/4; break; }
      v=pat_label(r,ls,d); if(rpct(r,pzero)) v=0; if(rpct(r,pneg)) v=-v; p->id[k][i]=v; }
    /* sometimes make one label uniformly flagged on this rank */
    if(n&&rpct(r,30)){ slong a=p->id[k][rn(r,n)]; if(a<0) a=-a; for(i=0;i<n;i++) if(p->id[k][i]==a) p->id[k][i]=-a; }
  } }
static void pat_free(struct pat *p){ int k; for(k=0;k<p->np;k++) hfree(p->id[k]); hfree(p->id); hfree(p->n); }
static ulong uabs(slong x){ return x<0?-(ulong)x:(ulong)x; }
static uint64_t pat_hash(const struct pat *p){ uint64_t h=p->np; int k,i; for(k=0;k<p->np;k++){ h=hfold(h,p->n[k]); for(i=0;i<p->n[k];i++) h=hfold(h,(uint64_t)p->id[k][i]); } return h; }

/* values: exactly representable numbers stored as double or 64-bit integer */
typedef union { double d; long long i; } num;
static const unsigned domsize[]={sizeof(double),sizeof(float),sizeof(int),sizeof(long),sizeof(long long)};
static int dom_is_fp(int dom){ return dom==gs_double||dom==gs_float; }
static num num_get(const void *p,int dom,size_t i){ num v; v.i=0; switch(dom){ case gs_double: v.d=((const double*)p)[i]; break; case gs_float: v.d=((const float*)p)[i]; break; case gs_int: v.i=((const int*)p)[i]; break; case gs_long: v.i=((const long*)p)[i]; break; default: v.i=((const long long*)p)[i]; } return v; }
static void num_set(void *p,int dom,size_t i,num v){ switch(dom){ case gs_double: ((double*)p)[i]=v.d; break; case gs_float: ((float*)p)[i]=(float)v.d; break; case gs_int: ((int*)p)[i]=(int)v.i; break; case gs_long: ((long*)p)[i]=(long)v.i; break; default: ((long long*)p)[i]=v.i; } }
static uint32_t bpr2(uint32_t a,uint32_t b){ if(!b) return a; if(!a) return b; while(a!=b){ if(a<b) b>>=1; else a>>=1; } return a; }
/* a test value for entry (rank,index,component); kind 1 = random reals (add only) */
static num val_gen(uint64_t vs,int rank,int i,int c,int dom,int op,int kind,ulong id){
  struct rng r; num v; double f; long long k; r.s=mix64(vs,((uint64_t)rank<<40)^((uint64_t)c<<24)^(uint64_t)i); v.i=0;
  if(kind==1){ f=rdr(&r,-1,1)*(rpct(&r,10)?1e6:1); if(dom==gs_float) f=(float)f; v.d=f; return v; }
  switch(op){
    case gs_add: k=ri(&r,-1000,1000); if(dom==gs_long||dom==gs_long_long) k=(long long)(r64(&r)>>20)-(1LL<<43); if(dom==gs_double) k=k*(1LL<<20)+7; break;
    case gs_mul: k=rpct(&r,50)?1:-1; if(i==(int)(id%7)&&rank<6) k*=2; if(i==3&&rank==0&&rpct(&r,5)) k=0; break;
    case gs_bpr: k=(long long)(r64(&r)>>(64-(1+rn(&r,20)))); if(rpct(&r,10)) k=0; if(dom==gs_float) k&=0xffffff; break;
    default: { static const double ex[]={0,1,-1,1e300,-1e300,DBL_MAX,-DBL_MAX,4.9e-324,-4.9e-324,2.3e-308}; static const float exf[]={0,1,-1,1e30f,-1e30f,FLT_MAX,-FLT_MAX,1.4e-45f,-1.4e-45f};
      static const long long exl[]={0,1,-1,LLONG_MAX,LLONG_MIN,INT_MAX,INT_MIN,1LL<<33,-(1LL<<33)}; static const int exi[]={0,1,-1,INT_MAX,INT_MIN,INT_MAX-1};
      int x=rpct(&r,30);
      if(dom==gs_double){ v.d=x?ex[rn(&r,10)]:rdr(&r,-1e3,1e3); return v; }
      if(dom==gs_float){ v.d=x?exf[rn(&r,9)]:(float)rdr(&r,-1e3,1e3); return v; }
      k=dom==gs_int?(x?exi[rn(&r,6)]:ri(&r,-1000000,1000000)):(x?exl[rn(&r,9)]:(long long)r64(&r)); } }
  if(dom_is_fp(dom)) v.d=(double)k; else v.i=k; return v; }
static num num_ident(int dom,int op){ num v; v.i=0; switch(op){ case gs_add: case gs_bpr: if(dom_is_fp(dom)) v.d=0; break; case gs_mul: if(dom_is_fp(dom)) v.d=1; else v.i=1; break;
  case gs_min: if(dom==gs_double) v.d=DBL_MAX; else if(dom==gs_float) v.d=FLT_MAX; else v.i=dom==gs_int?INT_MAX:LLONG_MAX; break;
  case gs_max: if(dom==gs_double) v.d=-DBL_MAX; else if(dom==gs_float) v.d=-FLT_MAX; else v.i=dom==gs_int?INT_MIN:LLONG_MIN; break; } return v; }
static num num_op(num a,num b,int dom,int op){ num v=a; if(dom_is_fp(dom)) switch(op){ case gs_add: v.d=a.d+b.d; break; case gs_mul: v.d=a.d*b.d; break; case gs_min: if(b.d<a.d) v=b; break; case gs_max: if(b.d>a.d) v=b; break; default: v.d=bpr2((uint32_t)a.d,(uint32_t)b.d); }
  else switch(op){ case gs_add: v.i=(long long)((unsigned long long)a.i+(unsigned long long)b.i); break; case gs_mul: v.i=a.i*b.i; break; case gs_min: if(b.i<a.i) v=b; break; case gs_max: if(b.i>a.i) v=b; break; default: v.i=bpr2((uint32_t)a.i,(uint32_t)b.i); } return v; }
static int num_eq(num a,num b,int dom){ return dom_is_fp(dom)?a.d==b.d:a.i==b.i; }

/* index over all entries sorted by |id| */
struct ent { ulong id; int rank, i; int neg; };
struct gix { struct ent *e; long n; };
static int ent_cmp(const void *a,const void *b){ const struct ent *x=a,*y=b; if(x->id!=y->id) return x->id<y->id?-1:1; if(x->rank!=y->rank) return x->rank-y->rank; return x->i-y->i; }
static void gix_make(struct gix *g,const struct pat *p){ int k,i; g->e=hmalloc((p->total+1)*sizeof *g->e); g->n=0; for(k=0;k<p->np;k++) for(i=0;i<p->n[k];i++) if(p->id[k][i]){ struct ent *e=&g->e[g->n++]; e->id=uabs(p->id[k][i]); e->rank=k; e->i=i; e->neg=p->id[k][i]<0; } qsort(g->e,g->n,sizeof *g->e,ent_cmp); }
static void gix_free(struct gix *g){ hfree(g->e); }

static const char *opn[]={"add","mul","min","max","bpr"}; static const char *domn[]={"double","float","int","long","long_long"}; static const char *metn[] __attribute__((unused))={"auto","pairwise","crystal","allreduce"};
/* check component c of the result on this rank.  get(c,i) reads result; original values are val_gen */
typedef num getter(void *arg,int c,int i);
static void gs_verify(const struct pat *p,const struct gix *g,int me,uint64_t vs,int comp,int dom,int op,int kind,int tr,getter *get,void *arg,const char *what){
  long a,b,j; 
  for(a=0;a<g->n;a=b){ int known=0; num red=num_ident(dom,op); long double sa=0,sr=0; int any=0,mine=0,nc=0;
    for(b=a;b<g->n&&g->e[b].id==g->e[a].id;b++) if(g->e[b].rank==me) mine=1;
    if(!mine) continue;
    for(j=a;j<b;j++) if(tr||!g->e[j].neg){ num v=val_gen(vs,g->e[j].rank,g->e[j].i,comp,dom,op,kind,g->e[j].id); if(kind==1){ sa+=fabsl((long double)v.d); sr+=v.d; } red=any?num_op(red,v,dom,op):v; any=1; nc++; }
    if(kind==1&&any) red.d=(double)sr;
    for(j=a;j<b;j++) if(g->e[j].rank==me){ struct ent *e=&g->e[j]; num got=get(arg,comp,e->i), want=red; int ok;
      if(tr&&e->neg) want=val_gen(vs,me,e->i,comp,dom,op,kind,e->id);
      if(kind==1&&!(tr&&e->neg)){ double eps=dom==gs_float?1.2e-7:2.3e-16; ok=fabs(got.d-want.d)<=eps*(nc+2)*(double)sa; }
      else ok=num_eq(got,want,dom);
      if(!ok&&tr&&e->neg){ /* analysed finding: all local members flagged, >=2 of them, one of them (the process' primary) holds the local partial reduction */
        long q,f=-1; int alln=1,m=0; num lp; long double ls=0; for(q=a;q<b;q++) if(g->e[q].rank==me){ num v=val_gen(vs,me,g->e[q].i,comp,dom,op,kind,e->id); if(f<0) f=q,lp=v; else lp=num_op(lp,v,dom,op); ls+=v.d; if(!g->e[q].neg) alln=0; m++; }
        if(alln&&m>=2&&!known++&&(kind==1?fabs(got.d-(double)ls)<=(dom==gs_float?1.2e-7:2.3e-16)*(nc+2)*(double)sa:num_eq(got,lp,dom))){ h_note("gs-transpose-flagged-primary","%s: id %llu entry %d of process %d is flagged, transpose=1, yet it was overwritten with the reduction of the %d flagged entries of its process",what,(unsigned long long)e->id,e->i,me,m); continue; } }
      if(!ok){ if(dom_is_fp(dom)) H_FAIL("gs-wrong-value","%s: process %d entry %d component %d (id %s%llu, %ld members): got %.17g want %.17g (%s %s transpose=%d)",what,me,e->i,comp,e->neg?"-":"",(unsigned long long)e->id,b-a,got.d,want.d,domn[dom],opn[op],tr);
        else H_FAIL("gs-wrong-value","%s: process %d entry %d component %d (id %s%llu, %ld members): got %lld want %lld (%s %s transpose=%d)",what,me,e->i,comp,e->neg?"-":"",(unsigned long long)e->id,b-a,got.i,want.i,domn[dom],opn[op],tr); } } }
  for(j=0;j<p->n[me];j++) if(p->id[me][j]==0){ num got=get(arg,comp,(int)j), want=val_gen(vs,me,(int)j,comp,dom,op,kind,0); if(!num_eq(got,want,dom)) H_FAIL("gs-zero-touched","%s: process %d entry %ld component %d has id 0 but was changed",what,me,j,comp); }
}
struct lay { void *base; void **arr; int vn,dom; };   /* layout: base -> packed vector of vn, arr -> separate arrays */
static num lay_get(void *a,int c,int i){ struct lay *l=a; return l->arr?num_get(l->arr[c],l->dom,i):num_get(l->base,l->dom,(size_t)i*l->vn+c); }
static void lay_fill(struct lay *l,const struct pat *p,int me,uint64_t vs,int op,int kind){ int i,c; for(i=0;i<p->n[me];i++) for(c=0;c<l->vn;c++){ num v=val_gen(vs,me,i,c,l->dom,op,kind,uabs(p->id[me][i])); if(l->arr) num_set(l->arr[c],l->dom,i,v); else num_set(l->base,l->dom,(size_t)i*l->vn+c,v); } }
static void lay_vec(struct lay *l,int n,int vn,int dom){ l->arr=0; l->vn=vn; l->dom=dom; l->base=g_new((size_t)n*vn*domsize[dom]); }
static void lay_many(struct lay *l,int n,int vn,int dom){ int c; l->base=0; l->vn=vn; l->dom=dom; l->arr=g_new(vn*sizeof(void*)); for(c=0;c<vn;c++) l->arr[c]=g_new((size_t)n*domsize[dom]); }
static void lay_check(const struct lay *l,const struct pat *p,const struct gix *g,int me,uint64_t vs,int op,int kind,int tr,const char *what){ int c; for(c=0;c<l->vn;c++) gs_verify(p,g,me,vs,c,l->dom,op,kind,tr,lay_get,(void*)l,what); }
#endif
