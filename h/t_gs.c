/* gather-scatter drivers: C01-C05, C23/C24/C25/C28 parts */
#include "h.h"
#include "gsu.h"
#include "sess.h"

static int ndoms(void){ return NDOMS; }
/* ---- one gs handle with its problem */
struct hp { struct pat p; struct gix g; struct gs_data *h; int method, unique; int np, me; uint64_t hash; };
static void hp_eff_unique(struct hp *q,struct sess *s);

static void hp_open(struct hp *q,struct sess *s,struct rng *r,int method,int unique,int maxn){
  slong *ids; q->np=s->np, q->me=s->me; pat_gen(&q->p,r,s->np,maxn); q->method=method; q->unique=unique; q->hash=pat_hash(&q->p)*31+method*2+unique;
  ids=g_dup(q->p.id[s->me],q->p.n[s->me]*sizeof(slong)); g_freeze(ids);
  q->h=gs_setup(ids,q->p.n[s->me],&s->c,unique,(gs_method)method,rpct(r,20));
  g_check("gs_setup"); g_free(ids);
  if(unique) hp_eff_unique(q,s);
  gix_make(&q->g,&q->p); h_count("gs handles set up",1); }
/* replace the pattern by what gs_unique makes of it (checked by C03) */
static void hp_eff_unique(struct hp *q,struct sess *s){ int k; int *ns=hmalloc(q->np*sizeof(int)); slong *ids=g_dup(q->p.id[s->me],q->p.n[s->me]*sizeof(slong)); slong *all; slong **rows;
  gs_unique(ids,q->p.n[s->me],&s->c);
  (void)ns; rows=q->p.id;
  /* gather over the session through plain MPI on the session's communicator */
  { int tot=0,*cnt=hmalloc(q->np*sizeof(int)),*dis=hmalloc(q->np*sizeof(int)); for(k=0;k<q->np;k++) cnt[k]=q->p.n[k]*(int)sizeof(slong),dis[k]=tot,tot+=cnt[k];
    all=hmalloc(tot+8); MPI_Allgatherv(ids,cnt[s->me],MPI_BYTE,all,cnt,dis,MPI_BYTE,s->mc);
    for(k=0;k<q->np;k++) memcpy(rows[k],(char*)all+dis[k],cnt[k]); hfree(cnt); hfree(dis); hfree(all); }
  g_free(ids); hfree(ns); }
static void hp_close(struct hp *q){ gs_free(q->h); gix_free(&q->g); pat_free(&q->p); }

enum { FORM_SCALAR, FORM_VEC, FORM_MANY };
struct opd { struct lay l; int form,vn,dom,op,kind,tr; uint64_t vs; buffer *buf, own; };
static void op_choose(struct opd *o,struct rng *r,int form){ o->form=form; o->vn=form==FORM_SCALAR?1:rpct(r,2)?0:rn(r,1000)<15?rpct(r,40)?1+rround(r,259):1+(int)rn(r,140):1+(int)rn(r,rpct(r,20)?9:4); o->dom=(int)rn(r,ndoms()); o->op=(int)rn(r,5); o->kind=(o->op==gs_add&&dom_is_fp(o->dom)&&rpct(r,40)); o->tr=(int)rn(r,2); o->vs=r64(r); }
static void op_prepare(struct opd *o,struct hp *q){ int n=q->p.n[q->me]; if(o->form==FORM_MANY) lay_many(&o->l,n,o->vn,o->dom); else lay_vec(&o->l,n,o->vn,o->dom); lay_fill(&o->l,&q->p,q->me,o->vs,o->op,o->kind); if(o->form==FORM_MANY){ g_freeze(o->l.arr); g_private(o->l.arr); } if(o->kind){ int k; if(o->l.arr) for(k=0;k<o->vn;k++) g_private(o->l.arr[k]); else g_private(o->l.base); } /* sums that are not exact may be rounded differently by each method */ }
static void op_verify(struct opd *o,struct hp *q,const char *what){ char b[128]; snprintf(b,sizeof b,"%s (method %s, unique %d, %s of %d)",what,metn[q->method],q->unique,o->form==FORM_SCALAR?"scalar":o->form==FORM_VEC?"vector":"many",o->vn); lay_check(&o->l,&q->p,&q->g,q->me,o->vs,o->op,o->kind,o->tr,b); h_count("gs results verified",(uint64_t)q->p.n[q->me]*o->vn); }
static void op_release(struct opd *o){ int c; if(o->l.arr){ for(c=0;c<o->vn;c++) g_free(o->l.arr[c]); g_free(o->l.arr); } else g_free(o->l.base); }
static void op_run(struct opd *o,struct hp *q){ 
  switch(o->form){ case FORM_SCALAR: gs(o->l.base,(gs_dom)o->dom,(gs_op)o->op,o->tr,q->h,o->buf); break;
    case FORM_VEC: gs_vec(o->l.base,o->vn,(gs_dom)o->dom,(gs_op)o->op,o->tr,q->h,o->buf); break;
    default: gs_many(o->l.arr,o->vn,(gs_dom)o->dom,(gs_op)o->op,o->tr,q->h,o->buf); } h_count("gs operations",1); }
static void bufs_free(buffer *b){ if(b->ptr) buffer_free(b); b->ptr=0,b->n=b->max=0; }

static int pick_maxn(struct rng *r,int np){ if(rn(r,1000)<4) return np<=3?(rpct(r,60)?70000+(int)rn(r,80000):60000+(int)rn(r,20000)):30000/np; static const int t[]={3,6,12,25,25,40}; if(rpct(r,3)) return 200; return t[rn(r,6)]; }

/* ---- C01 */
static void c01(struct ctx *c){ struct sess s; struct hp q; buffer b=null_buffer; struct rng r; int k,nop; struct opd o; uint64_t sig;
  sess_open(&s,c); r.s=s.seed; 
  { int mx=pick_maxn(&r,s.np); pat_dense=mx>40&&rpct(&r,50); hp_open(&q,&s,&r,(int)rn(&r,4),0,mx); pat_dense=0; } sig=q.hash;
  nop=1+(int)rn(&r,6);
  for(k=0;k<nop;k++){ op_choose(&o,&r,FORM_SCALAR); o.buf=rpct(&r,70)?&b:0; op_prepare(&o,&q); op_run(&o,&q); g_check("gs"); op_verify(&o,&q,"gs"); op_release(&o); sig=hfold(sig,o.dom*64+o.op*8+o.tr); }
  if(q.p.total>1){ vm_sig(sig); h_sample("np=%d method=%s style=%d entries=%ld groups<=%d calls=%d last=%s/%s transpose=%d",s.np,metn[q.method],q.p.style,q.p.total,q.p.D,nop,domn[o.dom],opn[o.op],o.tr); }
  hp_close(&q); bufs_free(&b); sess_close(&s); }

/* ---- C02 */
static void c02(struct ctx *c){ struct sess s; struct hp q; buffer b=null_buffer; struct rng r; int k,bulk; struct opd o; uint64_t sig; 
  sess_open(&s,c); r.s=s.seed; 
  bulk=pat_dense=rpct(&r,3); hp_open(&q,&s,&r,1+(int)rn(&r,3),rpct(&r,20),bulk?200+(int)rn(&r,6000/s.np):pick_maxn(&r,s.np)); sig=q.hash; pat_dense=0;
  if(rpct(&r,10)){ gs_free(q.h); q.h=gs_setup(q.p.id[s.me],q.p.n[s.me],&s.c,0,gs_auto,0); q.method=0; }
  for(k=0;k<2;k++){ struct rng keep; uint64_t s0,n1,nk; 
    op_choose(&o,&r,1+k); if(rpct(&r,50)||bulk) o.vn=rpct(&r,bulk?60:5)?13+(int)rn(&r,130):1+(int)rn(&r,12); keep=r; if(bulk) h_count("bulk exchanges",1); o.buf=rpct(&r,70)?&b:0; 
    op_prepare(&o,&q); s0=vm_stats()->sends+vm_stats()->colls; op_run(&o,&q); nk=vm_stats()->sends+vm_stats()->colls-s0; g_check("gs_vec/gs_many"); op_verify(&o,&q,"gs"); op_release(&o);
    sig=hfold(sig,o.dom*64+o.op*8+o.tr+o.vn*1024);
    { struct opd o1=o; o1.form=FORM_SCALAR; o1.vn=1; o1.buf=&b; op_prepare(&o1,&q); s0=vm_stats()->sends+vm_stats()->colls; op_run(&o1,&q); n1=vm_stats()->sends+vm_stats()->colls-s0; op_verify(&o1,&q,"gs"); op_release(&o1); }
    H_CHECK(n1==nk||!o.vn,"gs-message-count","%s on %d components sent %llu messages, one component needs %llu",k?"gs_many":"gs_vec",o.vn,(unsigned long long)nk,(unsigned long long)n1);
    h_count("message count comparisons",1); (void)keep; }
  if(q.p.total>1){ vm_sig(sig); h_sample("np=%d method=%s style=%d entries=%ld vn=%d %s/%s transpose=%d",s.np,metn[q.method],q.p.style,q.p.total,o.vn,domn[o.dom],opn[o.op],o.tr); }
  hp_close(&q); bufs_free(&b); sess_close(&s); }

/* ---- C03 */
static void c03(struct ctx *c){ struct sess s; struct pat p; struct gix g; struct rng r; slong *ids,**out; int k,i,tot=0,*cnt,*dis; slong *all; long a,b; int reps,rep; long nuniq=0;
  sess_open(&s,c); r.s=s.seed; pat_gen(&p,&r,s.np,pick_maxn(&r,s.np)); gix_make(&g,&p);
  ids=g_dup(p.id[s.me],p.n[s.me]*sizeof(slong)); reps=rpct(&r,30)?2:1;
  cnt=hmalloc(s.np*sizeof(int)); dis=hmalloc(s.np*sizeof(int)); for(k=0;k<s.np;k++) cnt[k]=p.n[k]*(int)sizeof(slong),dis[k]=tot,tot+=cnt[k]; all=hmalloc(tot+8); out=hmalloc(s.np*sizeof *out);
  for(rep=0;rep<reps;rep++){
    gs_unique(ids,p.n[s.me],&s.c); g_check("gs_unique");
    MPI_Allgatherv(ids,cnt[s.me],MPI_BYTE,all,cnt,dis,MPI_BYTE,s.mc); for(k=0;k<s.np;k++) out[k]=(slong*)((char*)all+dis[k]);
    for(i=0;i<p.n[s.me];i++){ H_CHECK(uabs(ids[i])==uabs(p.id[s.me][i]),"unique-id-changed","gs_unique: entry %d of process %d had id %lld and now %lld",i,s.me,(long long)p.id[s.me][i],(long long)ids[i]); }
    for(a=0;a<g.n;a=b){ int pos0=0,pos=0; for(b=a;b<g.n&&g.e[b].id==g.e[a].id;b++){ struct ent *e=&g.e[b]; slong v=out[e->rank][e->i]; if(!e->neg) pos0++; if(v>0){ pos++; H_CHECK(!e->neg,"unique-unflagged","gs_unique: entry %d of process %d was flagged (id %lld) and became positive",e->i,e->rank,(long long)-v); } }
      H_CHECK(pos==(pos0>0),"unique-count","gs_unique: id %llu had %d unflagged entries and now has %d, must be %d",(unsigned long long)g.e[a].id,pos0,pos,pos0>0); nuniq++; }
    if(rep){ for(i=0;i<p.n[s.me];i++) H_CHECK(ids[i]==p.id[s.me][i],"unique-not-idempotent","second gs_unique changed entry %d",i); }
    for(k=0;k<s.np;k++) memcpy(p.id[k],out[k],cnt[k]); gix_free(&g); gix_make(&g,&p); }
  h_count("ids checked for one owner",nuniq);
  /* the unique option equals marking a copy first: p now holds the marked ids */
  { struct hp q; struct opd o; slong *orig; buffer bf=null_buffer; int m; struct rng r0; 
    r0.s=s.seed; { struct pat p0; pat_gen(&p0,&r0,s.np,pick_maxn(&r0,s.np)); orig=g_dup(p0.id[s.me],p0.n[s.me]*sizeof(slong)); pat_free(&p0); } g_freeze(orig);
    q.p=p; q.g=g; q.np=s.np; q.me=s.me; q.unique=1; m=(int)rn(&r,4); q.method=m;
    q.h=gs_setup(orig,p.n[s.me],&s.c,1,(gs_method)m,rpct(&r,10)); g_check("gs_setup(unique)");
    for(k=0;k<3;k++){ op_choose(&o,&r,rpct(&r,70)?FORM_SCALAR:FORM_VEC); o.buf=&bf; op_prepare(&o,&q); op_run(&o,&q); op_verify(&o,&q,"gs after unique set-up"); op_release(&o); }
    gs_free(q.h); bufs_free(&bf); 
    if(p.total>1){ vm_sig(pat_hash(&p)*31+m); h_sample("np=%d entries=%ld distinct ids=%ld style=%d unique method=%s",s.np,p.total,nuniq,p.style,metn[m]); } }
  hfree(cnt); hfree(dis); hfree(all); hfree(out); gix_free(&g); pat_free(&p); sess_close(&s); }

/* ---- C04 */
#define NQ 100
static void op_start(struct opd *o,struct hp *q,int *hnd){ 
  switch(o->form){ case FORM_SCALAR: igs(o->l.base,(gs_dom)o->dom,(gs_op)o->op,o->tr,q->h,o->buf,hnd); break;
    case FORM_VEC: igs_vec(o->l.base,o->vn,(gs_dom)o->dom,(gs_op)o->op,o->tr,q->h,o->buf,hnd); break;
    default: igs_many(o->l.arr,o->vn,(gs_dom)o->dom,(gs_op)o->op,o->tr,q->h,o->buf,hnd); } h_count("nonblocking operations",1); }
static void noise_compute(struct rng *r,int me){ volatile double x=0; int i,n=(int)rn(r,50); for(i=0;i<n;i++) x+=i*me; }
static void c04(struct ctx *c){ struct sess s; struct hp q[NQ]; struct opd o[NQ]; int hnd[NQ],ord[NQ]; struct rng r; int nq,k,j,round,maxout=0; uint64_t sig=1; buffer bb=null_buffer; struct opd ob; 
  sess_open(&s,c); r.s=s.seed; nq=1+(int)rn(&r,5); if(rn(&r,1000)<8) nq=20+(int)rn(&r,NQ-20);
  for(k=0;k<nq;k++){ int m; 
#if defined(GSLIB_USE_NBC)||!defined(GSLIB_USE_MPI)
    m=(int)rn(&r,4);
#else
    m=1+(int)rn(&r,2);
#endif
    hp_open(&q[k],&s,&r,m,rpct(&r,15),nq>5?1+(int)rn(&r,6):pick_maxn(&r,s.np)); sig=hfold(sig,q[k].hash); memset(&o[k].own,0,sizeof o[k].own); }
  for(round=0;round<1+(int)rn(&r,3);round++){ int started=0,waited=0,st[NQ]={0}; 
    for(k=0;k<nq;k++){ ord[k]=k; op_choose(&o[k],&r,(int)rn(&r,3)); o[k].buf=rpct(&r,70)?&o[k].own:0; op_prepare(&o[k],&q[k]); hnd[k]=-1; sig=hfold(sig,o[k].form*1024+o[k].vn*128+o[k].op*8+o[k].dom); }
    rshuffle(&r,ord,nq);
    /* interleave starts and waits in a random order (identical on all processes) */
    while(waited<nq){
      if(started<nq&&(started==waited||rpct(&r,nq>5?90:60))){ k=ord[started++]; op_start(&o[k],&q[k],&hnd[k]); st[k]=1; 
        for(j=0;j<nq;j++) if(j!=k&&st[j]==1) H_CHECK(hnd[j]!=hnd[k],"igs-handle-reused","two outstanding nonblocking operations share handle %d",hnd[k]);
        if(started-waited>maxout) maxout=started-waited; }
      else { int cand[NQ],n=0; for(j=0;j<nq;j++) if(st[j]==1) cand[n++]=j; k=cand[rn(&r,n)]; gs_wait(hnd[k]); st[k]=2; waited++; 
        g_check("gs_wait"); op_verify(&o[k],&q[k],"nonblocking gs"); }
      /* other work in between: a blocking operation on an idle handle, setups, reductions */
      if(rpct(&r,25)){ for(j=0;j<nq;j++) if(st[j]!=1) break; if(j<nq){ op_choose(&ob,&r,(int)rn(&r,3)); ob.buf=rpct(&r,50)?&bb:0; op_prepare(&ob,&q[j]); op_run(&ob,&q[j]); op_verify(&ob,&q[j],"blocking gs between nonblocking ones"); op_release(&ob); } }
      if(rpct(&r,10)){ struct hp t; hp_open(&t,&s,&r,1+(int)rn(&r,3),0,8); hp_close(&t); }
      if(rpct(&r,10)){ int a=s.me+1,t; comm_allreduce(&s.c,gs_int,gs_add,&a,1,&t); H_CHECK(a==s.np*(s.np+1)/2,"allreduce-wrong","sum %d",a); }
      noise_compute(&r,s.me); }
    for(k=0;k<nq;k++) op_release(&o[k]); }
  vm_max("most operations outstanding at once",maxout);
  vm_sig(sig); h_sample("np=%d handles=%d methods=%s.. max outstanding=%d",s.np,nq,metn[q[0].method],maxout);
  for(k=0;k<nq;k++){ hp_close(&q[k]); bufs_free(&o[k].own); } bufs_free(&bb); sess_close(&s); }

/* ---- C05 Fortran interface */
#define F(x) fgslib_##x##_
typedef sint fint;
void F(gs_setup_pick)(fint*,const slong*,const fint*,const MPI_Fint*,const fint*,const fint*);
void F(gs_setup)(fint*,const slong*,const fint*,const MPI_Fint*,const fint*);
void F(gs_op)(const fint*,void*,const fint*,const fint*,const fint*);
void F(gs_op_vec)(const fint*,void*,const fint*,const fint*,const fint*,const fint*);
void F(gs_op_many)(const fint*,void*,void*,void*,void*,void*,void*,const fint*,const fint*,const fint*,const fint*);
void F(igs_op)(const fint*,void*,const fint*,const fint*,const fint*,fint*);
void F(igs_op_vec)(const fint*,void*,const fint*,const fint*,const fint*,const fint*,fint*);
void F(igs_op_many)(const fint*,void*,void*,void*,void*,void*,void*,const fint*,const fint*,const fint*,const fint*,fint*);
void F(gs_op_wait)(fint*);
void F(gs_op_fields)(const fint*,void*,const fint*,const fint*,const fint*,const fint*,const fint*);
void F(gs_free)(const fint*);
void F(gs_unique)(slong*,const fint*,const MPI_Fint*,const fint*);

struct fh { struct hp q; fint h; int live; };
static const int fdom[4]={-1,gs_double,gs_sint,gs_slong};
static void fh_open(struct fh *f,struct sess *s,struct rng *r,struct fh *all,int nall){ int few=nall>6; fint n,np=s->np,m; MPI_Fint fc=MPI_Comm_c2f(s->mc); slong *ids; int j;
  f->q.np=s->np,f->q.me=s->me; pat_gen(&f->q.p,r,s->np,few?1+(int)rn(r,5):pick_maxn(r,s->np)); f->q.unique=0; ids=g_dup(f->q.p.id[s->me],f->q.p.n[s->me]*sizeof(slong)); n=f->q.p.n[s->me];
  if(rpct(r,25)){ int k; struct hp *q=&f->q; int tot=0,*cnt=hmalloc(q->np*sizeof(int)),*dis=hmalloc(q->np*sizeof(int)); char *a;
    F(gs_unique)(ids,&n,&fc,&np); 
    for(k=0;k<q->np;k++) cnt[k]=q->p.n[k]*(int)sizeof(slong),dis[k]=tot,tot+=cnt[k]; a=hmalloc(tot+8); MPI_Allgatherv(ids,cnt[s->me],MPI_BYTE,a,cnt,dis,MPI_BYTE,s->mc);
    { struct gix g; long x,y; gix_make(&g,&q->p); for(x=0;x<g.n;x=y){ int p0=0,p1=0; for(y=x;y<g.n&&g.e[y].id==g.e[x].id;y++){ slong v=((slong*)(a+dis[g.e[y].rank]))[g.e[y].i]; H_CHECK(uabs(v)==g.e[y].id,"unique-id-changed","fgs_unique changed id"); if(!g.e[y].neg) p0=1; if(v>0) p1++; } H_CHECK(p0==p1,"unique-count","fgs_unique: id %llu has %d unflagged entries",(unsigned long long)g.e[x].id,p1); } gix_free(&g); }
    for(k=0;k<q->np;k++) memcpy(q->p.id[k],a+dis[k],cnt[k]); hfree(cnt),hfree(dis),hfree(a); h_count("Fortran unique calls",1); }
  g_freeze(ids); m=(int)rn(r,4); f->q.method=m;
  if(m==0&&rpct(r,50)) F(gs_setup)(&f->h,ids,&n,&fc,&np); else F(gs_setup_pick)(&f->h,ids,&n,&fc,&np,&m);
  g_check("fgs_setup"); g_free(ids); f->live=1; gix_make(&f->q.g,&f->q.p);
  for(j=0;j<nall;j++) if(&all[j]!=f&&all[j].live) H_CHECK(all[j].h!=f->h,"fgs-handle-reused","two live Fortran handles have the same number %d",(int)f->h); }
static void fh_close(struct fh *f){ F(gs_free)(&f->h); f->live=0; gix_free(&f->q.g); pat_free(&f->q.p); }
/* strided fields: one array, field c starts at c*stride */
struct flay { void *base; int stride,dom; };
static num flay_get(void *a,int c,int i){ struct flay *l=a; return num_get(l->base,l->dom,(size_t)c*l->stride+i); }
static int c05_nb(int m){
#if defined(GSLIB_USE_NBC)||!defined(GSLIB_USE_MPI)
  (void)m; return 1;
#else
  return m==1||m==2;
#endif
}
static void c05(struct ctx *c){ struct sess s; struct fh *f; struct rng r; int nh,step,steps,k,j; uint64_t sig=7; struct { int on,w; struct opd o; int fi; } *nb; int nnb=0;
  h_leak_slack=128; sess_open(&s,c); r.s=s.seed; nh=1+(int)rn(&r,4); steps=3+(int)rn(&r,12); if(rn(&r,1000)<6){ nh=40+(int)rn(&r,250); steps+=nh; h_count("histories with many handles",1); }
  f=hmalloc(nh*sizeof *f); memset(f,0,nh*sizeof *f); nb=hmalloc(nh*sizeof *nb); memset(nb,0,nh*sizeof *nb);
  for(k=0;k<nh;k++){ fh_open(&f[k],&s,&r,f,nh); sig=hfold(sig,pat_hash(&f[k].q.p)); }
  for(step=0;step<steps;step++){ struct opd o; fint dom,op,tr,vn; int act=(int)rn(&r,12); char *nm="";
    k=(int)rn(&r,nh);
    if(nb[k].on){ /* handle busy: wait for it */ F(gs_op_wait)(&nb[k].w); nb[k].on=0; nnb--; op_verify(&nb[k].o,&f[k].q,"Fortran nonblocking"); op_release(&nb[k].o); continue; }
    if(!f[k].live||act==0){ if(f[k].live) fh_close(&f[k]); if(rpct(&r,80)) fh_open(&f[k],&s,&r,f,nh); continue; }
    memset(&o,0,sizeof o); dom=1+(int)rn(&r,3); op=1+(int)rn(&r,4); tr=rpct(&r,50)?0:rpct(&r,70)?1:5;
    o.dom=fdom[dom]; o.op=op-1; o.tr=tr!=0; o.kind=(o.op==gs_add&&dom==1&&rpct(&r,40)); o.vs=r64(&r); sig=hfold(sig,act*4096+dom*256+op*16+tr);
    switch(act){
      case 1: case 2: case 3: nm="gs_op"; o.form=FORM_SCALAR; o.vn=1; op_prepare(&o,&f[k].q); F(gs_op)(&f[k].h,o.l.base,&dom,&op,&tr); break;
      case 4: case 5: nm="gs_op_vec"; o.form=FORM_VEC; vn=o.vn=rpct(&r,4)?0:rpct(&r,3)?7+(int)rn(&r,120):1+(int)rn(&r,6); op_prepare(&o,&f[k].q); F(gs_op_vec)(&f[k].h,o.l.base,&vn,&dom,&op,&tr); break;
      case 6: case 7: { void *u[6]; nm="gs_op_many"; o.form=FORM_MANY; vn=o.vn=1+(int)rn(&r,6); op_prepare(&o,&f[k].q); for(j=0;j<6;j++) u[j]=j<vn?o.l.arr[j]:0; F(gs_op_many)(&f[k].h,u[0],u[1],u[2],u[3],u[4],u[5],&vn,&dom,&op,&tr); break; }
      case 8: case 9: { struct flay l; fint stride=f[k].q.p.n[s.me]+(int)rn(&r,3),nf=rpct(&r,3)?8+(int)rn(&r,60):(int)rn(&r,8); int i,n=f[k].q.p.n[s.me]; char junk[8]; void *base; size_t ds=domsize[o.dom],tot=nf?((size_t)(nf-1)*stride+n)*ds:0; memset(junk,0x3c,8);
        l.stride=stride,l.dom=o.dom,l.base=base=g_new(tot); if(tot) memset(base,0x3c,tot); if(o.kind) g_private(base);
        for(j=0;j<nf;j++) for(i=0;i<n;i++) num_set(base,o.dom,(size_t)j*stride+i,val_gen(o.vs,s.me,i,j,o.dom,o.op,o.kind,uabs(f[k].q.p.id[s.me][i])));
        F(gs_op_fields)(&f[k].h,base,&stride,&nf,&dom,&op,&tr); g_check("gs_op_fields");
        for(j=0;j<nf;j++) gs_verify(&f[k].q.p,&f[k].q.g,s.me,o.vs,j,o.dom,o.op,o.kind,o.tr,flay_get,&l,"gs_op_fields");
        for(j=0;j+1<nf;j++) for(i=n;i<stride;i++) H_CHECK(!memcmp((char*)base+((size_t)j*stride+i)*ds,junk,ds),"gs-fields-gap-written","gs_op_fields wrote between the fields");
        g_free(base); h_count("Fortran operations",1); continue; }
      default: if(!c05_nb(f[k].q.method)){ continue; }
        o.form=(int)rn(&r,3); vn=o.vn=o.form==FORM_SCALAR?1:1+(int)rn(&r,6); op_prepare(&o,&f[k].q); nb[k].w=-1;
        if(o.form==FORM_SCALAR) F(igs_op)(&f[k].h,o.l.base,&dom,&op,&tr,&nb[k].w); else if(o.form==FORM_VEC) F(igs_op_vec)(&f[k].h,o.l.base,&vn,&dom,&op,&tr,&nb[k].w);
        else { void *u[6]; for(j=0;j<6;j++) u[j]=j<vn?o.l.arr[j]:0; F(igs_op_many)(&f[k].h,u[0],u[1],u[2],u[3],u[4],u[5],&vn,&dom,&op,&tr,&nb[k].w); }
        for(j=0;j<nh;j++) if(j!=k&&nb[j].on) H_CHECK(nb[j].w!=nb[k].w,"igs-handle-reused","two outstanding nonblocking operations share handle %d",nb[k].w);
        nb[k].on=1; nnb++; nb[k].o=o; nb[k].fi=k; h_count("Fortran nonblocking operations",1); vm_max("Fortran operations outstanding",nnb);
        continue; }
    g_check(nm); op_verify(&o,&f[k].q,nm); op_release(&o); h_count("Fortran operations",1); }
  for(k=0;k<nh;k++) if(nb[k].on){ F(gs_op_wait)(&nb[k].w); op_verify(&nb[k].o,&f[k].q,"Fortran nonblocking"); op_release(&nb[k].o); }
  vm_sig(sig); h_sample("np=%d handles=%d steps=%d",s.np,nh,steps);
  for(k=0;k<nh;k++) if(f[k].live) fh_close(&f[k]);
  hfree(f); hfree(nb); sess_close(&s); }

const struct prop h_props[]={ {"C01",c01,16,16}, {"C02",c02,16,16}, {"C03",c03,16,16}, {"C04",c04,12,12}, {"C05",c05,8,8}, {0,0,0,0} };
