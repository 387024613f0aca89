/* C06: reductions, scans, point-to-point wrappers and communicator operations */
#include "config.h"
#include "h.h"
#include "gsu.h"
#include "sess.h"
#ifdef GSLIB_USE_MPI
# define IRES b   /* where a nonblocking reduction leaves its result */
#else
# define IRES v   /* alone, the data is the result */
#endif
#if NDOMS==5
#define REDUCE_LL comm_reduce_long_long
#else
#define REDUCE_LL(c,op,v,n) 0
#endif
static int ndoms(void){ return NDOMS; }
static void fillv(void *p,struct sess *s,uint64_t vs,int rank,int n,int dom,int op){ int i; (void)s; for(i=0;i<n;i++) num_set(p,dom,i,val_gen(vs,rank,i,0,dom,op,0,i)); }
static num redux(uint64_t vs,int from,int to,int i,int dom,int op){ num r=num_ident(dom,op); int k; for(k=from;k<to;k++){ num v=val_gen(vs,k,i,0,dom,op,0,i); r=k==from?v:num_op(r,v,dom,op); } return r; }
static void expect(const void *p,int i,int dom,num want,const char *key,const char *what,struct sess *s,int op,int n){ num got=num_get(p,dom,i); if(!num_eq(got,want,dom)){
  if(dom_is_fp(dom)) H_FAIL(key,"%s (%s %s, %d of %d elements, %d processes): process %d got %.17g want %.17g",what,domn[dom],opn[op],i,n,s->np,s->me,got.d,want.d);
  else H_FAIL(key,"%s (%s %s, %d of %d elements, %d processes): process %d got %lld want %lld",what,domn[dom],opn[op],i,n,s->np,s->me,got.i,want.i); } }
static int picklen(struct rng *r){ static const int t[]={0,1,1,2,3,5,8,17,40}; if(rn(r,1000)<3) return 65000+(int)rn(r,3000); if(rn(r,1000)<25) return rround(r,rpct(r,15)?70000:9000); if(rpct(r,3)) return 3000; return rpct(r,30)?(int)rn(r,64):t[rn(r,9)]; }
static void do_allreduce(struct sess *s,struct rng *r,struct comm *c,int nb){ int dom=(int)rn(r,ndoms()),op=(int)rn(r,5),n=picklen(r),i; size_t ds=domsize[dom]; uint64_t vs=r64(r); void *v=g_new(n*ds),*b=g_new(n*ds);
#ifndef GSLIB_USE_NBC
  if(nb&&n) op=gs_bpr;
#endif
  fillv(v,s,vs,s->me,n,dom,op);
  if(nb){ comm_req q; int order=(int)rn(r,2); comm_iallreduce(&q,c,(gs_dom)dom,(gs_op)op,v,n,b); if(order) comm_barrier(c); comm_wait(&q,1); g_check("comm_iallreduce"); for(i=0;i<n;i++) expect(IRES,i,dom,redux(vs,0,s->np,i,dom,op),"iallreduce-wrong","comm_iallreduce",s,op,n); }
  else { comm_allreduce(c,(gs_dom)dom,(gs_op)op,v,n,b); g_check("comm_allreduce"); for(i=0;i<n;i++) expect(v,i,dom,redux(vs,0,s->np,i,dom,op),"allreduce-wrong","comm_allreduce",s,op,n); }
  h_count("reduced elements checked",n); g_free(v); g_free(b); }
static void do_scan(struct sess *s,struct rng *r,struct comm *c){ int dom=(int)rn(r,ndoms()),op=(int)rn(r,5),n=picklen(r),i; size_t ds=domsize[dom]; uint64_t vs=r64(r); void *v=g_new(n*ds),*b=g_new(2*n*ds),*o=g_new(2*n*ds);
  fillv(v,s,vs,s->me,n,dom,op); g_freeze(v); comm_scan(o,c,(gs_dom)dom,(gs_op)op,v,n,b); g_check("comm_scan");
  for(i=0;i<n;i++) expect(o,i,dom,redux(vs,0,s->me,i,dom,op),"scan-wrong","comm_scan lower part",s,op,n), expect(o,n+i,dom,redux(vs,0,s->np,i,dom,op),"scan-wrong","comm_scan total",s,op,n);
  h_count("scanned elements checked",n); g_free(v); g_free(b); g_free(o); }
static void do_reduce(struct sess *s,struct rng *r,struct comm *c){ int dom=(int)rn(r,ndoms()),op=(int)rn(r,5),style=(int)rn(r,3),i,k,first=1; uint64_t vs=r64(r); int *n=hmalloc(s->np*sizeof(int)); num want=num_ident(dom,op),gv; void *v; union { double d; float f; int i; long l; long long q; } out;
  for(k=0;k<s->np;k++) n[k]=style==0?0:style==1?(int)rn(r,2):(int)rn(r,9);
  for(k=0;k<s->np;k++) for(i=0;i<n[k];i++){ num x=val_gen(vs,k,i,0,dom,op,0,0); want=first?x:num_op(want,x,dom,op); first=0; }
  v=g_new(n[s->me]*domsize[dom]); for(i=0;i<n[s->me];i++) num_set(v,dom,i,val_gen(vs,s->me,i,0,dom,op,0,0)); g_freeze(v);
  switch(dom){ case gs_double: out.d=comm_reduce_double(c,(gs_op)op,v,n[s->me]); break; case gs_float: out.f=comm_reduce_float(c,(gs_op)op,v,n[s->me]); break; case gs_int: out.i=comm_reduce_int(c,(gs_op)op,v,n[s->me]); break; case gs_long: out.l=comm_reduce_long(c,(gs_op)op,v,n[s->me]); break; default: out.q=REDUCE_LL(c,(gs_op)op,v,n[s->me]); }
  g_check("comm_reduce"); gv=num_get(&out,dom,0); (void)gv; expect(&out,0,dom,want,"reduce-wrong","comm_reduce",s,op,n[s->me]); h_count("scalar reductions checked",1); g_free(v); hfree(n); }
static void do_dot(struct sess *s,struct rng *r,struct comm *c){ int n,k,i; uint64_t vs=r64(r); double want=0,got,*a=0,*b=0; 
  for(k=0;k<s->np;k++){ n=(int)(mix64(vs,k)%23); if(k==s->me){ a=g_new(n*sizeof(double)); b=g_new(n*sizeof(double)); } for(i=0;i<n;i++){ double x=(double)((int)(mix64(vs+k,2*i)%2001)-1000),y=(double)((int)(mix64(vs+k,2*i+1)%2001)-1000); want+=x*y; if(k==s->me) a[i]=x,b[i]=y; } }
  g_freeze(a); g_freeze(b); n=(int)(mix64(vs,s->me)%23); got=comm_dot(c,a,b,n); g_check("comm_dot"); H_CHECK(got==want,"dot-wrong","comm_dot on %d processes: %.17g want %.17g",s->np,got,want); h_count("dot products checked",1); g_free(a); g_free(b); }
static void do_bcast(struct sess *s,struct rng *r,struct comm *c){ size_t n=rpct(r,10)?70000:rpct(r,10)?(unsigned)rround(r,140000):rn(r,60),i; int root=(int)rn(r,s->np); uint64_t vs=r64(r); char *p=g_new(n); for(i=0;i<n;i++) p[i]=(char)mix64(vs+s->me,i); comm_bcast(c,p,n,root); g_check("comm_bcast"); for(i=0;i<n;i++) H_CHECK(p[i]==(char)mix64(vs+root,i),"bcast-wrong","comm_bcast from %d: byte %d of %d wrong on process %d",root,(int)i,(int)n,s->me); h_count("broadcasts checked",1); g_free(p); }
static void do_gather(struct sess *s,struct rng *r,struct comm *c){ int n=(int)rn(r,30),i,k,root=(int)rn(r,s->np); uint64_t vs=r64(r); char *out=g_new(n),*in=g_new(s->me==root?(size_t)n*s->np:0); for(i=0;i<n;i++) out[i]=(char)mix64(vs+s->me,i); g_freeze(out); comm_gather(c,out,n,in,n,root); g_check("comm_gather");
  if(s->me==root) for(k=0;k<s->np;k++) for(i=0;i<n;i++) H_CHECK(in[k*n+i]==(char)mix64(vs+k,i),"gather-wrong","comm_gather to %d: byte %d of process %d wrong",root,i,k); h_count("gathers checked",1); g_free(out); g_free(in); }
static void do_p2p_(struct sess *s,struct rng *r,struct comm *c){ int shift=1+(int)rn(r,s->np),n=(int)rn(r,50),m=1+(int)rn(r,4),k,i,to=(s->me+shift)%s->np,from=(s->me-shift%s->np+s->np)%s->np; comm_req q[16]; char *o[8],*in[8]; uint64_t vs=r64(r); int tag0=(int)rn(r,100);
  if(rpct(r,20)&&s->np>1&&to!=s->me){ /* blocking pair along a chain */ char *b=g_new(n); if(s->me>0){ comm_recv(c,b,n,s->me-1,tag0); g_check("comm_recv"); for(i=0;i<n;i++) H_CHECK(b[i]==(char)mix64(vs,i),"p2p-wrong","comm_recv byte %d",i); } else for(i=0;i<n;i++) b[i]=(char)mix64(vs,i); if(s->me+1<s->np) comm_send(c,b,n,s->me+1,tag0); g_free(b); h_count("messages checked",1); return; }
  for(k=0;k<m;k++){ o[k]=g_new(n+k); in[k]=g_new(n+k); for(i=0;i<n+k;i++) o[k][i]=(char)mix64(vs+s->me*31+k,i); g_freeze(o[k]); }
  for(k=0;k<m;k++) comm_irecv(&q[k],c,in[k],n+k,from,tag0+k); for(k=m-1;k>=0;k--) comm_isend(&q[m+k],c,o[k],n+k,to,tag0+k);
  comm_wait(q,2*m); g_check("comm_isend/irecv"); for(k=0;k<m;k++){ for(i=0;i<n+k;i++) H_CHECK(in[k][i]==(char)mix64(vs+from*31+k,i),"p2p-wrong","message %d from %d byte %d wrong",k,from,i); g_free(o[k]); g_free(in[k]); } h_count("messages checked",m); }
static void do_p2p(struct sess *s,struct rng *r,struct comm *c){
#ifdef GSLIB_USE_MPI
  do_p2p_(s,r,c);
#else
  (void)do_p2p_; (void)s; (void)r; (void)c;
#endif
}
static void do_barrier(struct sess *s,struct rng *r,struct comm *c){
#ifdef GSLIB_USE_MPI
  /* the clock of vmpi is one for all processes and advances at every reading */
  double t[2],*all=hmalloc(2*(size_t)s->np*sizeof(double)),in,out; int k,n=(int)rn(r,3)+(int)(mix64(r64(r),s->me)%4); for(k=0;k<n;k++) (void)comm_time();
  t[0]=comm_time(); comm_barrier(c); t[1]=comm_time(); H_CHECK(t[1]>=t[0],"time-backwards","comm_time went back from %.17g to %.17g",t[0],t[1]); MPI_Allgather(t,2,MPI_DOUBLE,all,2,MPI_DOUBLE,c->c); in=all[0],out=all[1]; for(k=1;k<s->np;k++){ if(all[2*k]>in) in=all[2*k]; if(all[2*k+1]<out) out=all[2*k+1]; }
  H_CHECK(s->np==1||in<out,"barrier-passed","comm_barrier: a process of %d left at %.9g, another entered only at %.9g",s->np,out,in); hfree(all); h_count("barriers judged",1);
#else
  (void)s,(void)r; comm_barrier(c);
#endif
}
static void use(struct sess *s,struct rng *r,struct comm *c){ int i,n=1+(int)rn(r,3); for(i=0;i<n;i++) switch(rn(r,10)){ case 9: do_barrier(s,r,c); break; case 0: case 1: do_allreduce(s,r,c,0); break; case 2: do_allreduce(s,r,c,1); break; case 3: do_scan(s,r,c); break; case 4: do_reduce(s,r,c); break; case 5: do_dot(s,r,c); break; case 6: do_bcast(s,r,c); break; case 7: do_gather(s,r,c); break; default: do_p2p(s,r,c); } }
static void do_split(struct sess *s,struct rng *r){ struct comm d; struct sess t=*s; int k,nb=1+(int)rn(r,4),keys=(int)rn(r,3),me=0,np=0; uint64_t vs=r64(r),*who; int *bin=hmalloc(s->np*sizeof(int)),*key=hmalloc(s->np*sizeof(int)); struct rng q;
  for(k=0;k<s->np;k++) bin[k]=(int)(mix64(vs,k)%nb)*3+1, key[k]=keys==0?0:keys==1?-k:(int)(mix64(vs,90+k)%50)-25;
  comm_split(&s->c,bin[s->me],key[s->me],&d);
  for(k=0;k<s->np;k++) if(bin[k]==bin[s->me]){ np++; if(key[k]<key[s->me]||(key[k]==key[s->me]&&k<s->me)) me++; }
  H_CHECK((int)d.np==np&&(int)d.id==me,"split-wrong","comm_split: process %d of %d is %u of %u in its part, expected %d of %d",s->me,s->np,d.id,d.np,me,np);
  t.np=np,t.me=me; q.s=mix64(vs,5000+bin[s->me]); use(&t,&q,&d); (void)who; comm_free(&d); h_count("communicators split",1); hfree(bin); hfree(key); }
static void do_dup(struct sess *s,struct rng *r){ struct comm d; comm_dup(&d,&s->c); H_CHECK((int)d.np==s->np&&(int)d.id==s->me,"dup-wrong","comm_dup: %u of %u, expected %d of %d",d.id,d.np,s->me,s->np); 
#ifdef GSLIB_USE_MPI
  H_CHECK(d.c!=s->c.c,"dup-shared","comm_dup returned the same communicator");
#endif
  use(s,r,&d); use(s,r,&s->c); comm_free(&d); h_count("communicators duplicated",1); }
static void do_check(struct sess *s,struct rng *r){ struct comm d; comm_init_check(&d,MPI_Comm_c2f(s->mc),s->np); H_CHECK((int)d.np==s->np&&(int)d.id==s->me,"dup-wrong","comm_init_check: %u of %u",d.id,d.np); use(s,r,&d); comm_free(&d); }
static void c06(struct ctx *c){ struct sess s; struct rng r; int k,n; uint64_t sig; sess_open(&s,c); r.s=s.seed; n=1+(int)rn(&r,5); sig=hfold(r.s,s.np);
  for(k=0;k<n;k++){ switch(rn(&r,12)){ case 0: do_split(&s,&r); break; case 1: do_dup(&s,&r); break; case 2: do_check(&s,&r); break; case 3: do_barrier(&s,&r,&s.c); break; default: use(&s,&r,&s.c); } }
  vm_sig(sig); h_sample("np=%d steps=%d",s.np,n); sess_close(&s); }
const struct prop h_props[]={ {"C06",c06,24,32}, {0,0,0,0} };
