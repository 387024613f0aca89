/* vmpi: an instrumented MPI stand-in.
   Ranks are forked processes; exactly one runs at a time (token), and the token moves only at MPI
   calls, under a seeded scheduler, so that every run is reproducible.  It behaves as adversarially
   as the MPI standard allows and monitors every call. */
#define _GNU_SOURCE
#include "mpi.h"
#include "vmpi.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <limits.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <linux/futex.h>

#if defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define VM_ASAN 1
# endif
# if __has_feature(memory_sanitizer)
#  define VM_MSAN 1
# endif
#endif
#if defined(__SANITIZE_ADDRESS__)
# undef VM_ASAN
# define VM_ASAN 1
#endif
#ifdef VM_ASAN
# include <sanitizer/asan_interface.h>
#endif
#ifdef VM_MSAN
# include <sanitizer/msan_interface.h>
# define SHADOW(p) ((void*)((uintptr_t)(p) ^ 0x500000000000ULL))
# define RAWFN __attribute__((no_sanitize("memory"),noinline))
#else
# define RAWFN
#endif

void *__real_malloc(size_t); void __real_free(void*); void *__real_realloc(void*,size_t);
void *__real_calloc(size_t,size_t);

#define ARENA_SIZE ((size_t)1<<30)
#define MAXOP 32768
#define MAXSLOT 2048
#define NEV 512
#define NSIGS 8192
#define NTEXT 64

enum { ST_NEW, ST_READY, ST_BLOCKED, ST_EXITED };
enum { OP_SEND=1, OP_RECV };
struct op { int used, kind, owner, ctx, src, dst, tag, csrc; size_t len; int match; int staged, late, delivered, refs; size_t off; int next; };
enum { C_BARRIER=1, C_BCAST, C_REDUCE, C_ALLREDUCE, C_SCAN, C_EXSCAN, C_GATHER, C_SCATTER, C_ALLGATHER, C_ALLTOALL, C_DUP, C_SPLIT, C_FREE };
static const char *cname[]={"?","Barrier","Bcast","Reduce","Allreduce","Scan","Exscan","Gather","Scatter","Allgather","Alltoall","Comm_dup","Comm_split","Comm_free"};
struct slot { int used, ctx, kind, n, narrived, nleft, root, dt, op, newctx, computed, order[VM_MAXNP];
  unsigned seq; long bytes; int arrived[VM_MAXNP], staged[VM_MAXNP], a[VM_MAXNP], b[VM_MAXNP];
  size_t off[VM_MAXNP], len[VM_MAXNP], roff; size_t cnt[VM_MAXNP][VM_MAXNP]; /* last: not cleared */ };
struct ev { int rank, kind, peer, tag, ctx; long len; };

struct W {
  int np; uint64_t seed, rng, sched, version; volatile uint64_t steps; volatile uint64_t beats;
  struct vm_mode mode;
  _Atomic int go[VM_MAXNP];
  volatile int state[VM_MAXNP]; uint64_t seen[VM_MAXNP]; const char *dummy;
  char what[VM_MAXNP][96];
  volatile long case_idx[VM_MAXNP];
  volatile int finished[VM_MAXNP], expect_exit[VM_MAXNP];
  volatile int violated; int vrank; long vcase; char vkey[160]; char vmsg[4096];
  volatile int aborted;
  int nextctx; double clock;
  /* internal barrier */
  volatile unsigned bar_gen; int bar_n; 
  size_t share_off[VM_MAXNP], share_len[VM_MAXNP];
  struct vm_stats stats[VM_MAXNP];
  struct op op[MAXOP]; int op_hint, nops; int sendq, recvq; /* queues of unmatched */
  int sendq_tail, recvq_tail;
  struct slot slot[MAXSLOT]; int slot_hw;
  struct ev ev[NEV]; uint64_t nev;
  uint64_t count[VM_NCOUNT]; char cname[VM_NCOUNT][48]; int cmax[VM_NCOUNT]; int ncount;
  uint64_t sig[NSIGS], sigs[NSIGS]; volatile int nsig;
  char text[NTEXT][2][700]; volatile int ntext;
  size_t arena_top; size_t freelist[48];
};
static struct W *W; static char *arena; static int me=-1;

double vm_maxgap; uint64_t vm_total_steps; static uint64_t last_steps;
const char *vm_count_name[VM_NCOUNT]; uint64_t vm_count_total[VM_NCOUNT];
void (*vm_sig_sink)(uint64_t,uint64_t); void (*vm_text_sink)(const char*,const char*);
uint64_t vm_last_world_steps(void){return last_steps;}

/* ---------------------------------------------------------------- raw memory */
RAWFN static void rawcpy(void *d,const void *s,size_t n){ __asm__ volatile("rep movsb":"+D"(d),"+S"(s),"+c"(n)::"memory"); }
RAWFN static void rawset(void *d,int v,size_t n){ __asm__ volatile("rep stosb":"+D"(d),"+c"(n):"a"(v):"memory"); }
/* staged block layout: payload, then (msan) shadow */
#ifdef VM_MSAN
# define STSZ(n) (2*(n)+16)
RAWFN static void stage_in(char *st,const void *p,size_t n){ rawcpy(st,p,n); rawcpy(st+n,SHADOW(p),n); }
RAWFN static void stage_out(void *p,const char *st,size_t n,size_t total){ rawcpy(p,st,n); rawcpy(SHADOW(p),st+total,n); }
RAWFN static void or_shadow(char *d,const char *s,size_t n){ size_t i; for(i=0;i<n;i++) d[i]|=s[i]; }
#else
# define STSZ(n) ((n)+16)
static void stage_in(char *st,const void *p,size_t n){ rawcpy(st,p,n); }
static void stage_out(void *p,const char *st,size_t n,size_t total){ (void)total; rawcpy(p,st,n); }
#endif
#if defined(__clang__)
# define NOSAN __attribute__((no_sanitize("memory","address","undefined"),noinline))
#else
# define NOSAN __attribute__((no_sanitize_address,no_sanitize_undefined,noinline))
#endif
NOSAN static uint64_t rawhash(const void *p,size_t n){ const unsigned char *c=p; uint64_t h=1469598103934665603ULL; size_t i;
  for(i=0;i+8<=n;i+=8){ uint64_t v; __builtin_memcpy(&v,c+i,8); h=(h^v)*1099511628211ULL; h^=h>>29; }
  for(;i<n;i++) h=(h^c[i])*1099511628211ULL; return h; }

static uint64_t rnd(void){ uint64_t z=(W->rng+=0x9e3779b97f4a7c15ULL); z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
static int pct(int p){ return (int)(rnd()%100)<p; }

static size_t ar_alloc(size_t n){ int c=6; size_t o; n+=16; while(((size_t)1<<c)<n) c++;
  if(W->freelist[c]){ o=W->freelist[c]; W->freelist[c]=*(size_t*)(arena+o-16); return o; }
  o=W->arena_top; W->arena_top+=(size_t)1<<c; if(W->arena_top>ARENA_SIZE){ fprintf(stderr,"vmpi: arena exhausted\n"); _exit(70);} 
  *(size_t*)(arena+o+8)=c; return o+16; }
static void ar_free(size_t o){ size_t c; if(!o) return; c=*(size_t*)(arena+o-8); *(size_t*)(arena+o-16)=W->freelist[c]; W->freelist[c]=o; }

/* ---------------------------------------------------------------- violations */
static void record(const char *key,const char *fmt,va_list ap){
  if(W->violated) return;
  W->vrank=me; W->vcase=me>=0?W->case_idx[me]:-1; snprintf(W->vkey,sizeof W->vkey,"%s",key);
  vsnprintf(W->vmsg,sizeof W->vmsg,fmt,ap); W->violated=1;
}
_Noreturn void vm_violation(const char *key,const char *fmt,...){
  va_list ap; va_start(ap,fmt); record(key,fmt,ap); va_end(ap); fflush(0); _exit(77); }
static void log_ev(int kind,int peer,int tag,int ctx,long len){
  struct ev *e=&W->ev[W->nev++%NEV]; e->rank=me,e->kind=kind,e->peer=peer,e->tag=tag,e->ctx=ctx,e->len=len;
  W->steps++; W->sched=(W->sched^(uint64_t)(me*64+kind))*1099511628211ULL; W->sched^=W->sched>>31; }

/* ---------------------------------------------------------------- token */
static void fwait(_Atomic int *a){ while(atomic_load(a)==0) syscall(SYS_futex,a,FUTEX_WAIT,0,NULL,NULL,0); atomic_store(a,0); }
static void fwake(_Atomic int *a){ atomic_store(a,1); syscall(SYS_futex,a,FUTEX_WAKE,1,NULL,NULL,0); }
static int runnable(int r){ return W->state[r]==ST_NEW||W->state[r]==ST_READY||(W->state[r]==ST_BLOCKED&&W->seen[r]<W->version); }
static void deadlock(void){
  char buf[3000]; int r,n=0; 
  for(r=0;r<W->np;r++) n+=snprintf(buf+n,sizeof buf-n,"  rank %d: %s\n",r,W->state[r]==ST_EXITED?"has finished":W->what[r]);
  vm_violation("deadlock","no process can make progress:\n%s",buf); }
static int pick(int not_me){
  int c[VM_MAXNP],n=0,r; 
  for(r=0;r<W->np;r++) if((r!=me||!not_me)&&runnable(r)) c[n++]=r;
  if(!n) return -1;
  switch(W->mode.policy){
    case 2: if(n>1){ int i,k=0; for(i=0;i<n;i++) if(c[i]!=W->mode.victim) c[k++]=c[i]; n=k; } break;
    case 3: { int i; for(i=0;i<n;i++) if(c[i]>me) return c[i]; return c[0]; }
  }
  return c[rnd()%n];
}
static void give(int r){ if(r==me) return; fwake(&W->go[r]); fwait(&W->go[me]); }
static void yield_(void){ /* scheduling point, still runnable */
  int r; if(W->np==1||W->mode.policy==1||!pct(W->mode.switch_pct)) return;
  W->state[me]=ST_READY; r=pick(0); if(r>=0&&r!=me) give(r); }
static void block(void){ /* condition false at current version */
  int r; W->state[me]=ST_BLOCKED; W->seen[me]=W->version; 
  r=pick(1); if(r<0){ deadlock(); } give(r); W->state[me]=ST_READY; }
static void changed(void){ W->version++; }

void vm_barrier(void){
  unsigned g=W->bar_gen; if(W->np==1) return;
  if(++W->bar_n==W->np){ W->bar_n=0; W->bar_gen++; changed(); return; }
  snprintf(W->what[me],sizeof W->what[me],"waiting at the end of the operation (harness barrier)");
  while(W->bar_gen==g) block(); }
void vm_gatherall(const void *mine,size_t n,void *all){ int r; size_t o;
  o=ar_alloc(STSZ(n)); stage_in(arena+o,mine,n); W->share_off[me]=o; vm_barrier();
  for(r=0;r<W->np;r++) stage_out((char*)all+r*n,arena+W->share_off[r],n,n);
  vm_barrier(); ar_free(o); }
void *vm_share(const void *mine,size_t n,size_t *ns,size_t *total){ int r; size_t o,t=0; char *all;
  o=ar_alloc(STSZ(n)); if(n) stage_in(arena+o,mine,n); W->share_off[me]=o; W->share_len[me]=n; vm_barrier();
  for(r=0;r<W->np;r++) t+=W->share_len[r];
  all=__real_malloc(t+1); *total=t; t=0;
  for(r=0;r<W->np;r++){ size_t l=W->share_len[r]; ns[r]=l; if(l) stage_out(all+t,arena+W->share_off[r],l,l); t+=l; }
  vm_barrier(); ar_free(o); return all; }

/* ---------------------------------------------------------------- local tables */
struct comm_ { int used,gen,ctx,n,me,derived; unsigned seq; int world[VM_MAXNP]; };
#define MAXCOMM 4096
static struct comm_ comms[MAXCOMM]; static int ncomms_live;
#define COMM_BASE 0x44000000
enum { R_NONE, R_SEND, R_RECV, R_COLL };
struct req_ { int used,type,op; uint32_t gen; void *buf; size_t len; uint64_t hash; char *orig; 
  /* coll */ int slot, ckind; const void *in; void *out; size_t inlen,outlen; int dt,cop,root,cm; uint64_t hash2; unsigned char pat; };
#define MAXREQL 8192
static struct req_ reqs[MAXREQL]; static int nreq_live, req_hw; static uint32_t req_gen=1;
static int inited, finalized_;
#define REQ_MAGIC 0x56ab000000000000LL

static struct comm_ *getcomm(MPI_Comm c,const char *fn){ int i=c-COMM_BASE;
  if(!inited) vm_violation("mpi-before-init","%s called before MPI_Init",fn);
  if(i<1||i>=MAXCOMM||!comms[i].used) vm_violation("mpi-bad-comm","%s: invalid or freed communicator 0x%x",fn,(unsigned)c);
  return &comms[i]; }
static MPI_Comm newcomm(int ctx,int n,const int *world,int mine){ int i;
  for(i=3;i<MAXCOMM;i++) if(!comms[i].used) break;
  if(i==MAXCOMM) vm_violation("mpi-too-many-comms","more than %d live communicators",MAXCOMM);
  comms[i].used=1, comms[i].ctx=ctx, comms[i].n=n, comms[i].me=mine, comms[i].seq=0, comms[i].derived=1;
  memcpy(comms[i].world,world,n*sizeof(int)); ncomms_live++; return COMM_BASE+i; }
static struct req_ *getreq(MPI_Request q,const char *fn){ int i; 
  if((q&0x7fff000000000000LL)!=REQ_MAGIC) vm_violation("mpi-bad-request","%s: request handle was never set by a communication call (0x%llx)",fn,q);
  i=(int)(q&0xffff); if(i>=MAXREQL||!reqs[i].used||reqs[i].gen!=(uint32_t)((q>>16)&0xffffffff))
    vm_violation("mpi-stale-request","%s: request handle is stale or already completed (0x%llx)",fn,q);
  return &reqs[i]; }
static MPI_Request mkreq(struct req_ **out){ int i; 
  for(i=0;i<MAXREQL;i++) if(!reqs[i].used) break;
  if(i<MAXREQL&&i>=req_hw) req_hw=i+1;
  if(i==MAXREQL) vm_violation("mpi-too-many-requests","more than %d outstanding requests",MAXREQL);
  memset(&reqs[i],0,sizeof reqs[i]); reqs[i].used=1; reqs[i].gen=++req_gen; reqs[i].slot=-1; reqs[i].op=-1; nreq_live++; *out=&reqs[i];
  return REQ_MAGIC|((long long)reqs[i].gen<<16)|i; }
static void rmreq(struct req_ *r){ if(r->orig) __real_free(r->orig); r->used=0; nreq_live--; while(req_hw>0&&!reqs[req_hw-1].used) req_hw--; }

static int dtsize(MPI_Datatype d){ switch(d){
  case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_UNSIGNED_CHAR: case MPI_BYTE: case MPI_PACKED: return 1;
  case MPI_SHORT: case MPI_UNSIGNED_SHORT: return 2;
  case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: return 4;
  case MPI_LONG: case MPI_UNSIGNED_LONG: case MPI_LONG_LONG_INT: case MPI_UNSIGNED_LONG_LONG: case MPI_DOUBLE: return 8; }
  vm_violation("mpi-bad-datatype","invalid datatype 0x%x",(unsigned)d); }

static void chkaddr(const void *p,size_t n,const char *fn,int w){
  (void)p;(void)n;(void)fn;(void)w;
#ifdef VM_ASAN
  if(n){ char *bad=__asan_region_is_poisoned((void*)p,n);
    if(bad){ fprintf(stderr,"vmpi: %s: buffer %p+%zu not addressable at %p\n",fn,p,n,(void*)bad);
      __asan_describe_address(bad); vm_violation("mpi-buffer-oob","%s: %s buffer of %zu bytes runs %s",fn,w?"receive":"send",n,"outside live memory"); } }
#endif
}
static void chkoverlap(const void *p,size_t n,int write,const char *fn){ int i; const char *a=p;
  if(!n||!nreq_live) return;
  for(i=0;i<req_hw;i++) if(reqs[i].used){ struct req_ *q=&reqs[i]; int qw; const char *b; size_t l; int k;
    for(k=0;k<2;k++){
      if(q->type==R_COLL){ if(k==0) b=q->in,l=q->inlen,qw=0; else b=q->out,l=q->outlen,qw=1; }
      else { if(k) break; b=q->buf,l=q->len,qw=q->type==R_RECV; }
      if(!l||!b) continue;
      if((write||qw)&&a<b+l&&b<a+n)
        vm_violation("mpi-buffer-overlap","%s: buffer of %zu bytes overlaps the buffer of a pending %s of %zu bytes",fn,n,qw?"receive":"send",l);
    } } }

/* ---------------------------------------------------------------- p2p engine */
static int newop(void){ int k,i=W->op_hint; for(k=0;k<MAXOP;k++,i=(i+1)%MAXOP) if(!W->op[i].used) break;
  if(k==MAXOP) vm_violation("mpi-too-many-ops","too many pending messages");
  W->op_hint=(i+1)%MAXOP; memset(&W->op[i],0,sizeof(struct op)); W->op[i].used=1; W->op[i].match=-1; W->op[i].next=-1; W->nops++; return i; }
static void unrefop(int i){ struct op *o=&W->op[i]; if(--o->refs==0){ if(o->off) ar_free(o->off); o->used=0; W->nops--; } }
static void enq(int *h,int *t,int i){ W->op[i].next=-1; if(*h<0) *h=*t=i; else W->op[*t].next=i, *t=i; }
static void deq(int *h,int *t,int prev,int i){ if(prev<0) *h=W->op[i].next; else W->op[prev].next=W->op[i].next; if(*t==i) *t=prev; W->op[i].next=-1; }
static void match(int s,int r){ struct op *S=&W->op[s],*R=&W->op[r];
  if(S->len>R->len) vm_violation("mpi-truncate","message of %zu bytes from rank %d (tag %d) is longer than the %zu byte receive on rank %d",S->len,S->owner,S->tag,R->len,R->owner);
  S->match=r, R->match=s;
  R->src=S->src; R->csrc=S->csrc; R->tag=S->tag; changed(); }
static int fits(struct op *s,struct op *r){ return s->ctx==r->ctx&&s->dst==r->dst&&(r->src==MPI_ANY_SOURCE||r->src==s->src)&&(r->tag==MPI_ANY_TAG||r->tag==s->tag); }
static int post_send(const void *buf,size_t len,int dst,int tag,struct comm_ *c,int late){
  int i=newop(),p,prev; struct op *o=&W->op[i];
  o->kind=OP_SEND,o->owner=me,o->ctx=c->ctx,o->src=me,o->csrc=c->me,o->dst=c->world[dst],o->tag=tag,o->len=len,o->late=late,o->refs=2; /* the sender and the receiver */
  if(!late){ o->off=ar_alloc(STSZ(len)); if(len) stage_in(arena+o->off,buf,len); o->staged=1; }
  for(prev=-1,p=W->recvq;p>=0;prev=p,p=W->op[p].next) if(fits(o,&W->op[p])){ deq(&W->recvq,&W->recvq_tail,prev,p); match(i,p); break; }
  if(o->match<0) enq(&W->sendq,&W->sendq_tail,i);
  changed(); return i; }
static int post_recv(size_t len,int src,int tag,struct comm_ *c){
  int i=newop(),p,prev,first=-1,fprev=-1; struct op *o=&W->op[i];
  o->kind=OP_RECV,o->owner=me,o->ctx=c->ctx,o->src=src==MPI_ANY_SOURCE?src:c->world[src],o->dst=me,o->tag=tag,o->len=len,o->refs=1;
  { int seen[VM_MAXNP]={0},n=0; 
    for(prev=-1,p=W->sendq;p>=0;prev=p,p=W->op[p].next) if(fits(&W->op[p],o)&&!seen[W->op[p].src]){ seen[W->op[p].src]=1; 
      if(rnd()%++n==0) first=p,fprev=prev; if(src!=MPI_ANY_SOURCE) break; } }
  if(first>=0){ deq(&W->sendq,&W->sendq_tail,fprev,first); match(first,i); } else enq(&W->recvq,&W->recvq_tail,i);
  changed(); return i; }
static void chk_send_intact(struct req_ *q){ if(rawhash(q->buf,q->len)!=q->hash)
  vm_violation("mpi-send-buffer-modified","a send buffer of %zu bytes was modified before the send completed",q->len); }
static void chk_recv_intact(struct req_ *q){ 
  if(q->pat&&q->len){ /* poison pattern must be untouched */ size_t i; const unsigned char *b=q->buf; 
#ifdef VM_MSAN
    (void)i;(void)b;
#else
    for(i=0;i<q->len;i++) if(b[i]!=(unsigned char)(q->pat+(i&7)*29)) vm_violation("mpi-recv-buffer-modified","a receive buffer of %zu bytes was written by the application (offset %zu) while the receive was pending",q->len,i);
#endif
  } }
/* try to move request q forward; returns 1 when complete */
static int coll_try(struct req_ *q,int force);
static int advance(struct req_ *q,int force){
  struct op *o;
  if(q->type==R_COLL) return coll_try(q,force);
  o=&W->op[q->op];
  if(q->type==R_SEND){
    if(!o->staged&&o->match>=0&&(force||!pct(W->mode.late_pct))){
      chkaddr(q->buf,q->len,"send completion",0); chk_send_intact(q);
      o->off=ar_alloc(STSZ(o->len)); if(o->len) stage_in(arena+o->off,q->buf,o->len); o->staged=1; changed(); }
    return o->staged; }
  if(!o->delivered&&o->match>=0&&W->op[o->match].staged&&(force||!pct(W->mode.late_pct))){
    struct op *s=&W->op[o->match];
    chkaddr(q->buf,q->len,"receive completion",1); chk_recv_intact(q);
    if(q->orig&&q->len>s->len) stage_out((char*)q->buf+s->len,q->orig+s->len,q->len-s->len,q->len);
    if(s->len) stage_out(q->buf,arena+s->off,s->len,s->len);
    q->pat=0; o->len=s->len; o->delivered=1; unrefop(o->match); changed(); }
  return o->delivered; }
static void progress(int force,struct req_ *except){ int i,k=nreq_live; 
  for(i=0;i<req_hw&&k>0;i++) if(reqs[i].used){ k--; if(&reqs[i]!=except) advance(&reqs[i],force); } }
static void finish(struct req_ *q,MPI_Status *st){
  if(q->type==R_SEND){ struct op *o=&W->op[q->op]; chk_send_intact(q); 
    { int i=q->op; (void)o; unrefop(i); } }
  else if(q->type==R_RECV){ struct op *o=&W->op[q->op]; 
    if(st&&st!=MPI_STATUS_IGNORE){ st->MPI_SOURCE=o->csrc,st->MPI_TAG=o->tag,st->MPI_ERROR=0,st->vm_count=(long long)o->len; }
    unrefop(q->op); W->stats[me].recvs++; }
  rmreq(q); }

static void enter(int kind,int peer,int tag,int ctx,long len){
  if(!inited) vm_violation("mpi-before-init","MPI call before MPI_Init");
  if(W->violated) _exit(78);
  log_ev(kind,peer,tag,ctx,len); yield_(); }

static MPI_Request do_isend(const void *buf,int count,MPI_Datatype dt,int dst,int tag,MPI_Comm cm,int sync,const char *fn){
  struct comm_ *c=getcomm(cm,fn); struct req_ *q; MPI_Request h; size_t len; int late;
  if(count<0) vm_violation("mpi-bad-count","%s: negative count %d",fn,count);
  len=(size_t)count*dtsize(dt);
  if(dst<0||dst>=c->n) vm_violation("mpi-bad-rank","%s: destination %d out of range 0..%d",fn,dst,c->n-1);
  if(tag<0||tag>MPI_TAG_UB) vm_violation("mpi-bad-tag","%s: tag %d invalid",fn,tag);
  enter(1,c->world[dst],tag,c->ctx,(long)len);
  chkaddr(buf,len,fn,0); chkoverlap(buf,len,0,fn);
  late=sync||pct(W->mode.sync_pct);
  h=mkreq(&q); q->type=R_SEND; q->buf=(void*)buf; q->len=len; q->hash=rawhash(buf,len);
  q->op=post_send(buf,len,dst,tag,c,late);
  W->stats[me].sends++; W->stats[me].send_bytes+=len;
  progress(0,q); return h; }
static MPI_Request do_irecv(void *buf,int count,MPI_Datatype dt,int src,int tag,MPI_Comm cm,const char *fn){
  struct comm_ *c=getcomm(cm,fn); struct req_ *q; MPI_Request h; size_t len;
  if(count<0) vm_violation("mpi-bad-count","%s: negative count %d",fn,count);
  len=(size_t)count*dtsize(dt);
  if(src!=MPI_ANY_SOURCE&&(src<0||src>=c->n)) vm_violation("mpi-bad-rank","%s: source %d out of range 0..%d",fn,src,c->n-1);
  if(tag!=MPI_ANY_TAG&&(tag<0||tag>MPI_TAG_UB)) vm_violation("mpi-bad-tag","%s: tag %d invalid",fn,tag);
  enter(2,src<0?-1:c->world[src],tag,c->ctx,(long)len);
  chkaddr(buf,len,fn,1); chkoverlap(buf,len,1,fn);
  h=mkreq(&q); q->type=R_RECV; q->buf=buf; q->len=len;
  if(len){ unsigned char *b=buf; size_t i; q->orig=__real_malloc(STSZ(len)); stage_in(q->orig,buf,len);
    q->pat=(unsigned char)(0x80|(rnd()&0x7f)); for(i=0;i<len;i++) b[i]=(unsigned char)(q->pat+(i&7)*29);
#ifdef VM_MSAN
    rawset(SHADOW(buf),0xff,len);
#endif
  }
  q->op=post_recv(len,src,tag,c);
  progress(0,q); return h; }
static void wait_set(int n,MPI_Request *r,MPI_Status *st,const char *fn){
  int i,done; struct req_ *q[64],**qq=q; 
  if(n>64) qq=__real_malloc(n*sizeof *qq);
  for(i=0;i<n;i++) qq[i]=r[i]==MPI_REQUEST_NULL?0:getreq(r[i],fn);
  for(i=0;i<n;i++){ int j; if(qq[i]&&n<2000) for(j=0;j<i;j++) if(qq[j]==qq[i]) vm_violation("mpi-dup-request","%s: the same request is listed twice",fn); }
  W->stats[me].waits++;
  for(;;){ int first=1;
    again:
    done=1; 
    /* randomised order of completion */
    { int s=n?(int)(rnd()%n):0; for(i=0;i<n;i++){ int k=(i+s)%n; if(qq[k]&&!advance(qq[k],1)) done=0; } }
    if(done) break;
    if(first){ first=0; progress(0,0); goto again; }
    progress(1,0);
    done=1; for(i=0;i<n;i++) if(qq[i]&&!advance(qq[i],1)) done=0;
    if(done) break;
    { int m=0; char *w=W->what[me]; m=snprintf(w,96,"blocked in %s on",fn);
      for(i=0;i<n&&m<80;i++) if(qq[i]&&!advance(qq[i],1)){ struct req_ *x=qq[i]; 
        if(x->type==R_COLL) m+=snprintf(w+m,96-m," %s",cname[x->ckind]); else { struct op *o=&W->op[x->op]; m+=snprintf(w+m,96-m," %s(%d,tag %d)",x->type==R_SEND?"send->":"recv<-",x->type==R_SEND?o->dst:o->src,o->tag); } } }
    block(); }
  for(i=0;i<n;i++) if(qq[i]){ finish(qq[i],st==MPI_STATUSES_IGNORE?0:st+i); r[i]=MPI_REQUEST_NULL; }
  if(qq!=q) __real_free(qq);
  if(W->violated) _exit(78); }

int MPI_Isend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c,MPI_Request*r){ *r=MPI_REQUEST_NULL; if(d==MPI_PROC_NULL) return 0; *r=do_isend(b,n,t,d,tag,c,0,"MPI_Isend"); return 0; }
int MPI_Issend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c,MPI_Request*r){ *r=MPI_REQUEST_NULL; if(d==MPI_PROC_NULL) return 0; *r=do_isend(b,n,t,d,tag,c,1,"MPI_Issend"); return 0; }
int MPI_Irecv(void*b,int n,MPI_Datatype t,int s,int tag,MPI_Comm c,MPI_Request*r){ *r=MPI_REQUEST_NULL; if(s==MPI_PROC_NULL) return 0; *r=do_irecv(b,n,t,s,tag,c,"MPI_Irecv"); return 0; }
int MPI_Send(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c){ MPI_Request r; if(d==MPI_PROC_NULL) return 0; r=do_isend(b,n,t,d,tag,c,0,"MPI_Send"); wait_set(1,&r,MPI_STATUSES_IGNORE,"MPI_Send"); return 0; }
int MPI_Ssend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c){ MPI_Request r; if(d==MPI_PROC_NULL) return 0; r=do_isend(b,n,t,d,tag,c,1,"MPI_Ssend"); wait_set(1,&r,MPI_STATUSES_IGNORE,"MPI_Ssend"); return 0; }
int MPI_Recv(void*b,int n,MPI_Datatype t,int s,int tag,MPI_Comm c,MPI_Status*st){ MPI_Request r; if(s==MPI_PROC_NULL) return 0; r=do_irecv(b,n,t,s,tag,c,"MPI_Recv"); wait_set(1,&r,st,"MPI_Recv"); return 0; }
int MPI_Sendrecv(const void*sb,int sn,MPI_Datatype st,int d,int stag,void*rb,int rn,MPI_Datatype rt,int s,int rtag,MPI_Comm c,MPI_Status*stat){
  MPI_Request r[2]; MPI_Status ss[2]; r[0]=r[1]=MPI_REQUEST_NULL; memset(ss,0,sizeof ss);
  if(s!=MPI_PROC_NULL) r[0]=do_irecv(rb,rn,rt,s,rtag,c,"MPI_Sendrecv"); if(d!=MPI_PROC_NULL) r[1]=do_isend(sb,sn,st,d,stag,c,0,"MPI_Sendrecv");
  wait_set(2,r,ss,"MPI_Sendrecv"); if(stat!=MPI_STATUS_IGNORE) *stat=ss[0]; return 0; }
int MPI_Wait(MPI_Request*r,MPI_Status*st){ enter(3,-1,0,0,1); wait_set(1,r,st,"MPI_Wait"); return 0; }
int MPI_Waitall(int n,MPI_Request*r,MPI_Status*st){ if(n<0) vm_violation("mpi-bad-count","MPI_Waitall: negative count"); enter(3,-1,0,0,n); wait_set(n,r,st,"MPI_Waitall"); return 0; }
static int any_try(int n,MPI_Request*r,int*idx,MPI_Status*st,int force){ int i,s=n?(int)(rnd()%n):0,act=0; for(i=0;i<n;i++){ int k=(i+s)%n; struct req_*q; if(r[k]==MPI_REQUEST_NULL) continue; act=1; q=getreq(r[k],"MPI_Waitany"); if(advance(q,force)){ finish(q,st); r[k]=MPI_REQUEST_NULL; *idx=k; return 1; } } if(!act){*idx=MPI_UNDEFINED; return 1;} return 0; }
int MPI_Waitany(int n,MPI_Request*r,int*idx,MPI_Status*st){ enter(3,-1,0,0,n); for(;;){ if(any_try(n,r,idx,st,1)) return 0; progress(1,0); if(any_try(n,r,idx,st,1)) return 0; snprintf(W->what[me],96,"blocked in MPI_Waitany"); block(); } }
int MPI_Waitsome(int n,MPI_Request*r,int*oc,int*idx,MPI_Status*st){ int k; MPI_Status s; *oc=0; MPI_Waitany(n,r,&k,&s); if(k==MPI_UNDEFINED){*oc=MPI_UNDEFINED; return 0;} idx[0]=k; if(st!=MPI_STATUSES_IGNORE) st[0]=s; *oc=1; return 0; }
int MPI_Test(MPI_Request*r,int*f,MPI_Status*st){ struct req_*q; enter(4,-1,0,0,1); if(*r==MPI_REQUEST_NULL){*f=1; return 0;} q=getreq(*r,"MPI_Test"); progress(0,q); if(advance(q,!pct(W->mode.late_pct/2))){ finish(q,st); *r=MPI_REQUEST_NULL; *f=1; } else { *f=0; 
    { int p; W->state[me]=ST_READY; p=pick(1); if(p>=0) give(p); } } return 0; }
int MPI_Testall(int n,MPI_Request*r,int*f,MPI_Status*st){ int i,d=1; enter(4,-1,0,0,n); for(i=0;i<n;i++) if(r[i]!=MPI_REQUEST_NULL&&!advance(getreq(r[i],"MPI_Testall"),1)) d=0; *f=d; if(d) wait_set(n,r,st,"MPI_Testall"); else { int p; progress(1,0); W->state[me]=ST_READY; p=pick(1); if(p>=0) give(p); } return 0; }
int MPI_Testany(int n,MPI_Request*r,int*idx,int*f,MPI_Status*st){ enter(4,-1,0,0,n); *f=any_try(n,r,idx,st,1); if(!*f){ int p; progress(1,0); W->state[me]=ST_READY; p=pick(1); if(p>=0) give(p); } return 0; }
static int find_probe(int src,int tag,struct comm_*c){ int p; struct op o; memset(&o,0,sizeof o); o.ctx=c->ctx,o.dst=me,o.src=src==MPI_ANY_SOURCE?src:c->world[src],o.tag=tag; for(p=W->sendq;p>=0;p=W->op[p].next) if(fits(&W->op[p],&o)) return p; return -1; }
int MPI_Iprobe(int s,int t,MPI_Comm cm,int*f,MPI_Status*st){ struct comm_*c=getcomm(cm,"MPI_Iprobe"); int p; enter(4,-1,t,c->ctx,0); p=find_probe(s,t,c); *f=p>=0; if(*f&&st!=MPI_STATUS_IGNORE) st->MPI_SOURCE=W->op[p].csrc,st->MPI_TAG=W->op[p].tag,st->vm_count=(long long)W->op[p].len; if(!*f){ int x; progress(1,0); W->state[me]=ST_READY; x=pick(1); if(x>=0) give(x);} return 0; }
int MPI_Probe(int s,int t,MPI_Comm cm,MPI_Status*st){ struct comm_*c=getcomm(cm,"MPI_Probe"); int p; enter(4,-1,t,c->ctx,0); while((p=find_probe(s,t,c))<0){ progress(1,0); if((p=find_probe(s,t,c))>=0) break; snprintf(W->what[me],96,"blocked in MPI_Probe"); block(); } if(st!=MPI_STATUS_IGNORE) st->MPI_SOURCE=W->op[p].csrc,st->MPI_TAG=W->op[p].tag,st->vm_count=(long long)W->op[p].len; return 0; }
int MPI_Request_free(MPI_Request*r){ vm_violation("mpi-request-free","MPI_Request_free on an active request"); (void)r; }
int MPI_Get_count(const MPI_Status*s,MPI_Datatype t,int*n){ *n=(int)(s->vm_count/dtsize(t)); return 0; }

/* ---------------------------------------------------------------- collectives */
static int slot_arrive(struct comm_ *c,int kind,int root,int dt,int op,long bytes,int a,int b){
  int i,k; struct slot *s=0; unsigned seq=c->seq++;
  for(i=0;i<W->slot_hw;i++) if(W->slot[i].used&&W->slot[i].ctx==c->ctx&&W->slot[i].seq==seq){ s=&W->slot[i]; break; }
  if(!s){ for(i=0;i<MAXSLOT;i++) if(!W->slot[i].used) break;
    if(i<MAXSLOT&&i>=W->slot_hw) W->slot_hw=i+1;
    if(i==MAXSLOT) vm_violation("mpi-too-many-collectives","too many pending collectives");
    s=&W->slot[i]; memset(s,0,offsetof(struct slot,cnt)); s->used=1,s->ctx=c->ctx,s->seq=seq,s->kind=kind,s->n=c->n,s->root=root,s->dt=dt,s->op=op,s->bytes=bytes;
    s->newctx=W->nextctx; W->nextctx+=VM_MAXNP+1; 
    { int j; for(j=0;j<c->n;j++) s->order[j]=j; for(j=c->n-1;j>0;j--){ int x=(int)(rnd()%(j+1)),t=s->order[j]; s->order[j]=s->order[x]; s->order[x]=t; } } }
  else if(s->kind!=kind||s->root!=root||s->dt!=dt||s->op!=op||s->bytes!=bytes)
    vm_violation("mpi-collective-mismatch","processes call different collectives on the same communicator: %s(bytes %ld, op %d, type %d, root %d) against %s(bytes %ld, op %d, type %d, root %d)",
      cname[s->kind],s->bytes,s->op-VM_OP_BASE,s->dt-VM_DT_BASE,s->root,cname[kind],bytes,op-VM_OP_BASE,dt-VM_DT_BASE,root);
  s->arrived[c->me]=1; s->a[c->me]=a; s->b[c->me]=b; s->narrived++; W->stats[me].colls++; changed(); return i; }
static void slot_put(int i,struct comm_ *c,const void *in,size_t len){ struct slot *s=&W->slot[i]; 
  chkaddr(in,len,cname[s->kind],0); s->off[c->me]=ar_alloc(STSZ(len)); s->len[c->me]=len; if(len) stage_in(arena+s->off[c->me],in,len); s->staged[c->me]=1; changed(); }
static void slot_get(int i,int from,void *out,size_t len){ struct slot *s=&W->slot[i]; if(len) stage_out(out,arena+s->off[from],len,s->len[from]); }
static void slot_leave(int i){ struct slot *s=&W->slot[i]; int k; if(++s->nleft==s->n){ for(k=0;k<s->n;k++) if(s->off[k]) ar_free(s->off[k]); if(s->roff) ar_free(s->roff); s->used=0; } }
static void coll_block(int i,const char *fn){ progress(1,0); snprintf(W->what[me],96,"blocked in %s (%d of %d processes have called it)",fn,W->slot[i].narrived,W->slot[i].n); }
static int all_staged(struct slot *s){ int k; if(s->narrived<s->n) return 0; for(k=0;k<s->n;k++) if(!s->staged[k]) return 0; return 1; }
static void wait_all(int i,const char *fn){ struct slot *s=&W->slot[i]; int k; for(;;){ if(all_staged(s)) return; { uint64_t v=W->version; coll_block(i,fn); if(v!=W->version) continue; } block(); (void)k; } }
static void wait_root(int i,int root,const char *fn){ struct slot *s=&W->slot[i]; for(;;){ if(s->staged[root]) return; { uint64_t v=W->version; coll_block(i,fn); if(v!=W->version) continue; } block(); } }

#define RED(T,LOGIC) do{ T *x=a; const T *y=b; size_t j; for(j=0;j<n;j++) switch(op){ \
  case MPI_SUM: x[j]=(T)(x[j]+y[j]); break; case MPI_PROD: x[j]=(T)(x[j]*y[j]); break; case MPI_MIN: if(y[j]<x[j]) x[j]=y[j]; break; case MPI_MAX: if(y[j]>x[j]) x[j]=y[j]; break; \
  LOGIC default: vm_violation("mpi-bad-op","invalid reduction operation 0x%x",(unsigned)op); } }while(0)
#define LOGIC_I case MPI_LAND: x[j]=x[j]&&y[j]; break; case MPI_LOR: x[j]=x[j]||y[j]; break; case MPI_BAND: x[j]&=y[j]; break; case MPI_BOR: x[j]|=y[j]; break; case MPI_LXOR: x[j]=!x[j]!=!y[j]; break; case MPI_BXOR: x[j]^=y[j]; break;
NOSAN static void redop(void *a,const void *b,size_t n,int dt,int op){
  switch(dt){
    case MPI_INT: RED(int,LOGIC_I); break; case MPI_UNSIGNED: RED(unsigned,LOGIC_I); break;
    case MPI_LONG: RED(long,LOGIC_I); break; case MPI_UNSIGNED_LONG: RED(unsigned long,LOGIC_I); break;
    case MPI_LONG_LONG_INT: RED(long long,LOGIC_I); break; case MPI_UNSIGNED_LONG_LONG: RED(unsigned long long,LOGIC_I); break;
    case MPI_FLOAT: RED(float,); break; case MPI_DOUBLE: RED(double,); break;
    case MPI_CHAR: case MPI_SIGNED_CHAR: RED(signed char,LOGIC_I); break; case MPI_UNSIGNED_CHAR: case MPI_BYTE: RED(unsigned char,LOGIC_I); break;
    case MPI_SHORT: RED(short,LOGIC_I); break; case MPI_UNSIGNED_SHORT: RED(unsigned short,LOGIC_I); break;
    default: vm_violation("mpi-bad-datatype","reduction on datatype 0x%x",(unsigned)dt); } }
static void slot_compute(struct slot *s){ int k; size_t len=s->len[0]; char *r; if(s->computed) return; 
  s->roff=ar_alloc(STSZ(len)); r=arena+s->roff; rawcpy(r,arena+s->off[s->order[0]],STSZ(len)-16);
  for(k=1;k<s->n;k++){ const char *x=arena+s->off[s->order[k]]; redop(r,x,len/dtsize(s->dt),s->dt,s->op);
#ifdef VM_MSAN
    or_shadow(r+len,x+len,len);
#endif
  }
  s->computed=1; }

int MPI_Barrier(MPI_Comm cm){ struct comm_*c=getcomm(cm,"MPI_Barrier"); int i; enter(5,-1,0,c->ctx,0); i=slot_arrive(c,C_BARRIER,0,0,0,0,0,0); slot_put(i,c,"",0); wait_all(i,"MPI_Barrier"); slot_leave(i); return 0; }
int MPI_Bcast(void*p,int n,MPI_Datatype t,int root,MPI_Comm cm){ struct comm_*c=getcomm(cm,"MPI_Bcast"); int i; size_t len=(size_t)n*dtsize(t); 
  if(n<0) vm_violation("mpi-bad-count","MPI_Bcast: negative count %d",n);
  if(root<0||root>=c->n) vm_violation("mpi-bad-rank","MPI_Bcast: root %d",root);
  enter(6,root,0,c->ctx,(long)len); chkaddr(p,len,"MPI_Bcast",1); chkoverlap(p,len,c->me!=root,"MPI_Bcast");
  i=slot_arrive(c,C_BCAST,root,0,0,(long)len,0,0); slot_put(i,c,p,c->me==root?len:0);
  if(c->me==root){ if(pct(W->mode.sync_pct)) wait_all(i,"MPI_Bcast"); } else { wait_root(i,root,"MPI_Bcast"); if(pct(W->mode.sync_pct)) wait_all(i,"MPI_Bcast"); slot_get(i,root,p,len); }
  slot_leave(i); return 0; }
static int allred(const void*in,void*out,int n,MPI_Datatype t,MPI_Op op,MPI_Comm cm,int kind,int root,const char*fn){
  struct comm_*c=getcomm(cm,fn); int i; size_t len; struct slot*s; int isroot;
  if(n<0) vm_violation("mpi-bad-count","%s: negative count %d",fn,n);
  len=(size_t)n*dtsize(t); enter(7,root,0,c->ctx,(long)len);
  if(op<=VM_OP_BASE||op>=VM_OP_END) vm_violation("mpi-bad-op","%s: invalid operation",fn);
  isroot=kind!=C_REDUCE||c->me==root;
  if(in==MPI_IN_PLACE) in=out; else if(isroot&&in!=out&&len&&(const char*)in<(char*)out+len&&(char*)out<(const char*)in+len) vm_violation("mpi-buffer-overlap","%s: input and output overlap",fn);
  else if(isroot&&in==out&&len) vm_violation("mpi-buffer-overlap","%s: input and output are the same buffer",fn);
  chkaddr(in,len,fn,0); chkoverlap(in,len,0,fn); if(isroot){ chkaddr(out,len,fn,1); chkoverlap(out,len,1,fn); }
  i=slot_arrive(c,kind,root,t,op,(long)len,0,0); s=&W->slot[i]; slot_put(i,c,in,len);
  if(kind==C_ALLREDUCE||(kind==C_REDUCE&&c->me==root)){ wait_all(i,fn); slot_compute(s); if(len) stage_out(out,arena+s->roff,len,len); }
  else if(kind==C_REDUCE){ if(pct(W->mode.sync_pct)) wait_all(i,fn); }
  else { int k,first=1; wait_all(i,fn); for(k=0;k<s->n;k++){ if(kind==C_SCAN?k>c->me:k>=c->me) break; if(first){ slot_get(i,k,out,len); first=0; } else redop(out,arena+s->off[k],n,t,op); } }
  slot_leave(i); return 0; }
int MPI_Allreduce(const void*in,void*out,int n,MPI_Datatype t,MPI_Op o,MPI_Comm c){ return allred(in,out,n,t,o,c,C_ALLREDUCE,0,"MPI_Allreduce"); }
int MPI_Reduce(const void*in,void*out,int n,MPI_Datatype t,MPI_Op o,int root,MPI_Comm c){ return allred(in,out,n,t,o,c,C_REDUCE,root,"MPI_Reduce"); }
int MPI_Scan(const void*in,void*out,int n,MPI_Datatype t,MPI_Op o,MPI_Comm c){ return allred(in,out,n,t,o,c,C_SCAN,0,"MPI_Scan"); }
int MPI_Exscan(const void*in,void*out,int n,MPI_Datatype t,MPI_Op o,MPI_Comm c){ return allred(in,out,n,t,o,c,C_EXSCAN,0,"MPI_Exscan"); }
/* nonblocking collectives: barrier, bcast, allreduce */
static MPI_Request icoll(struct comm_*c,MPI_Comm cm,int kind,const void*in,size_t inlen,void*out,size_t outlen,int dt,int op,int root,const char*fn){
  struct req_*q; MPI_Request h; 
  chkaddr(in,inlen,fn,0); chkoverlap(in,inlen,0,fn); chkaddr(out,outlen,fn,1); chkoverlap(out,outlen,1,fn);
  h=mkreq(&q); q->type=R_COLL; q->ckind=kind; q->in=in; q->inlen=inlen; q->out=out; q->outlen=outlen; q->dt=dt,q->cop=op,q->root=root,q->cm=cm-COMM_BASE; q->hash=rawhash(in,inlen);
  q->slot=slot_arrive(c,kind,root,dt,op,(long)(inlen>outlen?inlen:outlen),0,0);
  if(outlen&&out!=in){ unsigned char*b=out; size_t i; q->pat=(unsigned char)(0x80|(rnd()&0x7f)); for(i=0;i<outlen;i++) b[i]=(unsigned char)(q->pat+(i&7)*29);
#ifdef VM_MSAN
    rawset(SHADOW(out),0xff,outlen);
#endif
  }
  if(!pct(W->mode.sync_pct)) slot_put(q->slot,c,in,inlen);
  progress(0,q); return h; }
static int coll_try(struct req_*q,int force){ struct comm_*c=&comms[q->cm]; struct slot*s; 
  if(q->slot<0) return 1;
  s=&W->slot[q->slot];
  if(!s->staged[c->me]){ if(!force&&pct(W->mode.late_pct)) return 0; 
    if(rawhash(q->in,q->inlen)!=q->hash) vm_violation("mpi-send-buffer-modified","the input buffer of a pending nonblocking %s was modified",cname[q->ckind]);
    slot_put(q->slot,c,q->in,q->inlen); }
  if(q->ckind==C_BCAST?!s->staged[q->root]:!all_staged(s)) return 0;
  if(!force&&pct(W->mode.late_pct)) return 0;
  if(q->inlen&&q->in!=q->out&&rawhash(q->in,q->inlen)!=q->hash) vm_violation("mpi-send-buffer-modified","the input buffer of a pending nonblocking %s was modified",cname[q->ckind]);
  chkaddr(q->out,q->outlen,"nonblocking collective completion",1);
  if(q->pat){ struct req_ t=*q; t.buf=q->out; t.len=q->outlen; chk_recv_intact(&t); }
  if(q->ckind==C_ALLREDUCE){ slot_compute(s); if(q->outlen) stage_out(q->out,arena+s->roff,q->outlen,q->outlen); }
  else if(q->ckind==C_BCAST&&c->me!=q->root) slot_get(q->slot,q->root,q->out,q->outlen);
  slot_leave(q->slot); q->slot=-1; q->inlen=q->outlen=0; changed(); return 1; }
int MPI_Iallreduce(const void*in,void*out,int n,MPI_Datatype t,MPI_Op op,MPI_Comm cm,MPI_Request*r){ struct comm_*c=getcomm(cm,"MPI_Iallreduce"); size_t len; 
  if(n<0) vm_violation("mpi-bad-count","MPI_Iallreduce: negative count"); len=(size_t)n*dtsize(t); enter(8,-1,0,c->ctx,(long)len); if(in==MPI_IN_PLACE) in=out;
  else if(len&&(const char*)in<(char*)out+len&&(char*)out<(const char*)in+len) vm_violation("mpi-buffer-overlap","MPI_Iallreduce: input and output overlap");
  *r=icoll(c,cm,C_ALLREDUCE,in,len,out,len,t,op,0,"MPI_Iallreduce"); return 0; }
int MPI_Ibarrier(MPI_Comm cm,MPI_Request*r){ struct comm_*c=getcomm(cm,"MPI_Ibarrier"); enter(8,-1,0,c->ctx,0); *r=icoll(c,cm,C_BARRIER,"",0,0,0,0,0,0,"MPI_Ibarrier"); return 0; }
int MPI_Ibcast(void*p,int n,MPI_Datatype t,int root,MPI_Comm cm,MPI_Request*r){ struct comm_*c=getcomm(cm,"MPI_Ibcast"); size_t len=(size_t)n*dtsize(t); enter(8,-1,0,c->ctx,(long)len); 
  if(c->me==root) *r=icoll(c,cm,C_BCAST,p,len,0,0,0,0,root,"MPI_Ibcast"); else *r=icoll(c,cm,C_BCAST,"",0,p,len,0,0,root,"MPI_Ibcast"); return 0; }
static size_t cks(int n,MPI_Datatype t,const char*fn){ if(n<0) vm_violation("mpi-bad-count","%s: negative count %d",fn,n); return (size_t)n*dtsize(t); }
int MPI_Gather(const void*in,int n,MPI_Datatype t,void*out,int rn,MPI_Datatype rt,int root,MPI_Comm cm){ struct comm_*c=getcomm(cm,"MPI_Gather"); size_t len; int i,k;
  if(root<0||root>=c->n) vm_violation("mpi-bad-rank","MPI_Gather: root %d",root);
  if(c->me==root){ len=cks(rn,rt,"MPI_Gather"); if(in!=MPI_IN_PLACE&&cks(n,t,"MPI_Gather")!=len) vm_violation("mpi-count-mismatch","MPI_Gather: send and receive sizes differ (%zu, %zu)",cks(n,t,""),len); } else len=cks(n,t,"MPI_Gather");
  enter(9,root,0,c->ctx,(long)len); i=slot_arrive(c,C_GATHER,root,0,0,(long)len,0,0);
  if(c->me==root){ chkaddr(out,len*c->n,"MPI_Gather",1); chkoverlap(out,len*c->n,1,"MPI_Gather"); slot_put(i,c,in==MPI_IN_PLACE?(char*)out+len*root:in,len); wait_all(i,"MPI_Gather"); for(k=0;k<c->n;k++) slot_get(i,k,(char*)out+k*len,len); }
  else { slot_put(i,c,in,len); if(pct(W->mode.sync_pct)) wait_all(i,"MPI_Gather"); } slot_leave(i); return 0; }
int MPI_Gatherv(const void*in,int n,MPI_Datatype t,void*out,const int*rn,const int*dp,MPI_Datatype rt,int root,MPI_Comm cm){ struct comm_*c=getcomm(cm,"MPI_Gatherv"); int i,k; 
  enter(9,root,0,c->ctx,n); i=slot_arrive(c,C_GATHER,root,0,0,-1,0,0);
  if(c->me==root){ slot_put(i,c,in==MPI_IN_PLACE?(char*)out+(size_t)dp[root]*dtsize(rt):in,in==MPI_IN_PLACE?cks(rn[root],rt,""):cks(n,t,"MPI_Gatherv")); wait_all(i,"MPI_Gatherv"); for(k=0;k<c->n;k++){ if(W->slot[i].len[k]!=cks(rn[k],rt,"MPI_Gatherv")) vm_violation("mpi-count-mismatch","MPI_Gatherv: rank %d sends %zu bytes, root expects %zu",k,W->slot[i].len[k],cks(rn[k],rt,"")); chkaddr((char*)out+(size_t)dp[k]*dtsize(rt),W->slot[i].len[k],"MPI_Gatherv",1); slot_get(i,k,(char*)out+(size_t)dp[k]*dtsize(rt),W->slot[i].len[k]); } }
  else slot_put(i,c,in,cks(n,t,"MPI_Gatherv")); slot_leave(i); return 0; }
int MPI_Scatter(const void*in,int n,MPI_Datatype t,void*out,int rn,MPI_Datatype rt,int root,MPI_Comm cm){ struct comm_*c=getcomm(cm,"MPI_Scatter"); size_t len=c->me==root?cks(n,t,"MPI_Scatter"):cks(rn,rt,"MPI_Scatter"); int i;
  enter(9,root,0,c->ctx,(long)len); i=slot_arrive(c,C_SCATTER,root,0,0,(long)len,0,0); slot_put(i,c,in,c->me==root?len*c->n:0); wait_root(i,root,"MPI_Scatter");
  if(!(c->me==root&&out==MPI_IN_PLACE)){ struct slot*s=&W->slot[i]; chkaddr(out,len,"MPI_Scatter",1); if(len) stage_out(out,arena+s->off[root]+len*c->me,len,s->len[root]); } slot_leave(i); return 0; }
int MPI_Allgather(const void*in,int n,MPI_Datatype t,void*out,int rn,MPI_Datatype rt,MPI_Comm cm){ struct comm_*c=getcomm(cm,"MPI_Allgather"); size_t len=cks(rn,rt,"MPI_Allgather"); int i,k; 
  if(in!=MPI_IN_PLACE&&cks(n,t,"MPI_Allgather")!=len) vm_violation("mpi-count-mismatch","MPI_Allgather: send and receive sizes differ");
  enter(9,-1,0,c->ctx,(long)len); chkaddr(out,len*c->n,"MPI_Allgather",1); chkoverlap(out,len*c->n,1,"MPI_Allgather"); i=slot_arrive(c,C_ALLGATHER,0,0,0,(long)len,0,0); slot_put(i,c,in==MPI_IN_PLACE?(char*)out+len*c->me:in,len); wait_all(i,"MPI_Allgather"); for(k=0;k<c->n;k++) slot_get(i,k,(char*)out+k*len,len); slot_leave(i); return 0; }
int MPI_Allgatherv(const void*in,int n,MPI_Datatype t,void*out,const int*rn,const int*dp,MPI_Datatype rt,MPI_Comm cm){ struct comm_*c=getcomm(cm,"MPI_Allgatherv"); int i,k,e=dtsize(rt); 
  enter(9,-1,0,c->ctx,n); i=slot_arrive(c,C_ALLGATHER,0,0,0,-1,0,0); if(in==MPI_IN_PLACE) slot_put(i,c,(char*)out+(size_t)dp[c->me]*e,cks(rn[c->me],rt,"")); else slot_put(i,c,in,cks(n,t,"MPI_Allgatherv")); wait_all(i,"MPI_Allgatherv");
  for(k=0;k<c->n;k++){ size_t l=W->slot[i].len[k]; if(l!=cks(rn[k],rt,"MPI_Allgatherv")) vm_violation("mpi-count-mismatch","MPI_Allgatherv: rank %d sends %zu bytes, %zu expected",k,l,cks(rn[k],rt,"")); chkaddr((char*)out+(size_t)dp[k]*e,l,"MPI_Allgatherv",1); slot_get(i,k,(char*)out+(size_t)dp[k]*e,l); } slot_leave(i); return 0; }
int MPI_Alltoall(const void*in,int n,MPI_Datatype t,void*out,int rn,MPI_Datatype rt,MPI_Comm cm){ struct comm_*c=getcomm(cm,"MPI_Alltoall"); size_t len=cks(rn,rt,"MPI_Alltoall"); int i,k; 
  if(in==MPI_IN_PLACE) in=out; else if(cks(n,t,"MPI_Alltoall")!=len) vm_violation("mpi-count-mismatch","MPI_Alltoall: sizes differ");
  enter(9,-1,0,c->ctx,(long)len); i=slot_arrive(c,C_ALLTOALL,0,0,0,(long)len,0,0); slot_put(i,c,in,len*c->n); wait_all(i,"MPI_Alltoall"); for(k=0;k<c->n;k++) if(len) stage_out((char*)out+k*len,arena+W->slot[i].off[k]+len*c->me,len,W->slot[i].len[k]); slot_leave(i); return 0; }
int MPI_Alltoallv(const void*in,const int*sn,const int*sd,MPI_Datatype t,void*out,const int*rn,const int*rd,MPI_Datatype rt,MPI_Comm cm){ struct comm_*c=getcomm(cm,"MPI_Alltoallv"); int i,k,e=dtsize(t),re=dtsize(rt); size_t tot=0,o; char*pk; struct slot*s;
  enter(9,-1,0,c->ctx,0); for(k=0;k<c->n;k++) tot+=cks(sn[k],t,"MPI_Alltoallv"); pk=__real_malloc(tot+1); 
  for(o=0,k=0;k<c->n;k++){ size_t l=cks(sn[k],t,""); memcpy(pk+o,(const char*)in+(size_t)sd[k]*e,l); o+=l; }
  i=slot_arrive(c,C_ALLTOALL,0,0,0,-1,0,0); s=&W->slot[i]; for(k=0;k<c->n;k++) s->cnt[c->me][k]=cks(sn[k],t,""); slot_put(i,c,pk,tot); __real_free(pk); wait_all(i,"MPI_Alltoallv");
  for(k=0;k<c->n;k++){ int j; size_t l=s->cnt[k][c->me]; for(o=0,j=0;j<c->me;j++) o+=s->cnt[k][j]; if(l!=cks(rn[k],rt,"MPI_Alltoallv")) vm_violation("mpi-count-mismatch","MPI_Alltoallv: rank %d sends %zu bytes, %zu expected",k,l,cks(rn[k],rt,"")); if(l) stage_out((char*)out+(size_t)rd[k]*re,arena+s->off[k]+o,l,s->len[k]); } slot_leave(i); return 0; }

/* ---------------------------------------------------------------- communicators */
int MPI_Comm_rank(MPI_Comm c,int*r){ *r=getcomm(c,"MPI_Comm_rank")->me; return 0; }
int MPI_Comm_size(MPI_Comm c,int*n){ *n=getcomm(c,"MPI_Comm_size")->n; return 0; }
int MPI_Comm_dup(MPI_Comm cm,MPI_Comm*out){ struct comm_*c=getcomm(cm,"MPI_Comm_dup"); int i; enter(10,-1,0,c->ctx,0); i=slot_arrive(c,C_DUP,0,0,0,0,0,0); slot_put(i,c,"",0); wait_all(i,"MPI_Comm_dup"); *out=newcomm(W->slot[i].newctx,c->n,c->world,c->me); W->stats[me].dups++; slot_leave(i); return 0; }
int MPI_Comm_split(MPI_Comm cm,int color,int key,MPI_Comm*out){ struct comm_*c=getcomm(cm,"MPI_Comm_split"); int i,k,n=0,g[VM_MAXNP],ci=0,mine=-1,w[VM_MAXNP]; struct slot*s; 
  enter(11,-1,color,c->ctx,key); i=slot_arrive(c,C_SPLIT,0,0,0,0,color,key); slot_put(i,c,"",0); wait_all(i,"MPI_Comm_split"); s=&W->slot[i];
  if(color==MPI_UNDEFINED) *out=MPI_COMM_NULL; else { 
    for(k=0;k<s->n;k++) if(s->a[k]==color){ int j=n++; while(j>0&&s->b[g[j-1]]>s->b[k]) g[j]=g[j-1],j--; g[j]=k; }
    for(k=0;k<s->n;k++) if(s->a[k]<color&&s->a[k]!=MPI_UNDEFINED){ int j,dup=0; for(j=0;j<k;j++) if(s->a[j]==s->a[k]) dup=1; if(!dup) ci++; }
    for(k=0;k<n;k++){ w[k]=c->world[g[k]]; if(g[k]==c->me) mine=k; }
    *out=newcomm(s->newctx+ci,n,w,mine); W->stats[me].dups++; }
  slot_leave(i); return 0; }
int MPI_Comm_free(MPI_Comm*cm){ struct comm_*c=getcomm(*cm,"MPI_Comm_free"); int i,p; if(!c->derived) vm_violation("mpi-free-predefined","MPI_Comm_free on a predefined communicator");
  enter(12,-1,0,c->ctx,0);
  for(i=0;i<req_hw&&nreq_live;i++) if(reqs[i].used&&((reqs[i].type!=R_COLL&&W->op[reqs[i].op].ctx==c->ctx)||(reqs[i].type==R_COLL&&reqs[i].slot>=0&&reqs[i].cm==*cm-COMM_BASE))) vm_violation("mpi-free-pending","communicator freed while a request on it is pending");
  i=slot_arrive(c,C_FREE,0,0,0,0,0,0); slot_put(i,c,"",0); if(pct(W->mode.sync_pct)) wait_all(i,"MPI_Comm_free");
  for(p=W->sendq;p>=0;p=W->op[p].next) if(W->op[p].ctx==c->ctx&&W->op[p].dst==me) vm_violation("mpi-unreceived","communicator freed while a message from rank %d (tag %d, %zu bytes) was never received",W->op[p].owner,W->op[p].tag,W->op[p].len);
  slot_leave(i); c->used=0; ncomms_live--; *cm=MPI_COMM_NULL; W->stats[me].frees++; return 0; }
int MPI_Comm_compare(MPI_Comm a,MPI_Comm b,int*r){ struct comm_*x=getcomm(a,"MPI_Comm_compare"),*y=getcomm(b,"MPI_Comm_compare"); *r=x==y?MPI_IDENT:(x->n==y->n&&!memcmp(x->world,y->world,x->n*sizeof(int)))?MPI_CONGRUENT:MPI_UNEQUAL; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm c,MPI_Errhandler e){ (void)c;(void)e; return 0; }
MPI_Fint MPI_Comm_c2f(MPI_Comm c){ return c; }
MPI_Comm MPI_Comm_f2c(MPI_Fint f){ return f; }
int MPI_Type_size(MPI_Datatype t,int*n){ *n=dtsize(t); return 0; }
double MPI_Wtime(void){ W->steps++; W->clock+=1e-6*(double)(1+rnd()%1000); return W->clock; }
double MPI_Wtick(void){ return 1e-9; }
int MPI_Get_processor_name(char*n,int*l){ strcpy(n,"vmpi"); *l=4; return 0; }
int MPI_Query_thread(int*p){ *p=MPI_THREAD_SINGLE; return 0; }
int MPI_Init(int*a,char***b){ (void)a;(void)b; return 0; }
int MPI_Init_thread(int*a,char***b,int r,int*p){ (void)a;(void)b;(void)r; *p=MPI_THREAD_SINGLE; return 0; }
int MPI_Initialized(int*f){ *f=inited; return 0; }
int MPI_Finalized(int*f){ *f=finalized_; return 0; }
int MPI_Finalize(void){ return 0; }
int MPI_Abort(MPI_Comm c,int code){ (void)c; W->aborted=1; fflush(0); if(me>=0&&W->expect_exit[me]) _exit(code?code:1); vm_violation("mpi-abort","MPI_Abort(%d) called",code); }

/* ---------------------------------------------------------------- rank side control */
int vm_rank(void){return me;} int vm_np(void){return W->np;}
long vm_case(void){return W->case_idx[me];}
const struct vm_stats *vm_stats(void){return &W->stats[me];}
int vm_live_comms(void){return ncomms_live;} int vm_live_requests(void){return nreq_live;}
jmp_buf vm_exit_jmp; int vm_exit_armed, vm_exit_status; void __real_exit(int) __attribute__((noreturn)); void __wrap_exit(int s){ if(vm_exit_armed){ vm_exit_armed=0; vm_exit_status=s; longjmp(vm_exit_jmp,1); } __real_exit(s); }
void vm_expect_exit(int on){ W->expect_exit[me]=on; }
uint64_t vm_sched_hash(void){return W->sched;}
void vm_beat(void){ W->beats++; }
static int cidx(const char*name,int mx){ static const char*lastp[VM_NCOUNT]; int i; (void)lastp; for(i=0;i<W->ncount;i++) if(!strcmp(W->cname[i],name)) return i; if(W->ncount==VM_NCOUNT) return VM_NCOUNT-1; snprintf(W->cname[W->ncount],48,"%s",name); W->cmax[W->ncount]=mx; return W->ncount++; }
void vm_count(const char*name,uint64_t n){ W->count[cidx(name,0)]+=n; }
void vm_max(const char*name,uint64_t v){ int i=cidx(name,1); if(v>W->count[i]) W->count[i]=v; }
void vm_sig(uint64_t s){ if(me==0&&W->nsig<NSIGS){ W->sig[W->nsig]=s; W->sigs[W->nsig]=W->sched; W->nsig++; } }
void vm_text(const char*kind,const char*fmt,...){ va_list ap; if(W->ntext>=NTEXT) return; snprintf(W->text[W->ntext][0],700,"%s",kind); va_start(ap,fmt); vsnprintf(W->text[W->ntext][1],700,fmt,ap); va_end(ap); W->ntext++; }
void vm_case_begin(long idx,uint64_t seed,const struct vm_mode*m){
  vm_barrier(); W->case_idx[me]=idx; W->beats++;
  if(me==0){ W->rng=seed^0x1234567ULL; W->sched=1469598103934665603ULL; W->mode=*m; W->mode.victim=(int)(seed>>7)%W->np; if(W->mode.victim<0) W->mode.victim=0; }
  vm_barrier(); }
void vm_case_end(void){ int i;
  if(nreq_live){ for(i=0;i<MAXREQL;i++) if(reqs[i].used) break; vm_violation("mpi-request-leak","%d request(s) never completed (first: %s of %zu bytes)",nreq_live,reqs[i].type==R_SEND?"send":reqs[i].type==R_RECV?"receive":"collective",reqs[i].len); }
  vm_barrier();
  if(me==0){ if(W->sendq>=0){ struct op*o=&W->op[W->sendq]; vm_violation("mpi-unreceived","a message from rank %d to rank %d (tag %d, %zu bytes) was never received",o->owner,o->dst,o->tag,o->len); }
    if(W->recvq>=0){ struct op*o=&W->op[W->recvq]; vm_violation("mpi-unmatched-recv","a receive on rank %d from rank %d was never matched",o->owner,o->src); }
    for(i=0;i<W->slot_hw;i++) if(W->slot[i].used) vm_violation("mpi-collective-incomplete","a %s was called by only %d of %d processes",cname[W->slot[i].kind],W->slot[i].narrived,W->slot[i].n); }
  vm_barrier(); }
void vm_done(void){ int r; W->finished[me]=1; W->state[me]=ST_EXITED; changed(); fflush(0); r=pick(1); 
  if(r>=0) fwake(&W->go[r]); else { int k; for(k=0;k<W->np;k++) if(W->state[k]!=ST_EXITED) deadlock(); }
  _exit(0); }
static void rank_start(int r){ int i,w[VM_MAXNP]; me=r; inited=1; 
  for(i=0;i<W->np;i++) w[i]=i; 
  comms[1].used=1,comms[1].ctx=1,comms[1].n=W->np,comms[1].me=r; memcpy(comms[1].world,w,sizeof w);
  comms[2].used=1,comms[2].ctx=100+r,comms[2].n=1,comms[2].me=0; comms[2].world[0]=r;
  fwait(&W->go[r]); W->state[r]=ST_READY; }

/* ---------------------------------------------------------------- parent */
static double now(void){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
static struct W *PW; static char *parena; static int last_ntop;
static const char *evn[]={"?","isend","irecv","wait","test","barrier","bcast","reduce","icoll","gather","dup","split","free"};
void vm_result_free(struct vm_result*r){ __real_free(r->out); __real_free(r->events); r->out=r->events=0; }
int vm_run(int np,uint64_t seed,vm_main_fn*fn,void*arg,double hang_s,struct vm_result*res){
  int r,left,fd,first; pid_t pid[VM_MAXNP]; double t0; uint64_t lastb=0; int st; sigset_t ss,old;
  (void)last_ntop;
  memset(res,0,sizeof *res); res->case_idx=-1; res->rank=-1;
  if(PW){ munmap(PW,sizeof(struct W)); munmap(parena,ARENA_SIZE); }
  PW=mmap(0,sizeof(struct W),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); parena=mmap(0,ARENA_SIZE,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(PW==MAP_FAILED||parena==MAP_FAILED){ perror("mmap"); exit(70);}
  W=PW; arena=parena; W->np=np; W->seed=seed; W->rng=seed; W->sendq=W->recvq=W->sendq_tail=W->recvq_tail=-1; W->nextctx=1000; W->arena_top=4096; W->clock=1000; W->mode.switch_pct=50;
  for(r=0;r<np;r++) W->case_idx[r]=-1;
  fd=memfd_create("out",0); 
  sigemptyset(&ss); sigaddset(&ss,SIGCHLD); sigprocmask(SIG_BLOCK,&ss,&old);
  fflush(0);
  for(r=0;r<np;r++){ pid[r]=fork(); if(pid[r]<0){ perror("fork"); exit(70); } if(pid[r]==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); sigprocmask(SIG_SETMASK,&old,0); dup2(fd,1); dup2(fd,2); 
      { int fl=0; (void)fl; } setvbuf(stdout,NULL,_IOLBF,0);
      rank_start(r); fn(arg); vm_done(); } }
  first=(int)(rnd()%np); fwake(&W->go[first]);
  t0=now(); left=np; 
  while(left>0){ pid_t p=waitpid(-1,&st,WNOHANG); 
    if(p>0){ for(r=0;r<np;r++) if(pid[r]==p) break; if(r==np) continue; pid[r]=0; left--; 
      if(WIFEXITED(st)&&WEXITSTATUS(st)==0&&W->finished[r]) continue;
      /* failure */
      if(W->violated){ res->status=VMR_VIOL; res->rank=W->vrank; res->case_idx=W->vcase; snprintf(res->key,sizeof res->key,"%s",W->vkey); snprintf(res->msg,sizeof res->msg,"%s",W->vmsg); }
      else if(res->status==VMR_OK){ res->rank=r; res->case_idx=W->case_idx[r]; if(WIFSIGNALED(st)) res->status=VMR_CRASH,res->sig=WTERMSIG(st); else { res->exitcode=WEXITSTATUS(st); res->status=W->expect_exit[r]?VMR_EXIT:VMR_CRASH; } }
      for(r=0;r<np;r++) if(pid[r]) kill(pid[r],SIGKILL);
      continue; }
    if(p<0){ if(errno==EINTR) continue; break; }
    { struct timespec to={0,20000000}; sigtimedwait(&ss,0,&to); }
    { uint64_t b=W->steps+W->beats; if(now()-t0>vm_maxgap) vm_maxgap=now()-t0; if(b!=lastb) lastb=b,t0=now(); else if(now()-t0>hang_s){ res->status=VMR_HANG; for(r=0;r<np;r++) if(pid[r]){ if(W->case_idx[r]>res->case_idx) res->case_idx=W->case_idx[r]; } for(r=0;r<np;r++) if(pid[r]) kill(pid[r],SIGABRT); { struct timespec d={0,300000000}; nanosleep(&d,0);} for(r=0;r<np;r++) if(pid[r]) kill(pid[r],SIGKILL); t0=now()+1e9; } }
  }
  sigprocmask(SIG_SETMASK,&old,0);
  vm_total_steps+=W->steps; last_steps=W->steps;
  { int i,k; for(i=0;i<W->ncount;i++){ for(k=0;k<VM_NCOUNT&&vm_count_name[k];k++) if(!strcmp(vm_count_name[k],W->cname[i])) break; if(k<VM_NCOUNT){ if(!vm_count_name[k]){ size_t l=strlen(W->cname[i])+1; char*n=__real_malloc(l); memcpy(n,W->cname[i],l); vm_count_name[k]=n; } if(W->cmax[i]){ if(W->count[i]>vm_count_total[k]) vm_count_total[k]=W->count[i]; } else vm_count_total[k]+=W->count[i]; } } }
  if(vm_sig_sink){ int i; for(i=0;i<W->nsig;i++) vm_sig_sink(W->sig[i],W->sigs[i]); }
  if(vm_text_sink){ int i; for(i=0;i<W->ntext;i++) vm_text_sink(W->text[i][0],W->text[i][1]); }
  if(res->status!=VMR_OK){ off_t len=lseek(fd,0,SEEK_END); off_t from=len>12000?len-12000:0; ssize_t n; uint64_t i,a; char*e; size_t el=0;
    res->out=__real_malloc(12001); n=pread(fd,res->out,12000,from); res->out[n>0?n:0]=0;
    e=res->events=__real_malloc(NEV*64+1); e[0]=0; a=W->nev>120?W->nev-120:0; for(i=a;i<W->nev;i++){ struct ev*v=&W->ev[i%NEV]; el+=snprintf(e+el,NEV*64-el,"r%d %s peer=%d tag=%d ctx=%d len=%ld\n",v->rank,evn[v->kind<13?v->kind:0],v->peer,v->tag,v->ctx,v->len); } }
  close(fd);
  return res->status; }

/* ---------------------------------------------------------------- heap monitor */
int vm_heap_hostile=1, vm_heap_fail_after=-1;
static long hb,hby; static uint64_t hserial=1;
struct hh { uint64_t magic; size_t n; struct hh*prev,*next; void*site; uint64_t serial; uint64_t pad[1]; uint64_t magic2; };
#define HM 0x7b1e5a5cafe13579ULL
#define HC 0xC3
#define NCAN 32
static struct hh hlist={0,0,&hlist,&hlist,0,0,{0},0};
#if !defined(VM_ASAN)&&!defined(VM_MSAN)
static void canary(struct hh*h){ memset((char*)(h+1)+h->n,HC,NCAN); }
static void chkcan(struct hh*h,const char*what){ int i; unsigned char*c=(unsigned char*)(h+1)+h->n; for(i=0;i<NCAN;i++) if(c[i]!=HC) vm_violation("heap-overflow","bytes beyond the end (+%d) of a block of %zu bytes were overwritten (seen at %s)",i,h->n,what); }
static void *hadd(size_t n,int zero,void*site){ struct hh*h; 
  if(vm_heap_fail_after>=0&&vm_heap_fail_after--==0) return 0;
  if(n>(size_t)1<<40) return 0;
  h=__real_malloc(sizeof(struct hh)+n+NCAN); if(!h) return 0; h->magic=h->magic2=HM; h->n=n; h->site=site; h->serial=hserial++; 
  h->next=&hlist; h->prev=hlist.prev; hlist.prev->next=h; hlist.prev=h; hb++; hby+=n; 
  if(zero) memset(h+1,0,n); else if(vm_heap_hostile){ memset(h+1,0x5c|(int)(h->serial&0x83),n); } canary(h); return h+1; }
static struct hh *isours(void*p){ struct hh*h=(struct hh*)p-1; return h->magic==HM&&h->magic2==HM?h:0; }
void *__wrap_malloc(size_t n){ return hadd(n,0,__builtin_return_address(0)); }
void *__wrap_calloc(size_t a,size_t b){ if(b&&a>((size_t)1<<40)/b) return 0; return hadd(a*b,1,__builtin_return_address(0)); }
void __wrap_free(void*p){ struct hh*h; if(!p) return; h=isours(p); if(!h){ struct hh*x=(struct hh*)p-1; if(x->magic==~HM) vm_violation("double-free","a heap block was freed twice"); __real_free(p); return; } chkcan(h,"free"); h->prev->next=h->next; h->next->prev=h->prev; hb--; hby-=h->n; h->magic=~HM; h->magic2=0; if(vm_heap_hostile) memset(h+1,0xdd,h->n); __real_free(h); }
void *__wrap_realloc(void*p,size_t n){ struct hh*h; void*q; if(!p) return hadd(n,0,__builtin_return_address(0)); h=isours(p); if(!h){ struct hh*x=(struct hh*)p-1; if(x->magic==~HM) vm_violation("use-after-free","realloc of a freed block"); return __real_realloc(p,n);} if(n==0){ __wrap_free(p); return 0; } q=hadd(n,0,__builtin_return_address(0)); if(!q) return 0; memcpy(q,p,n<h->n?n:h->n); __wrap_free(p); return q; }
void vm_heap_get(struct vm_heap*h){ h->blocks=hb,h->bytes=hby,h->nalloc=hserial; }
uint64_t vm_heap_mark(void){ return hserial; }
void vm_heap_verify(const char*what){ struct hh*h; for(h=hlist.next;h!=&hlist;h=h->next) chkcan(h,what); }
extern char __executable_start;
void vm_heap_sites(uint64_t since,char*out,size_t n){ struct hh*h; size_t l=0; int k=0; out[0]=0; for(h=hlist.next;h!=&hlist&&k<12;h=h->next) if(h->serial>=since&&l<n) l+=snprintf(out+l,n-l," %zu@+0x%lx",h->n,(unsigned long)((char*)h->site-&__executable_start)),k++; }
#else
#include <sanitizer/allocator_interface.h>
void *__wrap_malloc(size_t n){ void*p=__real_malloc(n); if(p) hb++,hby+=__sanitizer_get_allocated_size(p),hserial++; return p; }
void *__wrap_calloc(size_t a,size_t b){ void*p=__real_calloc(a,b); if(p) hb++,hby+=__sanitizer_get_allocated_size(p),hserial++; return p; }
void __wrap_free(void*p){ if(p&&__sanitizer_get_ownership(p)) hb--,hby-=__sanitizer_get_allocated_size(p); __real_free(p); }
void *__wrap_realloc(void*p,size_t n){ size_t o=p?__sanitizer_get_allocated_size(p):0; void*q=__real_realloc(p,n); if(!p){ if(q) hb++; } else if(n==0&&!q) hb--; if(q||n==0) hby-=o; if(q) hby+=__sanitizer_get_allocated_size(q); hserial++; return q; }
void vm_heap_get(struct vm_heap*h){ h->blocks=hb,h->bytes=hby,h->nalloc=hserial; }
uint64_t vm_heap_mark(void){ return hserial; }
void vm_heap_verify(const char*what){ (void)what; }
void vm_heap_sites(uint64_t since,char*out,size_t n){ (void)since; if(n) out[0]=0; }
#endif
