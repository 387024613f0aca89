#define _GNU_SOURCE
#include "h.h"
#include <regex.h>
long h_leak_slack=0; int sess_noise_pct_all=-1;
#include <stdarg.h>
#include <time.h>
#include <unistd.h>

/* ------------------------------------------------------------ guarded buffers */
#define GZ 64
struct gb { char *p; size_t n; char *snap; struct gb *next; };
static struct gb *gl;
void *g_new(size_t n){ struct gb *b=hmalloc(sizeof *b); b->n=n; b->snap=0; b->next=gl; gl=b;
#ifdef H_SAN
  b->p=hmalloc(n); 
#else
  b->p=(char*)hmalloc(n+2*GZ)+GZ; memset(b->p-GZ,0xAB,GZ); memset(b->p,0xE7,n); memset(b->p+n,0xBA,GZ);
#endif
  return b->p; }
void *g_dup(const void *s,size_t n){ void *p=g_new(n); if(n) memcpy(p,s,n); return p; }
static struct gb *gfind(const void *p){ struct gb *b; for(b=gl;b;b=b->next) if(b->p==p) return b; fprintf(stderr,"harness: unknown guarded buffer\n"); abort(); }
void g_freeze(const void *p){ struct gb *b=gfind(p); if(!b->snap) b->snap=hmalloc(b->n+1); if(b->n) memcpy(b->snap,b->p,b->n); }
void g_thaw(const void *p){ struct gb *b=gfind(p); if(b->snap){ hfree(b->snap); b->snap=0; } }
static void gchk(struct gb *b,const char *what){
#ifndef H_SAN
  int i; for(i=0;i<GZ;i++){ 
    if((unsigned char)b->p[-1-i]!=0xAB) H_FAIL("oob-write","%s: memory %d bytes before a %zu byte caller array was written",what,i+1,b->n);
    if((unsigned char)b->p[b->n+i]!=0xBA) H_FAIL("oob-write","%s: memory %d bytes after the end of a %zu byte caller array was written",what,i+1,b->n); }
#endif
  if(b->snap&&b->n&&memcmp(b->snap,b->p,b->n)){ size_t k; for(k=0;k<b->n;k++) if(b->snap[k]!=b->p[k]) break; H_FAIL("input-modified","%s: byte %zu of a %zu byte caller array that must stay unchanged was modified",what,k,b->n); }
}
void g_check(const char *what){ vm_beat(); struct gb *b; for(b=gl;b;b=b->next) gchk(b,what); }
static void gdel(struct gb *b){
#ifdef H_SAN
  hfree(b->p);
#else
  hfree(b->p-GZ);
#endif
  if(b->snap) hfree(b->snap); hfree(b); }
/* every caller array is folded into a hash of what the case produced, for the modes that compare two executions */
static int hashing, nohash; static uint64_t ghash;
static void gfold(const struct gb *b){ size_t k; uint64_t h=b->n; if(!hashing||nohash) return; for(k=0;k+8<=b->n;k+=8){ uint64_t v; memcpy(&v,b->p+k,8); h=hfold(h,v); } for(;k<b->n;k++) h=hfold(h,(unsigned char)b->p[k]); ghash=hfold(ghash,h); }
void h_fold(uint64_t v){ if(hashing) ghash=hfold(ghash,v); }
static const void **pv; static int npv,mpv;
void g_private(const void *p){ if(npv==mpv){ const void **q=__real_malloc((mpv=2*mpv+64)*sizeof *q); if(npv) memcpy(q,pv,npv*sizeof *q); __real_free(pv); pv=q; } pv[npv++]=p; }
static void gout(const struct gb *b){ int i; for(i=0;i<npv;i++) if(pv[i]==b->p){ pv[i]=pv[--npv]; return; } gfold(b); }
void g_reset(void){ struct gb *b; g_check("end of case"); while((b=gl)){ gl=b->next; gout(b); gdel(b); } npv=0; }
void g_free(void *p){ struct gb **b; for(b=&gl;*b;b=&(*b)->next) if((*b)->p==p){ struct gb *x=*b; gchk(x,"release"); *b=x->next; gout(x); gdel(x); return; } abort(); }

/* ------------------------------------------------------------ notes, samples */
static char noted[32][64]; static int nnoted;
void h_note(const char *key,const char *fmt,...){ int i; char b[600]; va_list ap; 
  vm_count("known-finding deviations seen",1);
  for(i=0;i<nnoted;i++) if(!strcmp(noted[i],key)) return;
  if(nnoted<32) snprintf(noted[nnoted++],64,"%s",key);
  va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap); vm_text("note","%s\t%ld\t%s",key,vm_case(),b); }
static int nsample;
void h_sample(const char *fmt,...){ char b[600]; va_list ap; if(vm_rank()!=0||nsample>=2) return; nsample++;
  va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap); vm_text("sample","case %ld: %s",vm_case(),b); }
void h_count(const char *n,uint64_t v){ vm_count(n,v); vm_beat(); }

/* ------------------------------------------------------------ main loop */
uint64_t h_seed;
static const struct prop *P; static uint64_t S; static int thorough, forced_np, verbose;
struct job { long first,last; };
static double nowd(void){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
static uint64_t pseed(void){ uint64_t h=1469598103934665603ULL; const char *s; for(s=P->name;*s;s++) h=(h^(unsigned char)*s)*1099511628211ULL; return mix64(h,S); }
static int maxnp_all;
static int np_of_chunk(long chunk){
  static const int tab[]={1,2,2,3,3,4,4,5,5,6,6,7,8,9,11,13,16};
  struct rng r; int np; if(forced_np) return forced_np; if(maxnp_all&&P->maxnp>maxnp_all){ r.s=mix64(pseed()^0x51ed,chunk); np=tab[rn(&r,sizeof tab/sizeof *tab)]; if(np>maxnp_all) np=1+(int)rn(&r,maxnp_all); return np; } if(P->maxnp<=1) return 1;
  r.s=mix64(pseed()^0x51ed,chunk); np=tab[rn(&r,sizeof tab/sizeof *tab)]; if(P->maxnp>=16&&rn(&r,1000)<(P->maxnp>=24?50:14)){ static const int big[]={17,20,24,29,31,32,33,37},huge[]={40,48,63,64,65,70}; return rn(&r,P->maxnp>=24?7:6)?big[rn(&r,8)]:huge[rn(&r,6)]; } if(np>P->maxnp) np=1+(int)rn(&r,P->maxnp); return np; }
static void mode_of_case(struct vm_mode *m,uint64_t seed,int np){ struct rng r; static const int sp[]={0,30,100,100}, lp[]={0,20,60,90}, wp[]={5,30,60,100}; r.s=mix64(seed,77);
  m->sync_pct=sp[rn(&r,4)]; m->late_pct=lp[rn(&r,4)]; m->switch_pct=wp[rn(&r,4)]; m->policy=(int)rn(&r,4); m->victim=(int)rn(&r,np); }
/* --mode: plain; history (C28): what a case does after others and in a fresh group of processes;
   timing (C24): under two different message timings; leak (C23): what repeating a case leaves behind */
enum { MPLAIN, MHISTORY, MTIMING, MLEAK }; static int hmode, benign; static regex_t keys; static int have_keys;
/* the repetition after the first must leave what the first left. Scratch memory the library keeps for reuse may
   still grow once (the method chosen automatically may change), so only growth in every repetition counts. */
#define LEAK_MORE 4
static int leak_check(int rep){ static struct vm_heap h1; static uint64_t mark; static int c1,nb,nc,ng; struct vm_heap h; char buf[1500]; int f[4],all[4*VM_MAXNP],k,i; long b0,y0; int cc;
  vm_heap_get(&h); cc=vm_live_comms();
  if(rep==0) return 0;
  if(rep==1){ h1=h,c1=cc,mark=vm_heap_mark(),nb=nc=ng=0; return 0; }
  nc+=cc>c1, nb+=h.blocks>h1.blocks, ng+=h.bytes>h1.bytes+h_leak_slack; b0=h1.blocks,y0=h1.bytes;
  f[0]=nc,f[1]=nb,f[2]=ng; vm_gatherall(f,sizeof f,all); f[3]=0; for(k=0;k<vm_np();k++) for(i=0;i<3;i++) if(all[4*k+i]>=rep-1) f[3]=1;
  if(!f[3]){ h_count("allocations accounted for",h.nalloc); return 1; }
  if(rep==1+LEAK_MORE){
    if(nc==LEAK_MORE) H_FAIL("leak-comm","every repetition of the operations left more communicators alive (%d now)",cc);
    if(nb==LEAK_MORE){ vm_heap_sites(mark,buf,sizeof buf); H_FAIL("leak-memory","every repetition of the operations left %ld more allocation(s) alive, %ld bytes more:\n%s",h.blocks-b0,h.bytes-y0,buf); }
    if(ng==LEAK_MORE){ vm_heap_sites(mark,buf,sizeof buf); H_FAIL("leak-growth","every repetition of the operations made the memory kept grow, from %ld to %ld bytes now:\n%s",y0,h.bytes,buf); } }
  if(cc>c1||h.blocks>h1.blocks||h.bytes>h1.bytes) h1=h,c1=cc; 
  return 0; }
static void world(void *arg){ struct job *j=arg; long i; int rep;
  for(i=j->first;i<=j->last;i++) for(rep=0;rep<(hmode==MLEAK?2+LEAK_MORE:1);rep++){ struct ctx c; memset(&c,0,sizeof c); c.idx=i; c.seed=mix64(pseed(),i); c.np=vm_np(); c.me=vm_rank(); c.thorough=thorough; c.g.s=c.seed; 
    mode_of_case(&c.mode,c.seed,c.np);
    if(hmode==MTIMING){ sess_noise_pct_all=100; if(benign) c.mode.sync_pct=0,c.mode.late_pct=0,c.mode.switch_pct=5,c.mode.policy=1; else if(c.seed>>9&1) c.mode.sync_pct=100,c.mode.late_pct=80,c.mode.switch_pct=100; }
    ghash=0; vm_case_begin(i,mix64(c.seed,benign?1717:3),&c.mode);
    P->fn(&c); g_reset(); vm_heap_verify("end of case");
    vm_case_end(); if(hmode==MLEAK&&leak_check(rep)) break;
    if(hashing){ uint64_t all[VM_MAXNP],h=0; int k; vm_gatherall(&ghash,8,all); for(k=0;k<c.np;k++) h=hfold(h,all[k]); if(c.me==0) vm_text("H","%ld %016llx",i,(unsigned long long)h); }
    if(c.me==0&&rep==0) vm_count("cases",1); } }
static void jstr(const char *s){ putchar('"'); for(;s&&*s;s++){ unsigned char ch=*s; if(ch=='"'||ch=='\\') printf("\\%c",ch); else if(ch=='\n') printf("\\n"); else if(ch=='\t') printf("\\t"); else if(ch<32||ch>126) printf("?"); else putchar(ch); } putchar('"'); }
static FILE *sigf;
static void sig_sink(uint64_t a,uint64_t b){ if(sigf){ uint64_t x[2]={a,b}; fwrite(x,8,2,sigf); } }
static int ntext;
static uint64_t hh[2][4096]; static int hwhich; static long hbase;
static void text_sink(const char *k,const char *t){ if(!strcmp(k,"H")){ long i; unsigned long long h; if(sscanf(t,"%ld %llx",&i,&h)==2&&i>=hbase&&i<hbase+4096) hh[hwhich][i-hbase]=h|1; return; } if(!strcmp(k,"sample")&&ntext++>=6) return; printf("{\"t\":"); jstr(k); printf(",\"v\":"); jstr(t); printf("}\n"); }
static void print_viol(struct vm_result *r,int st,const char *key,long a,int np){
        printf("{\"t\":\"viol\",\"status\":%d,\"rank\":%d,\"case\":%ld,\"from\":%ld,\"np\":%d,\"sig\":%d,\"exit\":%d,\"key\":",st,r->rank,r->case_idx,a,np,r->sig,r->exitcode);
        jstr(key); printf(",\"msg\":"); jstr(r->msg); printf(",\"out\":"); jstr(r->out); printf(",\"events\":"); jstr(r->events); printf("}\n");
        if(verbose) fprintf(stderr,"case %ld np %d %s: %s\n%s\n",r->case_idx,np,key,r->msg,r->out?r->out:""); }
__attribute__((weak)) void h_once(void){}
int main(int argc,char **argv){
  long first=0,count=100,i; double secs=1e9,hang=20,t0=nowd(); int nviol=0,k,maxviol=4; const char *prop=0; long done=0,worlds=0,compared=0; int nother=0; int truncated=0;
  for(k=1;k<argc;k++){ 
#define ARG(n) (!strcmp(argv[k],n)&&k+1<argc)
    if(ARG("--prop")) prop=argv[++k]; else if(ARG("--seed")) S=strtoull(argv[++k],0,10); else if(ARG("--first")) first=atol(argv[++k]);
    else if(ARG("--count")) count=atol(argv[++k]); else if(ARG("--np")) forced_np=atoi(argv[++k]); else if(ARG("--secs")) secs=atof(argv[++k]);
    else if(ARG("--hang")) hang=atof(argv[++k]); else if(ARG("--thorough")) thorough=atoi(argv[++k]); else if(ARG("--sig")) sigf=fopen(argv[++k],"wb"); 
    else if(ARG("--maxviol")) maxviol=atoi(argv[++k]); else if(!strcmp(argv[k],"-v")) verbose=1;
    else if(ARG("--mode")){ const char *m=argv[++k]; hmode=!strcmp(m,"history")?MHISTORY:!strcmp(m,"timing")?MTIMING:!strcmp(m,"leak")?MLEAK:MPLAIN; hashing=hmode==MHISTORY||hmode==MTIMING; }
    else if(ARG("--keys")){ have_keys=1; if(regcomp(&keys,argv[++k],REG_EXTENDED|REG_NOSUB)) return 2; }
    else if(ARG("--maxnp")) maxnp_all=atoi(argv[++k]); else { fprintf(stderr,"bad arg %s\n",argv[k]); return 2; } }
  for(P=h_props;P->name;P++) if(prop&&!strcmp(P->name,prop)) break;
  if(!P->name){ fprintf(stderr,"unknown prop %s\n",prop?prop:"?"); return 2; }
  h_seed=mix64(S,0x5eed); h_once(); vm_sig_sink=sig_sink; vm_text_sink=text_sink; setvbuf(stdout,NULL,_IOLBF,0);
  { int ck=P->chunk; long c, c0=first/ck; 
    /* case ranges are always run from the start of their chunk so that histories are reproducible */
    for(c=c0;c*ck<first+count&&nviol<maxviol;c++){ long a=c*ck,b=a+ck-1; int np=np_of_chunk(c); 
      if(b>=first+count) b=first+count-1;
      while(a<=b&&nviol<maxviol){ struct vm_result r; struct job j; int st; 
        if(nowd()-t0>secs){ truncated=1; goto out; }
        j.first=a,j.last=b; worlds++; hbase=c*ck; hwhich=0; memset(hh,0,sizeof hh);
        st=vm_run(np,mix64(S,c*1000003+a),world,&j,hang,&r);
        if(st==VMR_HANG){ struct vm_result r2; int st2; long hc=r.case_idx; st2=vm_run(np,mix64(S,c*1000003+a),world,&j,hang*2.5,&r2); if(st2!=VMR_HANG){ vm_result_free(&r); r=r2; st=st2; } else { vm_result_free(&r2); r.case_idx=hc; } }
        if(st==VMR_OK){ done+=b-a+1; vm_result_free(&r); if(hashing){ long q; struct vm_result r2; struct job j2; int st2; 
            hwhich=1; benign=hmode==MTIMING; 
            for(q=a;q<=b&&nviol<maxviol;q++){ j2.first=q; j2.last=hmode==MTIMING?b:q; worlds++; st2=vm_run(np,mix64(S,c*1000003+a)^(hmode==MTIMING?99:0),world,&j2,hang,&r2);
              if(st2!=VMR_OK){ snprintf(r2.key,sizeof r2.key,"%s",hmode==MHISTORY?"only-when-fresh":"only-with-this-timing"); if(r2.case_idx<a) r2.case_idx=a; nviol++; print_viol(&r2,VMR_VIOL,r2.key,a,np); vm_result_free(&r2); break; }
              vm_result_free(&r2);
              if(hmode==MTIMING) break; }
            for(q=a;q<=b&&nviol<maxviol;q++) if(hh[0][q-hbase]&&hh[1][q-hbase]){ compared++; if(hh[0][q-hbase]!=hh[1][q-hbase]){ struct vm_result z; memset(&z,0,sizeof z); z.case_idx=q; z.rank=-1; z.out=z.events=(char*)""; snprintf(z.msg,sizeof z.msg,hmode==MHISTORY?"the arrays the case leaves differ from those it leaves in fresh processes":"the arrays the case leaves differ with the timing of messages"); nviol++; print_viol(&z,VMR_VIOL,hmode==MHISTORY?"result-depends-on-history":"result-depends-on-timing",a,np); } }
            benign=0; hwhich=0; } break; }
        { const char *key=st==VMR_VIOL?r.key:st==VMR_HANG?"hang":st==VMR_EXIT?"unexpected-exit":"crash"; char kb[200]; int counts=!have_keys||!regexec(&keys,key,0,0,0);
        if((hmode==MHISTORY||hmode==MTIMING)&&!counts){ /* does it fail in the other execution as well? */
          struct vm_result r2; struct job j2; int st2; if(hmode==MHISTORY) j2.first=j2.last=r.case_idx; else j2=j, benign=1; hwhich=1; hbase=c*ck;
          if(r.case_idx>=0&&(hmode==MTIMING||r.case_idx>a)){ if(hmode==MTIMING) j2.last=r.case_idx; st2=vm_run(np,mix64(S,c*1000003+a),world,&j2,hang,&r2); if(st2==VMR_OK||(hmode==MTIMING&&r2.case_idx>r.case_idx)) counts=1, snprintf(kb,sizeof kb,"%s:%s",hmode==MHISTORY?"only-after-other-operations":"only-with-this-timing",key), key=kb; vm_result_free(&r2); }
          benign=0; hwhich=0; }
        if(counts){ nviol++; print_viol(&r,st,key,a,np); } else { nother++; if(nother>40) goto out; } }
        i=r.case_idx; if(i<a) i=a; done+=i-a; a=i+1; vm_result_free(&r);
      } } }
 out:
  if(hashing) printf("{\"t\":\"count\",\"k\":\"cases compared bit by bit with another execution\",\"v\":%ld}\n",compared);
  if(nother) printf("{\"t\":\"count\",\"k\":\"deviations that belong to other properties\",\"v\":%d}\n",nother);
  for(k=0;k<VM_NCOUNT&&vm_count_name[k];k++){ printf("{\"t\":\"count\",\"k\":"); jstr(vm_count_name[k]); printf(",\"v\":%llu}\n",(unsigned long long)vm_count_total[k]); }
  printf("{\"t\":\"end\",\"done\":%ld,\"worlds\":%ld,\"steps\":%llu,\"truncated\":%d,\"wall\":%.2f,\"quiet\":%.1f,\"viol\":%d}\n",done,worlds,(unsigned long long)vm_total_steps,truncated,nowd()-t0,vm_maxgap,nviol);
  if(sigf) fclose(sigf);
  return 0; }
