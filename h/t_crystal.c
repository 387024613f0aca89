/* C07-C09: crystal router, struct-array transfer, Fortran tuple routines */
#include "config.h"
#include "h.h"
#include "gslib.h"
#include "sess.h"
static int clog2(int n){ int k=0; while((1<<k)<n) k++; return k; }
static int cmp64(const void *a,const void *b){ uint64_t x=*(const uint64_t*)a,y=*(const uint64_t*)b; return x<y?-1:x>y; }
static uint64_t hbytes(uint64_t h,const void *p,size_t n){ const unsigned char *c=p; size_t i; for(i=0;i<n;i++) h=(h^c[i])*0x100000001b3ULL; return h^(h>>29); }
struct hv { uint64_t *a; int n,max; };
static void hv_add(struct hv *v,uint64_t h){ if(v->n==v->max){ uint64_t *p; v->max=v->max*2+16; p=hmalloc(v->max*sizeof *p); if(v->n) memcpy(p,v->a,v->n*sizeof *p); if(v->a) hfree(v->a); v->a=p; } v->a[v->n++]=h; }
static void hv_sort(struct hv *v){ if(v->n) qsort(v->a,v->n,sizeof *v->a,cmp64); }
static void hv_free(struct hv *v){ if(v->a) hfree(v->a); memset(v,0,sizeof *v); }
/* number of elements of b not matched in a, both sorted */
static int hv_extra(const struct hv *a,const struct hv *b){ int i=0,j=0,x=0; while(j<b->n){ while(i<a->n&&a->a[i]<b->a[j]) i++; if(i<a->n&&a->a[i]==b->a[j]) i++,j++; else x++,j++; } return x; }
/* distribution of targets */
struct dist { int style, np, fixed; uint64_t s; };
static void dist_pick(struct dist *d,struct rng *r,int np){ d->style=(int)rn(r,8); d->np=np; d->fixed=(int)rn(r,np); d->s=r64(r); }
static int dist_to(const struct dist *d,int from,int k){ uint64_t h=mix64(d->s+from,k); switch(d->style){ case 99: return (from+k)%d->np; case 0: return d->fixed; case 1: return from; case 2: return (from+1+d->fixed)%d->np; case 3: return k%d->np; case 4: return d->np-1-from; case 5: return (h&3)?(int)((from^1)<d->np?(from^1):from):(int)((h>>8)%d->np); default: return (int)((h>>8)%d->np); } }
static int dist_cnt(const struct dist *d,int from,int maxn){ uint64_t h=mix64(d->s,from+7777); if(d->style==6&&from!=d->fixed) return 0; if(h%5==0) return 0; if(d->style==99) return d->np; if(h%7==0) return maxn; return (int)((h>>8)%(maxn+1)); }

/* ---- C07 */
static int msg_len(uint64_t s,int big){ uint64_t h=mix64(s,1)>>3; switch(h%6){ case 0: return 0; case 1: return 1; case 5: if((h>>10)%3==0){ struct rng q; q.s=h; return rround(&q,big?70000:140); } return big?(int)((h>>20)%20000):(int)((h>>20)%100); default: return (int)((h>>20)%12); } }
static void msg_fill(uint *p,uint64_t s,int len){ int i; for(i=0;i<len;i++) p[i]=(uint)mix64(s,10+i); }
static void c07(struct ctx *c){ struct sess s; struct crystal cr; struct rng r; int rounds,k,i,j; uint64_t sig=1; long msgs=0;
  sess_open(&s,c); r.s=s.seed; crystal_init(&cr,&s.c); rounds=1+(int)rn(&r,4);
  for(k=0;k<rounds;k++){ struct dist d; int maxn=rpct(&r,20)?200:(int)rn(&r,20),big=rpct(&r,5); struct hv want={0},got={0}; uint *p,*e; uint64_t s0,ns; uint tot=0;
    dist_pick(&d,&r,s.np); if(big&&maxn>20) maxn=20; sig=hfold(sig,d.s^d.style);
    for(j=0;j<s.np;j++){ int n=dist_cnt(&d,j,maxn); if(j==s.me) for(i=0;i<n;i++) tot+=3+msg_len(mix64(d.s+j,i),big);
      for(i=0;i<n;i++) if(dist_to(&d,j,i)==s.me){ uint64_t ms=mix64(d.s+j,i); int len=msg_len(ms,big); uint *m=hmalloc((len+3)*sizeof(uint)); m[0]=s.me,m[1]=j,m[2]=len; msg_fill(m+3,ms,len); hv_add(&want,hbytes(1,m,(len+3)*sizeof(uint))); hfree(m); } }
    p=buffer_reserve(&cr.data,tot*sizeof(uint)); for(i=0,j=dist_cnt(&d,s.me,maxn);i<j;i++){ uint64_t ms=mix64(d.s+s.me,i); int len=msg_len(ms,big); p[0]=dist_to(&d,s.me,i),p[1]=s.me,p[2]=len; msg_fill(p+3,ms,len); p+=3+len; } cr.data.n=tot;
    s0=vm_stats()->sends; crystal_router(&cr); ns=vm_stats()->sends-s0; g_check("crystal_router");
    H_CHECK((int)ns<=2*clog2(s.np),"crystal-sends","crystal_router sent %d messages from process %d, at most %d allowed on %d processes",(int)ns,s.me,2*clog2(s.np),s.np);
    H_CHECK(cr.data.n*sizeof(uint)<=cr.data.max,"crystal-corrupt","crystal_router returned %lu words in a buffer of %lu bytes",(unsigned long)cr.data.n,(unsigned long)cr.data.max);
    for(p=cr.data.ptr,e=p+cr.data.n;p!=e;p+=3+p[2]){ H_CHECK(e-p>=3&&(size_t)(e-p)>=3+(size_t)p[2],"crystal-corrupt","malformed message stream on process %d",s.me); H_CHECK((int)p[0]==s.me,"crystal-misrouted","message for process %u delivered to %d (of %d)",p[0],s.me,s.np); H_CHECK((int)p[1]<s.np,"crystal-source","source %u out of range",p[1]); hv_add(&got,hbytes(1,p,(p[2]+3)*sizeof(uint))); }
    hv_sort(&want); hv_sort(&got); i=hv_extra(&want,&got); j=hv_extra(&got,&want);
    H_CHECK(!i&&!j,"crystal-delivery","crystal_router on process %d of %d: %d messages expected, %d delivered, %d unexpected, %d missing (distribution %d)",s.me,s.np,want.n,got.n,i,j,d.style);
    msgs+=got.n; hv_free(&want); hv_free(&got); }
  h_count("messages delivered and compared",msgs); h_count("exchanges",rounds); vm_sig(hfold(sig,s.np)); h_sample("np=%d exchanges=%d messages here=%ld",s.np,rounds,msgs); crystal_free(&cr); sess_close(&s); }

/* ---- C08 */
static void row_fill(char *p,unsigned size,uint64_t s,int from,int i,int a){ unsigned b; uint64_t h=0; for(b=0;b<size;b++){ if(b%8==0) h=mix64(s+from*4+a,((uint64_t)i<<20)+b/8); p[b]=(char)(h>>(8*(b%8))); } if(size>1&&mix64(s,999)%4==0) memset(p,0,size-1); }
static void c08(struct ctx *c){ struct sess s; struct crystal cr; struct rng r; int rounds,k,i,j,a; uint64_t sig=1; long rows=0;
  sess_open(&s,c); r.s=s.seed; crystal_init(&cr,&s.c); rounds=1+(int)rn(&r,3);
  for(k=0;k<rounds;k++){ struct dist d; int fixed,capmin,lim,maxn=rn(&r,1000)<3?140000/(s.np+1):rpct(&r,15)?300:rpct(&r,4)?rround(&r,4200/(s.np+1)+17):(int)rn(&r,25),ext=rpct(&r,35),An=rpct(&r,40)?1+(int)rn(&r,4):1,set_src=(int)rn(&r,2),n=0,back=rpct(&r,50),pass,npass; unsigned size[4],p_off=0,stride=sizeof(uint); struct array A[4],*AP[4]; struct hv want={0},got={0},orig={0}; uint *proc=0; uint64_t rs=r64(&r); char row[4*200];
    dist_pick(&d,&r,s.np); 
    for(a=0;a<4;a++) size[a]=1+rn(&r,rpct(&r,20)?120:24); if(!ext){ size[0]=4*(1+rn(&r,rpct(&r,20)?30:7)); p_off=4*rn(&r,size[0]/4); } if(An>1&&rpct(&r,10)) size[1+rn(&r,An-1)]=0;
    if(rpct(&r,8)){ for(a=0;a<4;a++) size[a]=4*(1+rn(&r,45)); An=4; p_off=ext?0:4*rn(&r,size[0]/4); maxn=s.np; d.style=99; } /* wide rows, each to another process */ 
    if(ext) stride=rpct(&r,50)?4:4*(1+rn(&r,rpct(&r,8)?80:5));
    sig=hfold(sig,hfold(d.s^d.style,size[0]*1000+p_off+An*7+ext)); npass=(!ext&&set_src&&back)?2:1; n=dist_cnt(&d,s.me,maxn); fixed=npass==1&&rpct(&r,25); capmin=0; { int m=0; for(j=0;j<s.np;j++){ int q=dist_cnt(&d,j,maxn); for(i=0;i<q;i++) m+=dist_to(&d,j,i)==s.me; } lim=(int)rn(&r,3); lim=lim==0?m+3:lim==1?m:m/2; }
    for(a=0;a<An;a++){ char *q; AP[a]=&A[a]; { int extra=rpct(&r,50)?n==0:20,cap=n+extra; if(fixed){ cap=(n>lim?n:lim)+(int)rn(&r,3)*(int)(mix64(rs,s.me*8+a)%4); if(!cap) cap=1; if(size[a]?(!capmin||cap<capmin):0) capmin=cap; } array_init_(&A[a],cap,size[a]?size[a]:1,__FILE__,__LINE__); A[a].max=size[a]?(fixed?(size_t)cap:A[a].max):1000000; } A[a].n=n; q=A[a].ptr; for(i=0;i<n;i++){ row_fill(q+(size_t)i*size[a],size[a],rs,s.me,i,a); if(!ext&&a==0){ uint t=dist_to(&d,s.me,i); memcpy(q+(size_t)i*size[0]+p_off,&t,4); } } }
    if(ext){ proc=g_new(n?(size_t)(n-1)*stride+4:0); if(n) memset(proc,0x77,(size_t)(n-1)*stride+4); for(i=0;i<n;i++) *(uint*)((char*)proc+(size_t)i*stride)=dist_to(&d,s.me,i); g_freeze(proc); }
    for(j=0;j<s.np;j++){ int m=dist_cnt(&d,j,maxn); for(i=0;i<m;i++){ int to=dist_to(&d,j,i); char *q=row; uint v; if(to!=s.me&&j!=s.me) continue; for(a=0;a<An;a++) row_fill(q,size[a],rs,j,i,a),q+=size[a];
      if(to==s.me){ if(!ext){ v=set_src?j:s.me; memcpy(row+p_off,&v,4); } hv_add(&want,hbytes(3,row,q-row)); }
      if(j==s.me&&!ext){ v=to; memcpy(row+p_off,&v,4); hv_add(&orig,hbytes(3,row,q-row)); } } }
    for(pass=0;pass<npass;pass++){ uint ret=0; int usemany=fixed||An>1||rpct(&r,30); struct hv *w=pass?&orig:&want;
      if(usemany){ if(An==1) AP[0]=&A[0]; ret=sarray_transfer_many(AP,size,An,fixed,ext,set_src,p_off,ext?proc:(uint*)((char*)A[0].ptr+p_off),ext?stride:size[0],&cr); if(fixed){ H_CHECK((int)ret==want.n,"transfer-count","sarray_transfer_many with fixed arrays reports %u rows, %d were sent here (capacity %d)",ret,want.n,capmin); if((int)ret>capmin) h_count("transfers beyond a fixed capacity",1); } H_CHECK(fixed?A[0].n==((int)ret<capmin?ret:(uint)capmin):ret==A[0].n,"transfer-count","sarray_transfer_many returned %u but the array has %lu rows",ret,(unsigned long)A[0].n); }
      else if(ext) sarray_transfer_ext_(&A[0],size[0],proc,stride,&cr); else sarray_transfer_(&A[0],size[0],p_off,set_src,&cr);
      g_check("sarray_transfer"); got.n=0;
      for(a=1;a<An;a++) H_CHECK(A[a].n==A[0].n,"transfer-count","array %d has %lu rows, array 0 has %lu",a,(unsigned long)A[a].n,(unsigned long)A[0].n);
      for(a=0;a<An;a++) H_CHECK(!size[a]||A[a].n<=A[a].max,"transfer-count","array %d holds %lu rows, capacity %lu",a,(unsigned long)A[a].n,(unsigned long)A[a].max);
      for(i=0;i<(int)A[0].n;i++){ char *q=row; for(a=0;a<An;a++) memcpy(q,(char*)A[a].ptr+(size_t)i*size[a],size[a]),q+=size[a]; hv_add(&got,hbytes(3,row,q-row)); }
      hv_sort(w); hv_sort(&got); i=hv_extra(w,&got); j=hv_extra(&got,w); if(fixed&&w->n>capmin) j=0; /* the rest had no room */
      H_CHECK(!i&&!j,pass?"transfer-return":"transfer-rows","%s on process %d of %d: %d rows expected, %d present, %d wrong, %d missing (%d arrays, row size %u, field offset %u, source recording %d, targets %s, distribution %d)",pass?"second transfer (back to the source)":"transfer",s.me,s.np,w->n,got.n,i,j,An,size[0],p_off,set_src,ext?"in a separate list":"in the field",d.style);
      rows+=got.n; }
    for(a=0;a<An;a++) array_free(&A[a]); if(proc) g_free(proc); hv_free(&want); hv_free(&got); hv_free(&orig); }
  h_count("rows compared",rows); h_count("transfers",rounds); vm_sig(hfold(sig,s.np)); h_sample("np=%d transfers=%d rows here=%ld",s.np,rounds,rows); crystal_free(&cr); sess_close(&s); }

/* ---- C09 Fortran */
#define F(x) fgslib_##x##_
typedef int fint;
void F(crystal_setup)(fint*,const MPI_Fint*,const fint*); void F(crystal_free)(fint*);
void F(crystal_ituple_sort)(const fint*,fint*,const fint*,const fint*,const fint*,const fint*);
void F(crystal_tuple_sort)(const fint*,const fint*,fint*,const fint*,slong*,const fint*,double*,const fint*,const fint*,const fint*);
void F(crystal_ituple_transfer)(const fint*,fint*,const fint*,fint*,const fint*,const fint*);
void F(crystal_tuple_transfer)(const fint*,fint*,const fint*,fint*,const fint*,slong*,const fint*,double*,const fint*,const fint*);
/* tuple i of process from: ints, longs, doubles */
static int tint(uint64_t s,int from,int i,int f,int small){ uint64_t h=mix64(s+from,i*64+f); return (int)(small?h%4:h&0x7fffffff); }
static slong tlong(uint64_t s,int from,int i,int f,int small){ uint64_t h=mix64(s+from,i*64+20+f); return (slong)(small?h%3:h>>(1+h%40)); }
static double tdbl(uint64_t s,int from,int i,int f){ return (double)(int64_t)mix64(s+from,i*64+40+f)*1e-3; }
static uint64_t thash(const fint *vi,int mi,const slong *vl,int ml,const double *vr,int md){ uint64_t h=hbytes(5,vi,mi*sizeof(fint)); if(ml) h=hbytes(h,vl,ml*sizeof(slong)); if(md) h=hbytes(h,vr,md*sizeof(double)); return h; }
static void c09(struct ctx *c){ struct sess s; struct rng r; int steps,k,i,j,f,nh; fint h[200]; uint64_t sig=1; long tup=0,over=0; 
  h_leak_slack=128; sess_open(&s,c); r.s=s.seed; nh=1+(int)rn(&r,3); if(rn(&r,1000)<8) nh=20+(int)rn(&r,180),h_count("histories with many handles",1); { MPI_Fint fc=MPI_Comm_c2f(s.mc); fint np=s.np; for(k=0;k<nh;k++){ h[k]=-1; F(crystal_setup)(&h[k],&fc,&np); for(j=0;j<k;j++) H_CHECK(h[j]!=h[k],"crystal-handle-reused","two live handles equal %d",h[k]); } }
  steps=1+(int)rn(&r,5);
  for(k=0;k<steps;k++){ int act=(int)rn(&r,4),hh=(int)rn(&r,nh); uint64_t rs=r64(&r); fint mi=1+(int)rn(&r,5),ml=act&1?(int)rn(&r,4):0,md=act&1?(int)rn(&r,4):0; 
    if(rpct(&r,15)){ MPI_Fint fc=MPI_Comm_c2f(s.mc); fint np=s.np; F(crystal_free)(&h[hh]); F(crystal_setup)(&h[hh],&fc,&np); }
    if(act<2){ /* transfer */
      struct dist d; int maxn=rn(&r,1000)<3?140000/(s.np+1):rpct(&r,15)?120:(int)rn(&r,20); fint n,max,key=1+(int)rn(&r,mi); struct hv want={0},got={0}; fint *vi; slong *vl; double *vr; int lim=(int)rn(&r,3);
      dist_pick(&d,&r,s.np); n=dist_cnt(&d,s.me,maxn);
      for(j=0;j<s.np;j++){ int m=dist_cnt(&d,j,maxn); for(i=0;i<m;i++) if(dist_to(&d,j,i)==s.me){ fint ti[8]; slong tl[4]; double td[4]; for(f=0;f<mi;f++) ti[f]=tint(rs,j,i,f,0); for(f=0;f<ml;f++) tl[f]=tlong(rs,j,i,f,0); for(f=0;f<md;f++) td[f]=tdbl(rs,j,i,f); ti[key-1]=j; hv_add(&want,thash(ti,mi,tl,ml,td,md)); } }
      /* capacity: plenty, exactly the need, or too small for what arrives */
      max=lim==0?want.n+5:lim==1?want.n:want.n/2; if(max<n) max=n; sig=hfold(sig,d.s^d.style^(max*100+mi*10+ml)); if(want.n>max) over++;
      vi=g_new((size_t)mi*max*sizeof(fint)); vl=g_new((size_t)ml*max*sizeof(slong)); vr=g_new((size_t)md*max*sizeof(double));
      for(i=0;i<n;i++){ for(f=0;f<mi;f++) vi[i*mi+f]=tint(rs,s.me,i,f,0); vi[i*mi+key-1]=dist_to(&d,s.me,i); for(f=0;f<ml;f++) vl[i*ml+f]=tlong(rs,s.me,i,f,0); for(f=0;f<md;f++) vr[i*md+f]=tdbl(rs,s.me,i,f); }
      if(act==0) F(crystal_ituple_transfer)(&h[hh],vi,&mi,&n,&max,&key); else F(crystal_tuple_transfer)(&h[hh],&n,&max,vi,&mi,vl,&ml,vr,&md,&key);
      g_check(act?"crystal_tuple_transfer":"crystal_ituple_transfer");
      H_CHECK(n==want.n,"tuple-count","tuple transfer reports %d tuples on process %d, %d were sent to it (capacity %d)",n,s.me,want.n,max);
      j=n<max?n:max; for(i=0;i<j;i++) hv_add(&got,thash(vi+i*mi,mi,vl+i*ml,ml,vr+i*md,md)); hv_sort(&want); hv_sort(&got); i=hv_extra(&want,&got);
      H_CHECK(!i,"tuple-rows","tuple transfer on process %d of %d: %d of %d kept tuples are not among the %d sent (mi %d ml %d md %d key %d capacity %d)",s.me,s.np,i,j,want.n,mi,ml,md,key,max);
      tup+=j; g_free(vi); g_free(vl); g_free(vr); hv_free(&want); hv_free(&got); }
    else { /* sort */
      int full=act&1; fint n=rpct(&r,20)?(int)rn(&r,3):rpct(&r,10)?1000:(int)rn(&r,60),nk=rpct(&r,5)?0:1+(int)rn(&r,4),keys[4]; int small=(int)rn(&r,2); fint *vi=g_new((size_t)mi*n*sizeof(fint)),*kk; slong *vl=g_new((size_t)ml*n*sizeof(slong)); double *vr=g_new((size_t)md*n*sizeof(double)); int *ord=hmalloc((n+1)*sizeof(int)),*tmp=hmalloc((n+1)*sizeof(int)),w;
      for(i=0;i<n;i++){ for(f=0;f<mi;f++) vi[i*mi+f]=tint(rs,s.me,i,f,small); for(f=0;f<ml;f++) vl[i*ml+f]=tlong(rs,s.me,i,f,small); for(f=0;f<md;f++) vr[i*md+f]=tdbl(rs,s.me,i,f); ord[i]=i; }
      for(f=0;f<nk;f++) keys[f]=1+(int)rn(&r,full?mi+ml:mi); kk=g_dup(keys,nk*sizeof(fint)); g_freeze(kk); sig=hfold(sig,rs^n);
      /* oracle: stable merge sort of the indices */
      for(w=1;w<n;w*=2){ int lo; for(lo=0;lo<n;lo+=2*w){ int a=lo,am=lo+w<n?lo+w:n,b=am,bm=lo+2*w<n?lo+2*w:n,o=lo; while(a<am||b<bm){ int take; if(a==am) take=1; else if(b==bm) take=0; else { int cmp=0; for(f=0;f<nk&&!cmp;f++){ int q=keys[f]-1; slong x=q<mi?tint(rs,s.me,ord[a],q,small):tlong(rs,s.me,ord[a],q-mi,small),y=q<mi?tint(rs,s.me,ord[b],q,small):tlong(rs,s.me,ord[b],q-mi,small); cmp=x<y?-1:x>y; } take=cmp>0; } tmp[o++]=take?ord[b++]:ord[a++]; } } memcpy(ord,tmp,n*sizeof(int)); }
      if(full) F(crystal_tuple_sort)(&h[hh],&n,vi,&mi,vl,&ml,vr,&md,kk,&nk); else F(crystal_ituple_sort)(&h[hh],vi,&mi,&n,kk,&nk);
      g_check(full?"crystal_tuple_sort":"crystal_ituple_sort");
      for(i=0;i<n;i++){ int o=ord[i]; for(f=0;f<mi;f++) H_CHECK(vi[i*mi+f]==tint(rs,s.me,o,f,small),"tuple-sort","tuple sort: position %d of %d must hold tuple %d, integer %d differs (%d keys)",i,n,o,f,nk); for(f=0;f<ml;f++) H_CHECK(vl[i*ml+f]==tlong(rs,s.me,o,f,small),"tuple-sort","tuple sort: position %d of %d must hold tuple %d, long %d differs",i,n,o,f); for(f=0;f<md;f++) H_CHECK(vr[i*md+f]==tdbl(rs,s.me,o,f),"tuple-sort","tuple sort: position %d of %d must hold tuple %d, real %d differs",i,n,o,f); }
      tup+=n; hfree(ord); hfree(tmp); g_free(vi); g_free(vl); g_free(vr); g_free(kk); } }
  for(k=0;k<nh;k++) F(crystal_free)(&h[k]);
  h_count("tuples compared",tup); h_count("tuple operations",steps); if(over) h_count("transfers beyond the capacity",over); vm_sig(hfold(sig,s.np)); h_sample("np=%d handles=%d steps=%d tuples here=%ld over capacity=%ld",s.np,nh,steps,tup,over); sess_close(&s); }
const struct prop h_props[]={ {"C07",c07,24,24}, {"C08",c08,16,24}, {"C09",c09,16,24}, {0,0,0,0} };
