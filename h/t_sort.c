/* C10, C11: sorting of keys and of arrays of structures */
#include "config.h"
#include "h.h"
#include "gslib.h"
static int pick_n(struct rng *r,int th){ int k=(int)rn(r,100); if(k==99&&rpct(r,8)) return 60000+(int)rn(r,20000); if(k>=94&&rpct(r,40)) return rround(r,rpct(r,10)?70000:9000); if(k<45) return (int)rn(r,40); if(k<70) return (int)rn(r,300); if(k<93) return (int)rn(r,1500); if(k<98||!th) return (int)rn(r,6000); return (int)rn(r,100000); }
/* keys: kind 0 uint, 1 ulong, 2 float, 3 double */
static const int ksz[]={4,8,4,8};
struct kdist { int style; uint64_t s; int n; };
static uint64_t ikey(const struct kdist *d,int bits,int i){ uint64_t h=mix64(d->s,i), full=bits==32?0xffffffffULL:~0ULL; switch(d->style){ case 0: return h&full; case 1: return h%4; case 2: return h&0xff; case 3: return (h&0xff)<<(bits-8); case 4: return 0; case 5: return d->s&full; case 6: return i; case 7: return d->n-i; case 8: return (h%20)?i:h&full; case 9: return h&(0x00ff00ff00ff00ffULL&full); case 10: return full-(h%3); case 11: return (uint64_t)1<<(h%bits); case 12: return (h&1)?(h&0xff00):0; default: return ((h%300)*257)&full; } }
static double fkey(const struct kdist *d,int flt,int i){ uint64_t h=mix64(d->s,i); static const double sp[]={0.0,-0.0,1,-1,INFINITY,-INFINITY,1e-310,-1e-310,4.9e-324,-4.9e-324,DBL_MAX,-DBL_MAX,DBL_MIN,-DBL_MIN}; static const float spf[]={0.0f,-0.0f,1,-1,INFINITY,-INFINITY,1e-40f,-1e-40f,1.4e-45f,-1.4e-45f,FLT_MAX,-FLT_MAX,FLT_MIN,-FLT_MIN}; double u=(double)(int64_t)h*1e-10;
  switch(d->style){ case 1: return (double)(int)(h%5)-2; case 4: return 0; case 5: return -3.25; case 6: return i-d->n/2; case 7: return d->n/2-i; case 8: return (h%20)?i:u; case 9: case 10: return flt?spf[h%14]:sp[h%14]; case 11: return (h&1)?-u:u*1e-30; case 12: return (h%3)?u:flt?spf[(h>>8)%14]:sp[(h>>8)%14]; default: return u; } }
static void key_put(void *p,const struct kdist *d,int kind,int i){ if(kind==0){ uint v=(uint)ikey(d,32,i); memcpy(p,&v,4); } else if(kind==1){ ulong v=ikey(d,64,i); memcpy(p,&v,8); } else if(kind==2){ float v=(float)fkey(d,1,i); memcpy(p,&v,4); } else { double v=fkey(d,0,i); memcpy(p,&v,8); } }
static int key_cmp(const void *a,const void *b,int kind){ switch(kind){ case 0: { uint x,y; memcpy(&x,a,4),memcpy(&y,b,4); return x<y?-1:x>y; } case 1: { ulong x,y; memcpy(&x,a,8),memcpy(&y,b,8); return x<y?-1:x>y; } case 2: { float x,y; memcpy(&x,a,4),memcpy(&y,b,4); return x<y?-1:x>y; } default: { double x,y; memcpy(&x,a,8),memcpy(&y,b,8); return x<y?-1:x>y; } } }
/* stable merge sort of ord by nk keys at base+off */
struct kspec { const char *base; size_t stride; int nk, off[4], kind[4]; };
static int spec_cmp(const struct kspec *k,int a,int b){ int f,c=0; for(f=0;f<k->nk&&!c;f++) c=key_cmp(k->base+k->stride*a+k->off[f],k->base+k->stride*b+k->off[f],k->kind[f]); return c; }
static void ref_sort(const struct kspec *k,int *ord,int n){ int w,*tmp=hmalloc((n+1)*sizeof(int)); for(w=1;w<n;w*=2){ int lo; for(lo=0;lo<n;lo+=2*w){ int a=lo,am=lo+w<n?lo+w:n,b=am,bm=lo+2*w<n?lo+2*w:n,o=lo; while(a<am||b<bm){ int take=a==am?1:b==bm?0:spec_cmp(k,ord[a],ord[b])>0; tmp[o++]=take?ord[b++]:ord[a++]; } } memcpy(ord,tmp,n*sizeof(int)); } hfree(tmp); }
static void bufs_free(buffer *b){ if(b->ptr) buffer_free(b); b->ptr=0,b->n=b->max=0; }
static int ucmp(const void *a,const void *b){ return memcmp(a,b,8); }
static void c10(struct ctx *c){ struct rng r=c->g; int rep,reps=1+(int)rn(&r,6); buffer buf=null_buffer; uint64_t sig=1; int n=0,kind=0; static const char *kn[]={"uint","ulong","float","double"};
  if(rpct(&r,40)) buffer_init(&buf,rn(&r,3000));
  for(rep=0;rep<reps;rep++){ struct kdist d; size_t stride; char *A; int i,what=(int)rn(&r,3),*ord; struct kspec k; int sz; 
    n=pick_n(&r,c->thorough); kind=(int)rn(&r,4); sz=ksz[kind]; d.style=(int)rn(&r,14); d.s=r64(&r); d.n=n; stride=sz*(rpct(&r,50)?1:1+rn(&r,6)); sig=hfold(sig,d.s^n^(kind<<20)^(d.style<<24)^((uint64_t)stride<<40));
    if(stride>(size_t)sz&&rpct(&r,20)) stride=((stride+3)/4*4)+(sz==4?4:8), stride=stride/sz*sz;
    /* the array ends exactly behind the last key */
    A=g_new(n?(n-1)*stride+sz:0); memset(A,0x5b,n?(n-1)*stride+sz:0); for(i=0;i<n;i++) key_put(A+i*stride,&d,kind,i);
    k.base=A,k.stride=stride,k.nk=1,k.off[0]=0,k.kind[0]=kind; ord=hmalloc((n+1)*sizeof(int)); for(i=0;i<n;i++) ord[i]=i;
    if(what==0){ /* values */
      int alias=stride==(size_t)sz&&rpct(&r,50); char *out=alias?A:g_new((size_t)n*sz),*copy=hmalloc((size_t)n*sz+1),*o2; uint64_t *m1,*m2; 
      for(i=0;i<n;i++) memcpy(copy+i*sz,A+i*stride,sz); if(!alias) g_freeze(A); 
      switch(kind){ case 0: sortv((uint*)out,(uint*)A,n,stride,&buf); break; case 1: sortv_long((ulong*)out,(ulong*)A,n,stride,&buf); break; case 2: sortv_float((float*)out,(float*)A,n,stride,&buf); break; default: sortv_double((double*)out,(double*)A,n,stride,&buf); }
      g_check("sortv"); k.base=copy,k.stride=sz; ref_sort(&k,ord,n);
      for(i=0;i<n;i++) H_CHECK(!key_cmp(out+i*sz,copy+(size_t)ord[i]*sz,kind),"sortv-wrong","sortv %s n=%d stride=%d style=%d: position %d differs from the sorted order",kn[kind],n,(int)stride,d.style,i);
      m1=hmalloc(n*8+8),m2=hmalloc(n*8+8); memset(m1,0,n*8+8),memset(m2,0,n*8+8); for(i=0;i<n;i++) memcpy(&m1[i],copy+i*sz,sz),memcpy(&m2[i],out+i*sz,sz); qsort(m1,n,8,ucmp),qsort(m2,n,8,ucmp); H_CHECK(!n||!memcmp(m1,m2,n*8),"sortv-wrong","sortv %s n=%d style=%d: output is not a rearrangement of the input",kn[kind],n,d.style);
      (void)o2; hfree(m1); hfree(m2); hfree(copy); if(!alias) g_free(out); g_free(A); h_count("keys sorted by value",n); }
    else { int start=what==2; uint *p,*ret=0; g_freeze(A);
      if(start){ buffer_reserve(&buf,n*sizeof(uint)); rshuffle(&r,ord,n); p=buf.ptr; for(i=0;i<n;i++) p[i]=ord[i]; }
      switch(kind){ case 0: ret=sortp(&buf,start,(uint*)A,n,stride); break; case 1: ret=sortp_long(&buf,start,(ulong*)A,n,stride); break; case 2: ret=sortp_float(&buf,start,(float*)A,n,stride); break; default: ret=sortp_double(&buf,start,(double*)A,n,stride); }
      g_check("sortp"); p=buf.ptr; H_CHECK(ret==p||!n,"sortp-wrong","sortp did not return the start of the buffer"); ref_sort(&k,ord,n);
      H_CHECK(buf.max>=n*sizeof(uint),"sortp-wrong","buffer smaller than the permutation");
      for(i=0;i<n;i++) H_CHECK((int)p[i]==ord[i],"sortp-wrong","sortp %s n=%d stride=%d style=%d start=%d: entry %d is %u, the stable order has %d",kn[kind],n,(int)stride,d.style,start,i,p[i],ord[i]);
      g_free(A); h_count("keys sorted by index",n); }
    hfree(ord); if(rpct(&r,20)) bufs_free(&buf); }
  vm_sig(sig); h_sample("sorts=%d last: n=%d type=%s",reps,n,kn[kind]); bufs_free(&buf); }

/* ---- C11 */
struct S1 { uint a; ulong b; float f; double d; char t[3]; uint c; };
struct S2 { char x; uint a; short y; uint b; };
struct S3 { ulong a,b; double d,e; float f[5]; };
struct S4 { uint a; };
#define FIELD(T,f,kd) do{ k.off[m]=(int)offsetof(T,f); k.kind[m]=kd; m++; }while(0)
static const int il[]={0,1,2,3};
static void rand_bytes(struct rng *r,void *p,size_t n){ size_t i; for(i=0;i<n;i++) ((char*)p)[i]=(char)r64(r); }
/* growable arrays against a plain model: records keep their place and value through every growth */
#define AOPS(T,fill) do{ struct array a=null_array; T *mod=hmalloc(6000*sizeof(T)); size_t mn=0; int st,steps=1+(int)rn(&r,14); if(rpct(&r,60)){ size_t m0=rn(&r,30); array_init(T,&a,m0); H_CHECK(a.n==0&&a.max==m0,"array-init","array_init(%d) gives n=%d max=%d",(int)m0,(int)a.n,(int)a.max); } \
  for(st=0;st<steps;st++){ int op=(int)rn(&r,5); size_t k=rpct(&r,70)?rn(&r,9):rn(&r,400),i; \
    if(op==0){ T *p=array_reserve(T,&a,mn+k); H_CHECK(p==(T*)a.ptr&&a.max>=mn+k&&a.n==mn,"array-reserve","array_reserve(%d) with %d records gives n=%d max=%d",(int)(mn+k),(int)mn,(int)a.n,(int)a.max); for(i=0;i<k;i++){ T x; rand_bytes(&r,&x,sizeof x); memcpy(p+mn+i,&x,sizeof x); memcpy(mod+mn+i,&x,sizeof x); } a.n+=k; mn+=k; } \
    else if(op==1){ size_t want=mn+k; array_resize(T,&a,want); H_CHECK(a.max==want&&a.n==mn,"array-resize","array_resize(%d) with %d records gives n=%d max=%d",(int)want,(int)mn,(int)a.n,(int)a.max); } \
    else if(op==2){ size_t low=mn?rn(&r,mn+1):0; size_t om=a.max; array_reserve(T,&a,low); H_CHECK(a.n==mn&&a.max>=low&&a.max>=om,"array-reserve","array_reserve(%d) with %d records and room for %d gives n=%d max=%d",(int)low,(int)mn,(int)om,(int)a.n,(int)a.max); } \
    else { T *src=g_new(k*sizeof(T)); rand_bytes(&r,src,k*sizeof(T)); memcpy(mod+mn,src,k*sizeof(T)); g_freeze(src); if(k||a.ptr) { array_cat(T,&a,src,k); mn+=k; } g_free(src); H_CHECK(a.n==mn&&a.max>=mn,"array-cat","array_cat of %d records onto %d gives n=%d max=%d",(int)k,(int)(mn-k),(int)a.n,(int)a.max); } \
    if(mn) H_CHECK(!memcmp(a.ptr,mod,mn*sizeof(T)),"array-contents","records changed by a growing operation (kind %d, now %d records of %d bytes)",op,(int)mn,(int)sizeof(T)); } \
  h_count("array operations",steps); sig=hfold(sig,mn*31+steps); array_free(&a); hfree(mod); }while(0)
static void c11(struct ctx *c){ struct rng r=c->g; int rep,reps=1+(int)rn(&r,5); buffer buf=null_buffer; uint64_t sig=1; int n=0; 
  if(rpct(&r,40)) buffer_init(&buf,rn(&r,3000));
  for(rep=0;rep<reps;rep++){ int i,*ord; char *A,*copy; n=pick_n(&r,0); ord=hmalloc((n+1)*sizeof(int)); for(i=0;i<n;i++) ord[i]=i;
    if(rpct(&r,60)){ struct kspec k; int m=0,j,t=(int)rn(&r,7); size_t sz; struct kdist d[4]; 
      memset(&k,0,sizeof k);
      switch(t){ case 0: sz=sizeof(struct S1); FIELD(struct S1,b,1); break; case 1: sz=sizeof(struct S1); FIELD(struct S1,c,0); FIELD(struct S1,d,3); break; case 2: sz=sizeof(struct S1); FIELD(struct S1,f,2); FIELD(struct S1,a,0); FIELD(struct S1,b,1); break; case 3: sz=sizeof(struct S1); FIELD(struct S1,a,0); FIELD(struct S1,f,2); FIELD(struct S1,d,3); FIELD(struct S1,b,1); break;
        case 4: sz=sizeof(struct S2); FIELD(struct S2,b,0); FIELD(struct S2,a,0); break; case 5: sz=sizeof(struct S3); FIELD(struct S3,e,3); FIELD(struct S3,a,1); FIELD(struct S3,f[2],2); FIELD(struct S3,b,1); break; default: sz=sizeof(struct S4); FIELD(struct S4,a,0); }
      k.nk=m; A=g_new(n*sz); rand_bytes(&r,A,n*sz); for(j=0;j<m;j++){ d[j].style=j+1<m?(rpct(&r,70)?1:rpct(&r,50)?2:4):(int)rn(&r,14); d[j].s=r64(&r); d[j].n=n; for(i=0;i<n;i++) key_put(A+i*sz+k.off[j],&d[j],k.kind[j],i); }
      copy=hmalloc(n*sz+1); memcpy(copy,A,n*sz); k.base=copy,k.stride=sz; ref_sort(&k,ord,n); sig=hfold(sig,d[0].s^n^(t<<20));
      switch(t){ case 0: sarray_sort(struct S1,A,n,b,il[1],&buf); break; case 1: sarray_sort_2(struct S1,A,n,c,il[0],d,il[3],&buf); break; case 2: sarray_sort_3(struct S1,A,n,f,il[2],a,il[0],b,il[1],&buf); break; case 3: sarray_sort_4(struct S1,A,n,a,il[0],f,il[2],d,il[3],b,il[1],&buf); break;
        case 4: sarray_sort_2(struct S2,A,n,b,il[0],a,il[0],&buf); break; case 5: sarray_sort_4(struct S3,A,n,e,il[3],a,il[1],f[2],il[2],b,il[1],&buf); break; default: sarray_sort(struct S4,A,n,a,il[0],&buf); }
      g_check("sarray_sort"); for(i=0;i<n;i++) H_CHECK(!memcmp(A+i*sz,copy+ord[i]*sz,sz),"sarray-sort","sarray_sort with %d fields, %d records of %d bytes (type %d): position %d must hold record %d",m,n,(int)sz,t,i,ord[i]);
      h_count("records sorted",n); hfree(copy); g_free(A); }
    else { size_t sz=1+rn(&r,rpct(&r,20)?120:20),al=(size_t)1<<rn(&r,4); int usebuf=(int)rn(&r,2),style=(int)rn(&r,5); uint *p; void *work=0; if(usebuf&&al>sz) sz=al; if(usebuf) sz=(sz+al-1)/al*al;
      A=g_new(n*sz); rand_bytes(&r,A,n*sz); copy=hmalloc(n*sz+1); memcpy(copy,A,n*sz);
      if(style==1) for(i=0;i<n;i++) ord[i]=(i+1)%n; else if(style==2) for(i=0;i<n;i++) ord[i]=n-1-i; else if(style==3) rshuffle(&r,ord,n); if(style==4) for(i=0;i+1<n;i+=2) ord[i]=i+1,ord[i+1]=i;
      if(usebuf){ buffer_reserve(&buf,n*sizeof(uint)+rn(&r,3)); p=buf.ptr; } else { p=g_new(n*sizeof(uint)); work=g_new(sz); } for(i=0;i<n;i++) p[i]=ord[i]; sig=hfold(sig,style*1000+sz+((uint64_t)n<<20)+r.s);
      if(usebuf) sarray_permute_buf_(al,sz,A,n,&buf); else sarray_permute_(sz,A,n,p,work);
      g_check("sarray_permute"); if(usebuf) p=buf.ptr;
      for(i=0;i<n;i++){ H_CHECK(!memcmp(A+i*sz,copy+ord[i]*sz,sz),"sarray-permute","sarray_permute of %d records of %d bytes (permutation style %d): position %d must hold record %d",n,(int)sz,style,i,ord[i]); H_CHECK((int)p[i]==ord[i],"sarray-permute-perm","sarray_permute of %d records: permutation entry %d was %d and is now %d",n,i,ord[i],(int)p[i]); }
      h_count("records permuted",n); if(!usebuf) g_free(p),g_free(work); g_free(A); hfree(copy); }
    if(rpct(&r,30)){ uint *p=g_new(n*sizeof(uint)),*q=g_new(n*sizeof(uint)); rshuffle(&r,ord,n); for(i=0;i<n;i++) p[i]=ord[i]; if(n) memset(q,0xee,n*sizeof(uint)); g_freeze(p); sarray_perm_invert(q,p,n); for(i=0;i<n;i++) H_CHECK(q[p[i]]==(uint)i,"perm-invert","sarray_perm_invert of %d entries: entry %d is %u",n,(int)p[i],q[p[i]]); h_count("permutations inverted",1); g_free(p); g_free(q); }
    if(rpct(&r,15)) switch(rn(&r,4)){ case 0: AOPS(struct S1,); break; case 1: AOPS(char,); break; case 2: AOPS(struct S3,); break; default: AOPS(ulong,); }
    hfree(ord); if(rpct(&r,20)) bufs_free(&buf); }
  vm_sig(sig); h_sample("operations=%d last n=%d",reps,n); bufs_free(&buf); }
const struct prop h_props[]={ {"C10",c10,1,40}, {"C11",c11,1,40}, {0,0,0,0} };
