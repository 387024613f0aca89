#ifndef H_H
#define H_H
/* Common harness support: seeded generators, guarded caller buffers, oracle helpers. */
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <float.h>
#include <limits.h>
#include "mpi.h"
#include "vmpi.h"

#if defined(__has_feature)
# if __has_feature(address_sanitizer) || __has_feature(memory_sanitizer)
#  define H_SAN 1
# endif
#endif
#if defined(__SANITIZE_ADDRESS__)
# undef H_SAN
# define H_SAN 1
#endif

void *__real_malloc(size_t); void __real_free(void*); void *__real_realloc(void*,size_t);
#define hmalloc __real_malloc
#define hfree   __real_free

struct rng { uint64_t s; };
static inline uint64_t r64(struct rng *r){ uint64_t z=(r->s+=0x9e3779b97f4a7c15ULL); z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
static inline uint64_t mix64(uint64_t a,uint64_t b){ struct rng r; r.s=a*0x9e3779b97f4a7c15ULL^(b+0x7f4a7c15ULL)*0xff51afd7ed558ccdULL; r64(&r); return r64(&r); }
static inline unsigned rn(struct rng *r,unsigned n){ return n?(unsigned)(r64(r)%n):0; }
static inline int ri(struct rng *r,int a,int b){ return a+(int)(r64(r)%(uint64_t)(b-a+1)); } /* inclusive */
static inline int rpct(struct rng *r,int p){ return (int)(r64(r)%100)<p; }
/* sizes at which blocked, chunked or unrolled code has its edges: around powers of two and multiples of big ones; <= mx */
static inline int rround(struct rng *r,int mx){ int k=0,n; while(k<30&&(2LL<<k)<=mx) k++; if(rpct(r,60)) n=1<<rn(r,k+1); else { int b=16<<rn(r,k>6?k-4:1); n=b*(int)(1+rn(r,mx/b>0?mx/b:1)); } n+=rpct(r,50)?0:rpct(r,50)?1:-1; return n<0?0:n>mx?mx:n; }
static inline double rd(struct rng *r){ return (double)(r64(r)>>11)*(1.0/9007199254740992.0); }   /* [0,1) */
static inline double rdr(struct rng *r,double a,double b){ return a+(b-a)*rd(r); }
static inline double rgauss(struct rng *r){ double s=0; int i; for(i=0;i<12;i++) s+=rd(r); return s-6; }
static inline void rshuffle(struct rng *r,int *p,int n){ int i; for(i=n-1;i>0;i--){ int j=(int)rn(r,i+1),t=p[i]; p[i]=p[j]; p[j]=t; } }

struct ctx {
  long idx;         /* case index */
  uint64_t seed;    /* case seed, same on all ranks */
  int np, me;
  int thorough;
  struct rng g;     /* same stream on every rank */
  struct vm_mode mode;
};
struct prop { const char *name; void (*fn)(struct ctx*); int maxnp; /* 1: always one rank */ int chunk; };
extern const struct prop h_props[];     /* provided by the driver, terminated by name=0 */
void h_once(void);                      /* optional per-process initialisation */

/* guarded, exactly sized caller buffers */
void *g_new(size_t n);
void *g_dup(const void *src,size_t n);
void  g_freeze(const void *p);          /* contents must not change from now on */
void  g_thaw(const void *p);
void  g_check(const char *what);        /* guards and frozen contents */
void  g_reset(void);                    /* check and release all */
void  g_private(const void *p);         /* holds handles or the like: not part of what two executions must have in common */
void  h_fold(uint64_t v);               /* another result of the case */
extern uint64_t h_seed; extern long h_leak_slack; extern int sess_noise_pct_all;
void  g_free(void *p);                  /* check and release one */

#define H_FAIL(key,...) vm_violation(key,__VA_ARGS__)
#define H_CHECK(c,key,...) do{ if(!(c)) vm_violation(key,__VA_ARGS__); }while(0)
/* record a deviation that belongs to an already analysed finding; the runner decides */
void h_note(const char *key,const char *fmt,...) __attribute__((format(printf,2,3)));
/* record the case for evidence */
void h_sample(const char *fmt,...) __attribute__((format(printf,1,2)));
static inline uint64_t hfold(uint64_t h,uint64_t v){ h^=v+0x9e3779b97f4a7c15ULL+(h<<6)+(h>>2); return h*0xff51afd7ed558ccdULL; }
void h_count(const char *name,uint64_t n);
#endif
