/* C12 quadrature nodes and weights; C13 Lagrange evaluation. Oracle: long double recurrences. */
#include "h.h"
#include "c99.h"
#include "name.h"
#include "fail.h"
#include "types.h"
#include "mem.h"
#include "poly.h"
#ifndef M_PIl
#define M_PIl 3.141592653589793238462643383279502884L
#endif
#define EPS 2.220446049250313e-16L
typedef long double ld;

/* Legendre P_n and derivative in long double */
static void leg(int n,ld x,ld *p,ld *dp){ ld a=1,b=x; int k; if(n==0){ *p=1,*dp=0; return; }
  for(k=2;k<=n;k++){ ld c=((2*k-1)*x*b-(k-1)*a)/k; a=b,b=c; }
  *p=b; if(fabsl(x)==1) *dp=(x>0||(n&1))?(ld)n*(n+1)/2:-(ld)n*(n+1)/2; else *dp=n*(x*b-a)/(x*x-1); }
/* exact Gauss node i (ascending) */
static ld gauss_exact(int n,int i){ ld x=-cosl(M_PIl*(i+0.75L)/(n+0.5L)),p,d; int k; if(2*i+1==n) return 0; for(k=0;k<30;k++){ ld s; leg(n,x,&p,&d); s=p/d; x-=s; if(fabsl(s)<1e-19L) break; } return x; }
/* exact Lobatto node: zero of P'_{n-1} */
static ld lob_exact(int n,int i){ int N=n-1,k; ld x,p,d; if(i==0) return -1; if(i==N) return 1; if(2*i==N) return 0; x=-cosl(M_PIl*i/N);
  for(k=0;k<60;k++){ ld s,d2; leg(N,x,&p,&d); d2=(2*x*d-(ld)N*(N+1)*p)/(1-x*x); s=d/d2; x-=s; if(fabsl(s)<1e-19L) break; } return x; }

static void check_rule(const char *nm,int n,const double *z,const double *w,int lob,int deg){
  int i,k; ld mom; 
  for(i=0;i<n;i++){ ld e=lob?lob_exact(n,i):gauss_exact(n,i),er=fabsl(z[i]-e); 
    /* rounding: the last place of the node itself plus the error of evaluating the zero's recurrence (grows like n eps near the ends) */
    vm_max(lob?"max lobatto node error, 1e-3 eps":"max gauss node error, 1e-3 eps",(uint64_t)(er/EPS*1000));
    H_CHECK(er<=6*EPS,"quad-node","%s n=%d node %d is %.17g, true zero %.20Lg (error %.2Lg)",nm,n,i,z[i],e,er);
    H_CHECK(i==0||z[i]>z[i-1],"quad-order","%s n=%d nodes %d and %d are not ascending: %.17g %.17g",nm,n,i-1,i,z[i-1],z[i]);
    H_CHECK(fabs(z[i]+z[n-1-i])<=4*EPS,"quad-symmetry","%s n=%d nodes %d and %d not symmetric: %.17g %.17g",nm,n,i,n-1-i,z[i],z[n-1-i]);
    H_CHECK(lob?(z[i]>=-1&&z[i]<=1):(z[i]>-1&&z[i]<1),"quad-inside","%s n=%d node %d = %.17g is outside",nm,n,i,z[i]); }
  if(lob) H_CHECK(z[0]==-1&&z[n-1]==1,"quad-ends","%s n=%d end nodes %.17g %.17g",nm,n,z[0],z[n-1]);
  if(!w) return;
  for(i=0;i<n;i++){ H_CHECK(w[i]>0,"quad-weight-sign","%s n=%d weight %d = %.17g is not positive",nm,n,i,w[i]);
    H_CHECK(fabs(w[i]-w[n-1-i])<=1e-12*w[i],"quad-weight-symmetry","%s n=%d weights %d and %d differ: %.17g %.17g",nm,n,i,n-1-i,w[i],w[n-1-i]); }
  /* weights against the closed formula */
  for(i=0;i<n;i++){ ld e,p,d,rel; if(lob){ ld x=lob_exact(n,i); leg(n-1,x,&p,&d); e=2/((ld)n*(n-1)*p*p); } else { ld x=gauss_exact(n,i); leg(n,x,&p,&d); e=2/((1-x*x)*d*d); }
    rel=fabsl(w[i]-e)/e; vm_max(lob?"max lobatto weight error, 1e-3 n eps":"max gauss weight error, 1e-3 n eps",(uint64_t)(rel/EPS/n*1000)); 
    H_CHECK(rel<=((n+8)*16+(lob?0:6*(ld)2*(n+1)*fabsl(z[i])/(1-(ld)z[i]*z[i])))*EPS,"quad-weight","%s n=%d weight %d is %.17g, true %.20Lg (relative error %.2Lg)",nm,n,i,w[i],e,rel); }
  /* exactness: all Legendre polynomials up to the nominal degree */
  { ld *P0=hmalloc(n*sizeof(ld)),*P1=hmalloc(n*sizeof(ld)),*D0=hmalloc(n*sizeof(ld)),*D1=hmalloc(n*sizeof(ld));   /* P_k, P_{k-1} and derivatives at the nodes */
  for(i=0;i<n;i++) P0[i]=1,P1[i]=0,D0[i]=D1[i]=0;
  for(k=0;k<=deg;k++){ ld s=0,sd=0; mom=k==0?2:0;
    if(k) for(i=0;i<n;i++){ ld x=z[i],p=((2*k-1)*x*P0[i]-(k-1)*P1[i])/k,d=D1[i]+(2*k-1)*P0[i]; P1[i]=P0[i],P0[i]=p,D1[i]=D0[i],D0[i]=d; }
    for(i=0;i<n;i++){ s+=w[i]*P0[i]; sd+=w[i]*(fabsl(P0[i])*((n+8)*16+(lob?0:6*(ld)2*(n+1)*fabsl(z[i])/(1-(ld)z[i]*z[i])))+fabsl(D0[i])*6); }
    H_CHECK(fabsl(s-mom)<=sd*EPS,"quad-exactness","%s n=%d: integral of P_%d is %.20Lg instead of %Lg (allowed error %.2Lg)",nm,n,k,s,mom,sd*EPS); }
  hfree(P0),hfree(P1),hfree(D0),hfree(D1); }
  h_count("polynomials integrated",deg+1); }

static void c12(struct ctx *c){ struct rng *g=&c->g; int n=c->idx<240?1+(int)(c->idx/2):ri(g,1,c->thorough?400:160), lob=c->idx<240?(int)(c->idx&1):rn(g,2), i; double *z,*w,*z2; 
  if(lob&&n<2) n=2;
  z=g_new(n*sizeof *z); w=g_new(n*sizeof *w); z2=g_new(n*sizeof *z2);
  for(i=0;i<n;i++) z[i]=w[i]=z2[i]=rpct(g,50)?NAN:rgauss(g);
  if(lob) lobatto_nodes(z2,n), lobatto_quad(z,w,n); else gauss_nodes(z2,n), gauss_quad(z,w,n);
  check_rule(lob?"lobatto_nodes":"gauss_nodes",n,z2,0,lob,0);
  check_rule(lob?"lobatto_quad":"gauss_quad",n,z,w,lob,lob?2*n-3:2*n-1);
  g_check("quadrature"); h_count("rules checked",2); h_count("nodes checked",2*n); vm_sig(hfold(n,lob)); h_sample("%s n=%d z[0]=%.17g w[0]=%.17g",lob?"lobatto":"gauss",n,z[0],w[0]); }

/* exact basis values: value, first and second derivative (and absolute sums for the error scale, one order more) */
struct lagx { ld v[3], s[4]; };
static void lag_exact(struct lagx *o,const ld *z,int n,int i,ld x){ ld q0=1,q1=0,q2=0,a0=1,a1=0,a2=0,a3=0,w=1; int j;
  for(j=0;j<n;j++) if(j!=i){ ld d=x-z[j],ad=fabsl(d); q2=q2*d+2*q1; q1=q1*d+q0; q0*=d; a3=a3*ad+3*a2; a2=a2*ad+2*a1; a1=a1*ad+a0; a0*=ad; w*=z[i]-z[j]; }
  o->v[0]=q0/w,o->v[1]=q1/w,o->v[2]=q2/w; w=fabsl(w); o->s[0]=a0/w,o->s[1]=a1/w,o->s[2]=a2/w,o->s[3]=a3/w; }
static void run_lag(struct ctx *c,const char *nm,lagrange_fun *lag,double *data,size_t nd,const ld *z,int n,double x,int gll){ int d,i,k; double *p[3]; struct lagx ex; (void)nd;(void)c;
  for(d=0;d<3;d++){ p[d]=g_new((size_t)(d+1)*n*sizeof(double)); for(i=0;i<(d+1)*n;i++) p[d][i]=NAN; }
  { int ord[3]={0,1,2}; rshuffle(&c->g,ord,3); for(k=0;k<3;k++) lag(p[ord[k]],data,n,ord[k],x); }
  for(i=0;i<n;i++){ lag_exact(&ex,z,n,i,x);
    for(d=0;d<3;d++) for(k=0;k<=d;k++){ ld v=p[d][k*n+i], tol=8*(n+2)*EPS*(ex.s[k]+(gll?ex.s[k+1]:0))+1e-290L, er=fabsl(v-ex.v[k]); 
      if(tol>0) vm_max("max lagrange error, 1e-3 of the allowed error",(uint64_t)(er/tol*1000));
      H_CHECK(er<=tol,k==0?"lagrange-value":k==1?"lagrange-derivative":"lagrange-second-derivative","%s n=%d d=%d x=%.17g: derivative %d of basis %d is %.17g, exactly %.20Lg (allowed error %.2Lg)",nm,n,d,x,k,i,(double)v,ex.v[k],tol); } }
  h_count("basis values checked",6*n);
  g_check("lagrange"); for(d=0;d<3;d++) g_free(p[d]); }
static double pick_x(struct rng *g,const ld *z,int n){ switch(rn(g,8)){ case 0: return -1; case 1: return 1; case 2: case 3: return (double)z[rn(g,n)]; case 4: { double a=(double)z[rn(g,n)]; return nextafter(a,rn(g,2)?2:-2); } case 5: return rdr(g,-1.3,1.3); case 6: return rpct(g,20)?rdr(g,-20,20):rpct(g,50)?0:-0.0; default: return rdr(g,-1,1); } }
static void c13(struct ctx *c){ struct rng *g=&c->g; int n=rpct(g,70)?ri(g,1,30):ri(g,1,c->thorough?90:60), mode=rn(g,3), i,k,np=ri(g,2,8); uint64_t sig=hfold(n,mode); ld *z=hmalloc(n*sizeof(ld)); double *x=hmalloc(np*sizeof(double));
  if(mode==0){ /* the general evaluator on arbitrary distinct nodes */
    double *zz=g_new(n*sizeof(double)),*data=g_new(lagrange_size(n)*sizeof(double)); lagrange_fun *lag; double a=-1,b=1; int st=rn(g,6); 
    if(st==1){ gauss_nodes(zz,n); } else if(st==2&&n>=2){ lobatto_nodes(zz,n); } else if(st==3){ for(i=0;i<n;i++) zz[i]=n>1?-1+2.0*i/(n-1):0.25; } 
    else { double gap=rpct(g,30)?1e-3:0.2; for(i=0;i<n;i++) zz[i]=-1+2*(i+0.5+(0.5-gap/2)*rdr(g,-1,1))/n; 
      if(st==4){ int *p=hmalloc(n*sizeof(int)); double *t=hmalloc(n*sizeof(double)); for(i=0;i<n;i++) p[i]=i,t[i]=zz[i]; rshuffle(g,p,n); for(i=0;i<n;i++) zz[i]=t[p[i]]; hfree(p),hfree(t); } }
    if(rpct(g,25)){ double s=ldexp(1,ri(g,-3,3)),o=rdr(g,-2,2); a=o-s,b=o+s; for(i=0;i<n;i++) zz[i]=o+s*zz[i]; }
    for(i=0;i<n;i++) z[i]=zz[i],sig=hfold(sig,(uint64_t)(int64_t)(zz[i]*1e9));
    for(i=0;i<(int)lagrange_size(n);i++) data[i]=NAN;
    g_freeze(zz); lag=lagrange_setup(data,zz,n); g_check("lagrange_setup");
    if(rpct(g,50)){ g_thaw(zz); } /* nodes need only be readable at set-up? keep them alive: not documented */
    for(k=0;k<np;k++){ double u; ld zr[1]; (void)zr; u=pick_x(g,z,n); if(u<a-1||u>b+1) u=rdr(g,a,b); x[k]=u; run_lag(c,"lagrange",lag,data,lagrange_size(n),z,n,u,0); }
    /* no memory of earlier points */
    { double *p=g_new(3*n*sizeof(double)),*q=g_new(3*n*sizeof(double)); lag(p,data,n,2,x[0]); for(k=1;k<np;k++) lag(q,data,n,rn(g,3),x[k]); lag(q,data,n,2,x[0]); H_CHECK(!memcmp(p,q,3*n*sizeof(double)),"lagrange-memory","lagrange n=%d: evaluating at %.17g again gives other values",n,x[0]); g_free(p),g_free(q); }
  } else { double *data; lagrange_fun *lag; unsigned ns; if(n<2) n=2, hfree(z), z=hmalloc(n*sizeof(ld)); if(c->idx<24*3) n=2+(int)(c->idx/3)+1, hfree(z), z=hmalloc(n*sizeof(ld));
    ns=gll_lag_size(n); data=g_new(ns*sizeof(double)); for(i=0;i<(int)ns;i++) data[i]=NAN; for(i=0;i<n;i++) z[i]=lob_exact(n,i); sig=hfold(sig,n);
    lag=gll_lag_setup(data,n); g_check("gll_lag_setup");
    for(k=0;k<np;k++){ x[k]=pick_x(g,z,n); sig=hfold(sig,(uint64_t)(int64_t)(x[k]*1e9)); run_lag(c,"gll_lag",lag,data,ns,z,n,x[k],1); }
    { double *p=g_new(3*n*sizeof(double)),*q=g_new(3*n*sizeof(double)); lag(p,data,n,2,x[0]); for(k=1;k<np;k++) lag(q,data,n,rn(g,3),x[k]); lag(q,data,n,2,x[0]); H_CHECK(!memcmp(p,q,3*n*sizeof(double)),"lagrange-memory","gll_lag n=%d: evaluating at %.17g again gives other values",n,x[0]); g_free(p),g_free(q); } }
  vm_sig(sig); h_sample("%s n=%d x[0]=%.17g",mode==0?"lagrange":"gll_lag",n,x[0]); hfree(z),hfree(x); }
const struct prop h_props[]={ {"C12",c12,1,40}, {"C13",c13,1,40}, {0,0,0,0} };
