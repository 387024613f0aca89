/* C14: dense kernels and tensor-product applications against their defining sums (long double). */
#include "h.h"
#include "c99.h"
#include "name.h"
#include "fail.h"
#include "types.h"
#include "mem.h"
#include "tensor.h"
typedef long double ld;
#define EPS 2.220446049250313e-16L
#if !defined(GSLIB_USE_CBLAS) && !defined(GSLIB_USE_NAIVE_BLAS)
/* the application (Nek5000) supplies mxm in this configuration */
void mxm(const double *A,const uint *na,const double *B,const uint *nb,double *C,const uint *nc){ uint i,j,k; for(j=0;j<*nc;j++) for(i=0;i<*na;i++){ double s=0; for(k=0;k<*nb;k++) s+=A[i+k**na]*B[k+j**nb]; C[i+j**na]=s; } }
#endif
static int magmode;
static double val(struct rng *g){ if(rpct(g,8)) return 0; if(magmode==1) return ldexp(rgauss(g),ri(g,-100,100)); if(magmode==2) return ri(g,-5,5); return rgauss(g); }
static double *vec(struct rng *g,size_t n){ double *p=g_new(n*sizeof(double)); size_t i; for(i=0;i<n;i++) p[i]=val(g); g_freeze(p); return p; }
static double *outv(size_t n){ double *p=g_new(n*sizeof(double)); size_t i; for(i=0;i<n;i++) p[i]=NAN; return p; }
static uint64_t nval; static ld worst;
static void cmp(const char *what,size_t i,double v,ld e,ld s,int terms){ ld tol=(4+2*terms)*EPS*s+1e-280L; nval++; if(s>0&&fabsl(v-e)/s/EPS>worst) worst=fabsl(v-e)/s/EPS;
  H_CHECK(fabsl(v-e)<=tol,"tensor-value","%s: element %zu is %.17g instead of %.20Lg (allowed error %.2Lg)",what,i,v,e,tol); }
#define S3(v,e,s) 
static void c14(struct ctx *c){ struct rng *g=&c->g; int big=rpct(g,15), mx=big?40:12, rep=ri(g,4,10), r; uint64_t sig=0; nval=0; 
  for(r=0;r<rep;r++){ int op=rn(g,11), i,j,k,l,m; char nm[100]; magmode=rn(g,3);
    int nr=ri(g,1,mx),ns=ri(g,1,mx),nt=ri(g,1,op>=7?(big?14:8):mx),mr=ri(g,1,mx),ms=ri(g,1,mx),mt=ri(g,1,big?14:8); 
    if(rpct(g,15)) nr=1; if(rpct(g,15)) ns=1; if(rpct(g,15)) nt=1; if(rpct(g,10)) mr=1; if(rpct(g,10)) ms=1; if(rpct(g,10)) mt=1; 
    if(op==0&&rpct(g,30)) nr=rpct(g,30)?1+rround(g,4500):ri(g,1,500);
    if(op>=1&&op<=4&&rpct(g,12)){ int *d=rn(g,3)==0?&nr:rn(g,2)?&ns:&nt; *d=rpct(g,40)?1+rround(g,op<=2?1030:300):ri(g,41,op<=2?400:300); if(op>=3&&rpct(g,20)){ nr=ri(g,30,90); ns=ri(g,1,90); nt=ri(g,30,90); } }
    if(op==5&&rpct(g,12)) nr=ri(g,41,300);
    if((op==6||op==8)&&rpct(g,8)){ int *d[4]; d[0]=&nr; d[1]=&ns; d[2]=&mr; d[3]=&ms; *d[rn(g,op==6?2:4)]=ri(g,30,100); }
    if(op==7&&rpct(g,8)){ int *d[3]; d[0]=&nr; d[1]=&ns; d[2]=&nt; if(nr>12) nr=12; if(ns>12) ns=12; if(nt>12) nt=12; *d[rn(g,3)]=ri(g,20,60); }
    sig=hfold(sig,op*1000003+nr*40009+ns*1009+nt*101+mr*31+ms*7+mt);
    switch(op){
    case 0: { double *a=vec(g,nr),*b=vec(g,nr),v; ld e=0,s=0; v=tensor_dot(a,b,nr); for(i=0;i<nr;i++) e+=(ld)a[i]*b[i],s+=fabsl((ld)a[i]*b[i]); cmp("tensor_dot",0,v,e,s,nr); } break;
    case 1: { double *A=vec(g,nr*ns),*x=vec(g,ns),*y=outv(nr); tensor_mxv(y,nr,A,x,ns); sprintf(nm,"tensor_mxv %dx%d",nr,ns); for(i=0;i<nr;i++){ ld e=0,s=0; for(k=0;k<ns;k++) e+=(ld)A[i+k*nr]*x[k],s+=fabsl((ld)A[i+k*nr]*x[k]); cmp(nm,i,y[i],e,s,ns); } } break;
    case 2: { double *A=vec(g,nr*ns),*x=vec(g,ns),*y=outv(nr); tensor_mtxv(y,nr,A,x,ns); sprintf(nm,"tensor_mtxv %dx%d",nr,ns); for(i=0;i<nr;i++){ ld e=0,s=0; for(k=0;k<ns;k++) e+=(ld)A[k+i*ns]*x[k],s+=fabsl((ld)A[k+i*ns]*x[k]); cmp(nm,i,y[i],e,s,ns); } } break;
    case 3: case 4: { double *A=vec(g,nr*ns),*B=vec(g,ns*nt),*C=outv(nr*nt); if(op==3) tensor_mxm(C,nr,A,ns,B,nt); else tensor_mtxm(C,nr,A,ns,B,nt); sprintf(nm,"%s %dx%dx%d",op==3?"tensor_mxm":"tensor_mtxm",nr,ns,nt);
      for(j=0;j<nt;j++) for(i=0;i<nr;i++){ ld e=0,s=0; for(k=0;k<ns;k++){ ld t=(ld)(op==3?A[i+k*nr]:A[k+i*ns])*B[k+j*ns]; e+=t,s+=fabsl(t); } cmp(nm,i+j*nr,C[i+j*nr],e,s,ns); } } break;
    case 5: { double *J=vec(g,2*nr),*u=vec(g,nr),*gr=outv(1),v; ld e[2]={0,0},s[2]={0,0}; for(i=0;i<nr;i++) for(l=0;l<2;l++){ ld t=(ld)J[i+l*nr]*u[i]; e[l]+=t,s[l]+=fabsl(t); } 
      v=tensor_i1(J,nr,u); cmp("tensor_i1",0,v,e[0],s[0],nr); v=tensor_ig1(gr,J,nr,u); cmp("tensor_ig1 value",0,v,e[0],s[0],nr); cmp("tensor_ig1 gradient",0,gr[0],e[1],s[1],nr); } break;
    case 6: { double *Jr=vec(g,2*nr),*Js=vec(g,2*ns),*u=vec(g,nr*ns),*gr=outv(2),*w=outv(ns),*w2=outv(2*nr),v; ld e[3]={0,0,0},s[3]={0,0,0}; 
      for(j=0;j<ns;j++) for(i=0;i<nr;i++) for(l=0;l<3;l++){ ld t=(ld)Jr[i+(l==1)*nr]*Js[j+(l==2)*ns]*u[i+j*nr]; e[l]+=t,s[l]+=fabsl(t); }
      sprintf(nm,"tensor_i2 %dx%d",nr,ns); v=tensor_i2(Jr,nr,Js,ns,u,w); cmp(nm,0,v,e[0],s[0],nr+ns); v=tensor_ig2(gr,Jr,nr,Js,ns,u,w2); sprintf(nm,"tensor_ig2 %dx%d (value, d/dr, d/ds)",nr,ns); cmp(nm,0,v,e[0],s[0],nr+ns); cmp(nm,1,gr[0],e[1],s[1],nr+ns); cmp(nm,2,gr[1],e[2],s[2],nr+ns); } break;
    case 7: { double *Jr=vec(g,2*nr),*Js=vec(g,2*ns),*Jt=vec(g,2*nt),*u=vec(g,nr*ns*nt),*gr=outv(3),*w=outv(ns*nt+nt),*w2=outv(2*nr*ns+3*nr),v; ld e[4]={0,0,0,0},s[4]={0,0,0,0};
      for(k=0;k<nt;k++) for(j=0;j<ns;j++) for(i=0;i<nr;i++) for(l=0;l<4;l++){ ld t=(ld)Jr[i+(l==1)*nr]*Js[j+(l==2)*ns]*Jt[k+(l==3)*nt]*u[i+nr*(j+ns*k)]; e[l]+=t,s[l]+=fabsl(t); }
      sprintf(nm,"tensor_i3 %dx%dx%d",nr,ns,nt); v=tensor_i3(Jr,nr,Js,ns,Jt,nt,u,w); cmp(nm,0,v,e[0],s[0],nr+ns+nt); v=tensor_ig3(gr,Jr,nr,Js,ns,Jt,nt,u,w2); sprintf(nm,"tensor_ig3 %dx%dx%d (value, d/dr, d/ds, d/dt)",nr,ns,nt); cmp(nm,0,v,e[0],s[0],nr+ns+nt); for(l=1;l<4;l++) cmp(nm,l,gr[l-1],e[l],s[l],nr+ns+nt); } break;
    case 8: { double *A=vec(g,mr*nr),*B=vec(g,ms*ns),*u=vec(g,mr*ms),*o=outv(nr*ns),*w=outv(nr*ms); tensor_2t(o,A,nr,mr,B,ns,ms,u,w); sprintf(nm,"tensor_2t out %dx%d in %dx%d",nr,ns,mr,ms);
      for(j=0;j<ns;j++) for(i=0;i<nr;i++){ ld e=0,s=0; for(m=0;m<ms;m++) for(l=0;l<mr;l++){ ld t=(ld)A[l+i*mr]*B[m+j*ms]*u[l+m*mr]; e+=t,s+=fabsl(t); } cmp(nm,i+j*nr,o[i+j*nr],e,s,mr+ms); } } break;
    default: { if(!big||1){ if(nr>9) nr=9; if(ns>9) ns=9; if(nt>9) nt=9; if(mr>9) mr=9; if(ms>9) ms=9; if(mt>9) mt=9; }
      if(rpct(g,12)){ int *d[6]; d[0]=&nr; d[1]=&ns; d[2]=&nt; d[3]=&mr; d[4]=&ms; d[5]=&mt; for(i=0;i<6;i++) if(*d[i]>6) *d[i]=6; *d[rn(g,6)]=ri(g,10,40); }
      double *A=vec(g,mr*nr),*B=vec(g,ms*ns),*C=vec(g,mt*nt),*u=vec(g,mr*ms*mt),*o=outv(nr*ns*nt),*w=outv(nr*(ms+ns)*mt); 
      tensor_3t(o,A,nr,mr,B,ns,ms,C,nt,mt,u,w); sprintf(nm,"tensor_3t out %dx%dx%d in %dx%dx%d",nr,ns,nt,mr,ms,mt);
      for(k=0;k<nt;k++) for(j=0;j<ns;j++) for(i=0;i<nr;i++){ ld e=0,s=0; int n; if(nr*ns*nt>60&&!rpct(g,15)) continue; for(n=0;n<mt;n++) for(m=0;m<ms;m++) for(l=0;l<mr;l++){ ld t=(ld)A[l+i*mr]*B[m+j*ms]*C[n+k*mt]*u[l+mr*(m+ms*n)]; e+=t,s+=fabsl(t); } cmp(nm,i+nr*(j+ns*k),o[i+nr*(j+ns*k)],e,s,mr+ms+mt); }
      for(i=0;i<nr*ns*nt;i++) H_CHECK(!isnan(o[i]),"tensor-unwritten","%s: element %d was not written",nm,i); } }
    g_reset(); }
  h_count("kernel calls",rep); h_count("elements compared",nval); vm_max("max kernel error, 1e-3 eps of the absolute sum",(uint64_t)(worst*1000)); vm_sig(sig); h_sample("kernel calls=%d elements=%ld",rep,(long)nval); }
const struct prop h_props[]={ {"C14",c14,1,40}, {0,0,0,0} };
