/* C25: misuse of integer handles and arguments through the Fortran entry points */
#include "config.h"
#include "h.h"
#include "gslib.h"
#include "sess.h"
#include <unistd.h>
#include <regex.h>
typedef int fint; typedef const fint *CI; typedef const double *CD;
#define F(x) fgslib_##x##_
void F(gs_setup_pick)(fint*,const slong*,CI,const MPI_Fint*,CI,CI); void F(gs_setup)(fint*,const slong*,CI,const MPI_Fint*,CI);
void F(gs_op)(CI,void*,CI,CI,CI); void F(gs_op_vec)(CI,void*,CI,CI,CI,CI); void F(gs_op_many)(CI,void*,void*,void*,void*,void*,void*,CI,CI,CI,CI);
void F(igs_op)(CI,void*,CI,CI,CI,int*); void F(igs_op_vec)(CI,void*,CI,CI,CI,CI,int*); void F(igs_op_many)(CI,void*,void*,void*,void*,void*,void*,CI,CI,CI,CI,int*);
void F(gs_op_wait)(int*); void F(gs_op_fields)(CI,void*,CI,CI,CI,CI,CI); void F(gs_free)(CI); void F(gs_unique)(slong*,CI,const MPI_Fint*,CI);
void F(crystal_setup)(fint*,const MPI_Fint*,CI); void F(crystal_free)(fint*); void F(crystal_ituple_sort)(CI,fint*,CI,CI,CI,CI);
void F(crystal_tuple_sort)(CI,CI,fint*,CI,slong*,CI,double*,CI,CI,CI); void F(crystal_ituple_transfer)(CI,fint*,CI,fint*,CI,CI);
void F(crystal_tuple_transfer)(CI,fint*,CI,fint*,CI,slong*,CI,double*,CI,CI);
void F(findpts_setup)(int*,CI,CI,CI,CD,CD,CD,CI,CI,CI,CI,CI,CI,CI,CD,CI,CI,CI,CD);
void F(findptsms_setup)(int*,CI,CI,CI,CD,CD,CD,CI,CI,CI,CI,CI,CI,CI,CD,CI,CI,CI,CD,const uint*,CD);
void F(findpts)(CI,int*,CI,int*,CI,int*,CI,double*,CI,double*,CI,CD,CI,CD,CI,CD,CI,CI);
void F(findptsms)(CI,int*,CI,int*,CI,int*,CI,double*,CI,double*,CI,CD,CI,CD,CI,CD,CI,const uint*,const uint*,const uint*,CI);
void F(findpts_eval)(CI,double*,CI,CI,CI,CI,CI,CI,CI,CD,CI,CI,CD); void F(findptsms_eval)(CI,double*,CI,CI,CI,CI,CI,CI,CI,CD,CI,CI,CD);
void F(findpts_eval_local)(CI,double*,CI,CI,CI,CD,CI,CI,CD); void F(findptsms_eval_local)(CI,double*,CI,CI,CI,CD,CI,CI,CD);
void F(findpts_free)(CI); void F(findptsms_free)(CI);

/* the caller's data: frozen while a bad call runs */
#define NB 8
static struct data { void *b[NB]; fint *i[8]; size_t n; struct rng r; } D;
static void data_new(uint64_t s){ int k; size_t j; D.r.s=s; D.n=64+rn(&D.r,200); for(k=0;k<NB;k++){ unsigned char *p=D.b[k]=g_new(D.n*8); for(j=0;j<D.n*8;j++) p[j]=(unsigned char)r64(&D.r); g_freeze(p); } for(k=0;k<8;k++){ D.i[k]=g_new(sizeof(fint)); *D.i[k]=0; } }
static CI I(int k,fint v){ *D.i[k]=v; return D.i[k]; }
static void data_free(void){ int k; for(k=0;k<NB;k++) g_free(D.b[k]); for(k=0;k<8;k++) g_free(D.i[k]); }

static char out[4096]; static long from;
static void mark_out(void){ fflush(0); from=(long)lseek(1,0,SEEK_END); }
static void read_out(void){ long to; ssize_t n; fflush(0); to=(long)lseek(1,0,SEEK_END); n=to-from; if(n>(long)sizeof out-1) n=sizeof out-1, from=to-n; n=n>0?pread(1,out,n,from):0; out[n>0?n:0]=0; }
static int has(const char *re){ regex_t x; int r; if(regcomp(&x,re,REG_EXTENDED|REG_NOSUB|REG_ICASE)) return 1; r=!regexec(&x,out,0,0,0); regfree(&x); return r; }
static const char *what; static char desc[300];
static void judge(const char *re,int shared){ (void)shared; read_out(); g_check(what);
  H_CHECK(vm_exit_status!=0,"misuse-status","%s: the process ends with status 0",desc);
  H_CHECK(has(re),"misuse-diagnostic","%s: nothing printed matches \"%s\": \"%.200s\"",desc,re,out); h_count("bad calls that ended with a diagnostic",1); }
#define BAD(re,call) do{ int i_; for(i_=0;i_<8;i_++) g_freeze(D.i[i_]); mark_out(); vm_exit_status=-1; if(!setjmp(vm_exit_jmp)){ vm_exit_armed=1; call; vm_exit_armed=0; read_out(); H_FAIL("misuse-obeyed","%s: the call returned",desc); } judge(re,0); for(i_=0;i_<8;i_++) g_thaw(D.i[i_]); }while(0)

/* valid objects, so that tables have live, freed and unused places */
struct tab { fint top; int n, live[32]; fint h[32]; int kind[32]; };
static struct tab T[3]={{-1},{-1},{-1}}; /* gs, crystal, findpts */
static fint bad_handle(struct tab *t,struct rng *r,char *s,size_t n){ int k,m; fint top=t->top;
  for(m=0;m<20;m++) switch(rn(r,7)){ 
    case 0: snprintf(s,n,"negative handle"); return -1-(fint)rn(r,3);
    case 1: snprintf(s,n,"most negative handle"); return INT_MIN+(fint)rn(r,3);
    case 2: snprintf(s,n,"largest handle"); return INT_MAX-(fint)rn(r,3);
    case 3: snprintf(s,n,"next handle, never issued"); return top+1;
    case 4: snprintf(s,n,"handle never issued"); return top+1+(fint)rn(r,1000);
    default: if(t->n){ k=(int)rn(r,t->n); if(!t->live[k]){ int j; for(j=0;j<t->n;j++) if(t->live[j]&&t->h[j]==t->h[k]) break; if(j<t->n) break; snprintf(s,n,"handle %d, freed",t->h[k]); return t->h[k]; } } }
  snprintf(s,n,"negative handle"); return -1; }
static int pick_live(struct tab *t,struct rng *r){ int k,c[32],n=0; for(k=0;k<t->n;k++) if(t->live[k]) c[n++]=k; return n?c[rn(r,n)]:-1; }
static double XY[3][27];
static void mesh(void){ int i,j,k; for(k=0;k<3;k++) for(j=0;j<3;j++) for(i=0;i<3;i++){ XY[0][i+3*j+9*k]=i-1; XY[1][i+3*j+9*k]=j-1; XY[2][i+3*j+9*k]=k-1; } }
static void fp_setup(fint *h,int ms,int dim,fint fc,fint np){ static const fint three=3,one=1,lh=10,gh=10,nm=8,m6=6; static const double bb=.1,tol=1e-12; static uint sid; static double dist[27]; fint nd=dim; mesh(); sid=0;
  if(ms) F(findptsms_setup)(h,&fc,&np,&nd,XY[0],XY[1],XY[2],&three,&three,&three,&one,&m6,&m6,&m6,&bb,&lh,&gh,&nm,&tol,&sid,dist);
  else F(findpts_setup)(h,&fc,&np,&nd,XY[0],XY[1],XY[2],&three,&three,&three,&one,&m6,&m6,&m6,&bb,&lh,&gh,&nm,&tol); }
static void obj_new(struct sess *s,struct rng *r){ int t=(int)rn(r,3); struct tab *x=&T[t]; int k=x->n; fint fc=MPI_Comm_c2f(s->mc),np=s->np; if(k==32) return; x->kind[k]=0; x->h[k]=-77;
  switch(t){ case 0: { slong id[4]; fint n=4,m=1+(fint)rn(r,2); int i; for(i=0;i<4;i++) id[i]=1+(slong)rn(r,5); F(gs_setup_pick)(&x->h[k],id,&n,&fc,&np,&m); break; }
    case 1: F(crystal_setup)(&x->h[k],&fc,&np); break;
    default: x->kind[k]=(int)rn(r,2)+2*(int)rn(r,2); fp_setup(&x->h[k],x->kind[k]&1,2+(x->kind[k]>>1),fc,np); }
  x->live[k]=1; x->n++; if(x->h[k]>x->top) x->top=x->h[k]; }
static void obj_free(int t,int k){ struct tab *x=&T[t]; x->live[k]=0; switch(t){ case 0: F(gs_free)(&x->h[k]); break; case 1: { fint h=x->h[k]; F(crystal_free)(&h); break; } default: if(x->kind[k]&1) F(findptsms_free)(&x->h[k]); else F(findpts_free)(&x->h[k]); } }

static void use_gs(int fn,fint h,fint dom,fint op,const char *re){ void **b=D.b; CI ih=I(0,h),id=I(1,dom),io=I(2,op),tr=I(3,0),vn=I(4,2),st=I(5,4); fint *w=D.i[6]; *w=-5;
  switch(fn){ case 0: BAD(re,F(gs_op)(ih,b[0],id,io,tr)); break; case 1: BAD(re,F(gs_op_vec)(ih,b[0],vn,id,io,tr)); break; case 2: BAD(re,F(gs_op_many)(ih,b[0],b[1],b[2],b[3],b[4],b[5],vn,id,io,tr)); break;
    case 3: BAD(re,F(igs_op)(ih,b[0],id,io,tr,w)); break; case 4: BAD(re,F(igs_op_vec)(ih,b[0],vn,id,io,tr,w)); break; case 5: BAD(re,F(igs_op_many)(ih,b[0],b[1],b[2],b[3],b[4],b[5],vn,id,io,tr,w)); break;
    case 6: BAD(re,F(gs_op_fields)(ih,b[0],st,vn,id,io,tr)); break; default: BAD(re,F(gs_free)(ih)); } }
static const char *gsn[]={"gs_op","gs_op_vec","gs_op_many","igs_op","igs_op_vec","igs_op_many","gs_op_fields","gs_free"};
static const char *crn[]={"crystal_ituple_sort","crystal_tuple_sort","crystal_ituple_transfer","crystal_tuple_transfer","crystal_free"};
static const char *fpn[]={"findpts","findpts_eval","findpts_eval_local","findpts_free","findptsms","findptsms_eval","findptsms_eval_local","findptsms_free"};
static fint bad_code(struct rng *r,fint lo,fint hi){ switch(rn(r,5)){ case 0: return lo-1; case 1: return hi+1; case 2: return -(fint)rn(r,1000)-1; case 3: return hi+1+(fint)rn(r,100000); default: return rpct(r,50)?INT_MIN:INT_MAX; } }
/* diagnostics of any length: nothing is overwritten, the beginning of the text and the status come out */
static char *text(struct rng *r,char *lead,int n){ char *p=g_new(n+1); int i; for(i=0;i<n;i++) p[i]=(char)(rpct(r,3)?'%':'a'+rn(r,26)); for(i=0;i<n&&lead[i];i++) p[i]=lead[i]; p[n]=0; g_freeze(p); return p; }
static int tlen(struct rng *r){ switch(rn(r,5)){ case 0: return (int)rn(r,20); case 1: return 1900+(int)rn(r,300); case 2: return (int)rn(r,6000); case 3: return 4096; default: return (int)rn(r,200); } }
static void diag(struct rng *r){ char lead[24],*f,*m; int lf=tlen(r),lm=tlen(r),st=1+(int)rn(r,255),line=(int)rn(r,100000),w=(int)rn(r,3); snprintf(lead,sizeof lead,"Q%u",rn(r,1000000)); f=text(r,(char*)"F",lf%300); m=text(r,lead,lm); what="diagnostic"; snprintf(desc,sizeof desc,"a diagnostic of %d characters in a file name of %d",lm,lf%300);
  mark_out(); vm_exit_status=-1; 
  if(w==0){ diagnostic("NOTE ",f,line,"%s",m); read_out(); g_check(what); }
  else { if(!setjmp(vm_exit_jmp)){ vm_exit_armed=1; if(w==1) fail(st,f,line,"%s",m); else fail(st,f,line,"%d %s %s %g",line,m,m,1.5); } read_out(); g_check(what); H_CHECK(vm_exit_status==st,"misuse-status","%s: fail(%d) ended with status %d",desc,st,vm_exit_status); }
  if(lm>8) H_CHECK(has(lead),"misuse-diagnostic","%s: nothing of the message \"%.10s\" was printed: \"%.200s\"",desc,m,out);
  g_free(f); g_free(m); h_count("diagnostics of any length",1); }
static void c25(struct ctx *c){ struct sess s; struct rng r; int k,n,nobj,nbad; uint64_t sig=3; char hd[100],re[100];
  int noise=sess_noise_pct; sess_noise_pct=0; sess_open(&s,c); sess_noise_pct=noise; r.s=s.seed; for(k=0;k<3;k++) T[k].n=0;
  nobj=(int)rn(&r,9); for(k=0;k<nobj;k++){ int t=(int)rn(&r,3); obj_new(&s,&r); if(rpct(&r,35)){ int q=pick_live(&T[t],&r); if(q>=0) obj_free(t,q); } }
  nbad=1+(int)rn(&r,12); 
  for(n=0;n<nbad;n++){ void **b; fint h; int fn; struct rng l; data_new(r64(&r)); b=D.b; sig=hfold(sig,r.s); l=r; 
    switch(rn(&r,9)){
     case 8: diag(&r); break;
     case 0: case 1: fn=(int)rn(&r,8); h=bad_handle(&T[0],&r,hd,sizeof hd); what=gsn[fn]; snprintf(desc,sizeof desc,"%s with a %s",what,hd); use_gs(fn,h,1+(fint)rn(&r,3),1+(fint)rn(&r,4),"handle"); break;
     case 2: { int q=pick_live(&T[0],&r); fint dom=1+(fint)rn(&r,3),op=1+(fint)rn(&r,4); int w=(int)rn(&r,2); if(q<0) break; fn=(int)rn(&r,7); what=gsn[fn]; if(w) dom=bad_code(&r,1,3),snprintf(re,sizeof re,"(type|domain).*%d",dom); else op=bad_code(&r,1,4),snprintf(re,sizeof re,"op.*%d",op);
       snprintf(desc,sizeof desc,"%s with %s %d",what,w?"datatype":"operation",w?dom:op); use_gs(fn,T[0].h[q],dom,op,re); break; }
     case 3: { CI ih,i2,i3,i4,i5; fint *nn; fn=(int)rn(&r,5); h=bad_handle(&T[1],&r,hd,sizeof hd); what=crn[fn]; snprintf(desc,sizeof desc,"%s with a %s",what,hd); ih=I(0,h),i2=I(1,3),i3=I(2,1),i4=I(3,20),i5=I(5,3); nn=D.i[4]; *nn=5;
       switch(fn){ case 0: BAD("handle",F(crystal_ituple_sort)(ih,b[0],i2,nn,i3,i3)); break; case 1: BAD("handle",F(crystal_tuple_sort)(ih,nn,b[0],i2,b[1],i3,b[2],i3,i3,i3)); break; case 2: BAD("handle",F(crystal_ituple_transfer)(ih,b[0],i2,nn,i4,i3)); break;
         case 3: BAD("handle",F(crystal_tuple_transfer)(ih,nn,i4,b[0],i2,b[1],i3,b[2],i3,i3)); break; default: BAD("handle",F(crystal_free)((fint*)ih)); } (void)i5; break; }
     case 4: { int q=pick_live(&T[1],&r); fint *keys; fint nk,j,mi=(fint)rn(&r,4),ml=(fint)rn(&r,3); if(q<0||!(mi+ml)) break; nk=1+(fint)rn(&r,3); keys=g_new(nk*sizeof(fint)); for(j=0;j<nk;j++) keys[j]=1+(fint)rn(&r,mi+ml); j=(fint)rn(&r,nk); keys[j]=rpct(&r,50)?bad_code(&r,1,mi+ml):mi+ml+1; if(keys[j]==INT_MIN) keys[j]=0; g_freeze(keys);
       what="crystal_tuple_sort"; snprintf(desc,sizeof desc,"crystal_tuple_sort with key %d of %d columns",keys[j],mi+ml); { CI ih=I(0,T[1].h[q]),in=I(1,5),imi=I(2,mi),iml=I(3,ml),imd=I(4,1),ink=I(5,nk); if(mi) BAD("key",F(crystal_tuple_sort)(ih,in,b[0],imi,b[1],iml,b[2],imd,keys,ink)); else BAD("key",F(crystal_tuple_sort)(ih,in,b[3],imi,b[1],iml,b[2],imd,keys,ink)); } g_free(keys); break; }
     case 5: { CI ih,one,np_; CD dx=b[0],dr=b[1]; fn=(int)rn(&r,8); h=bad_handle(&T[2],&r,hd,sizeof hd); what=fpn[fn]; snprintf(desc,sizeof desc,"%s with a %s",what,hd); ih=I(0,h); one=I(1,3); np_=I(2,4);
       switch(fn){ case 0: BAD("handle",F(findpts)(ih,b[2],one,b[3],one,b[4],one,b[5],one,b[6],one,dx,one,dr,one,dx,one,np_)); break;
         case 1: BAD("handle",F(findpts_eval)(ih,b[5],one,b[2],one,b[3],one,b[4],one,dr,one,np_,dx)); break; case 2: BAD("handle",F(findpts_eval_local)(ih,b[5],one,b[4],one,dr,one,np_,dx)); break; case 3: BAD("handle",F(findpts_free)(ih)); break;
         case 4: BAD("handle",F(findptsms)(ih,b[2],one,b[3],one,b[4],one,b[5],one,b[6],one,dx,one,dr,one,dx,one,b[7],(const uint*)one,(const uint*)one,np_)); break;
         case 5: BAD("handle",F(findptsms_eval)(ih,b[5],one,b[2],one,b[3],one,b[4],one,dr,one,np_,dx)); break; case 6: BAD("handle",F(findptsms_eval_local)(ih,b[5],one,b[4],one,dr,one,np_,dx)); break; default: BAD("handle",F(findptsms_free)(ih)); } break; }
     case 6: { /* wrong process count: collective */ fint np=s.np,fc=MPI_Comm_c2f(s.mc); fint *hh=D.i[7]; CI ic,inp,in,im; do np=rpct(&r,50)?s.np+(fint)rn(&r,3)-1:(fint)rn(&r,100); while(np==s.np); if(rpct(&r,8)) np=-1; *hh=-9; ic=I(0,fc); inp=I(1,np); in=I(2,4); im=I(3,1); fn=(int)rn(&r,6); snprintf(re,sizeof re,"(%u(.|\n)*%d|%d(.|\n)*%u)",(unsigned)np,s.np,s.np,(unsigned)np);
#ifndef GSLIB_USE_MPI
       snprintf(re,sizeof re,"%u",(unsigned)np);
#endif
       { static const char *nm[]={"gs_setup","gs_setup_pick","gs_unique","crystal_setup","findpts_setup","findptsms_setup"}; what=nm[fn]; snprintf(desc,sizeof desc,"%s for %d processes on %d",what,np,s.np); }
       switch(fn){ case 0: BAD(re,F(gs_setup)(hh,b[0],in,ic,inp)); break; case 1: BAD(re,F(gs_setup_pick)(hh,b[0],in,ic,inp,im)); break; case 2: BAD(re,F(gs_unique)(b[0],in,ic,inp)); break; case 3: BAD(re,F(crystal_setup)(hh,ic,inp)); break; default: { int dim=2+(int)rn(&r,2); BAD(re,fp_setup(hh,fn==5,dim,fc,np)); } } break; }
     default: { /* dimension, and waiting for nothing */ fint fc=MPI_Comm_c2f(s.mc); fint *hh=D.i[7]; *hh=-9; if(rpct(&r,50)){ int dim; int ms=(int)rn(&r,2); do dim=rpct(&r,50)?(int)rn(&r,7):(int)bad_code(&r,2,3); while(dim==2||dim==3); snprintf(re,sizeof re,"dim.*%u",(unsigned)dim); what=ms?"findptsms_setup":"findpts_setup"; snprintf(desc,sizeof desc,"%s in %d dimensions",what,dim); BAD(re,fp_setup(hh,ms,dim,fc,s.np)); }
       else if(T[0].n){ int q=pick_live(&T[0],&r); fint dom=1,op=1,tr=0; int w[2],bad; double *u; if(q<0) break; u=g_new(4*8); memset(u,0,32); what="gs_op_wait";
         /* an operation outstanding next to the bad handle; reported or ignored, never obeyed */
         F(igs_op)(&T[0].h[q],u,&dom,&op,&tr,&w[0]); bad=rpct(&r,50)?-1-(int)rn(&r,100):w[0]+1+(int)rn(&r,50); if(rpct(&r,30)) bad=INT_MAX; 
         snprintf(desc,sizeof desc,"gs_op_wait with handle %d while %d is outstanding",bad,w[0]); mark_out(); vm_exit_status=-1; if(!setjmp(vm_exit_jmp)){ vm_exit_armed=1; F(gs_op_wait)(&bad); vm_exit_armed=0; } else judge("handle",0);
         g_check("gs_op_wait"); F(gs_op_wait)(&w[0]); g_free(u); h_count("waits for an operation that is not outstanding",1); } } }
    data_free(); (void)l; }
  if(nbad){ vm_sig(hfold(sig,s.np)); h_sample("np=%d objects=%d bad calls=%d last: %s",s.np,nobj,nbad,desc); }
  { int t,k2; for(t=0;t<3;t++) for(k2=0;k2<T[t].n;k2++) if(T[t].live[k2]) obj_free(t,k2); }
  sess_close(&s); }
const struct prop h_props[]={ {"C25",c25,6,6}, {0,0,0,0} };
