/* C15 bounds of polynomials; C16 bounding boxes of elements. */
#include "h.h"
#include "c99.h"
#include "name.h"
#include "fail.h"
#include "types.h"
#include "mem.h"
#include "poly.h"
#include "lob_bnd.h"
#include "obbox.h"
#include "mesh.h"
static void fill(struct rng *g,double *u,int dim,const int *n,int style,double sc){ int i,j,k,t=0,n1=dim>1?n[1]:1,n2=dim>2?n[2]:1,N=n[0]*n1*n2; double a[3],c0=rgauss(g); for(i=0;i<3;i++) a[i]=rgauss(g); 
  { int hot=rn(g,N); double f1=rdr(g,1,8),f2=rdr(g,0,6);
  for(k=0;k<n2;k++) for(j=0;j<n1;j++) for(i=0;i<n[0];i++,t++){ double z0=(double)gll(n[0])[i],z1=dim>1?(double)gll(n[1])[j]:0,z2=dim>2?(double)gll(n[2])[k]:0,v; 
    switch(style){ case 0: v=rgauss(g); break; case 1: v=t==hot; break; case 2: v=c0; break; case 3: v=c0+a[0]*z0+a[1]*z1+a[2]*z2; break; case 4: v=sin(f1*z0+f2)*cos(f2*z1)+z2*c0; break; case 5: v=((i+j+k)&1)?1:-1; break; case 6: v=1000+1e-3*rgauss(g); break; case 7: v=rpct(g,70)?0:rgauss(g); break; default: v=exp(3*z0)*c0+a[1]*z1*z1*z1+a[2]*z2*z0; }
    u[t]=v*sc; } } }
/* Chebyshev-Lobatto nodes of the bounding functions */
static ld cheb(int m,int j){ return j==0?-1:j==m-1?1:cosl((m-1-j)*M_PIl/(m-1)); }
static ld piece(int dim,const int *m,const double *b,int up,const ld *r){ int jj[3]={0,0,0},d,c; ld t[3]={0,0,0},s=0; for(d=0;d<dim;d++){ int j=(int)floorl((1-acosl(r[d])/M_PIl)*(m[d]-1)); if(j<0) j=0; if(j>m[d]-2) j=m[d]-2; while(j>0&&r[d]<cheb(m[d],j)) j--; while(j<m[d]-2&&r[d]>cheb(m[d],j+1)) j++; jj[d]=j; t[d]=(r[d]-cheb(m[d],j))/(cheb(m[d],j+1)-cheb(m[d],j)); }
  for(c=0;c<(1<<dim);c++){ ld w=1; size_t o=0; /* last direction fastest */ for(d=0;d<dim;d++){ int bt=(c>>d)&1; w*=bt?t[d]:1-t[d]; o=o*m[d]+jj[d]+bt; } if(w!=0) s+=w*b[2*o+up]; } return s; }
static ld lebesgue(int n){ return 1+logl(n)*2/M_PIl; }
static void c15(struct ctx *c){ struct rng *g=&c->g; int dim=rpct(g,45)?1:rpct(g,55)?2:3,d,rep,nrep=ri(g,1,3),q; uint64_t sig=dim; long pts=0; int n[3],m[3]; double *dat[3]; size_t N=1,M=1; ld L=1;
  for(d=0;d<dim;d++){ n[d]=ri(g,2,dim==1?(rpct(g,15)?24:14):dim==2?10:6); if(rpct(g,dim==1?2:5)) n[d]=dim==1?ri(g,25,26):dim==2?ri(g,11,20):ri(g,7,10); m[d]=2*n[d]+(rpct(g,30)?0:ri(g,0,dim==1?3*n[d]:dim==2?2*n[d]:n[d])); N*=n[d],M*=m[d]; sig=hfold(sig,n[d]*1000+m[d]); L*=lebesgue(n[d]); 
    dat[d]=g_new(lob_bnd_size(n[d],m[d])*sizeof(double)); for(q=0;q<(int)lob_bnd_size(n[d],m[d]);q++) dat[d][q]=NAN; lob_bnd_setup(dat[d],n[d],m[d]); g_freeze(dat[d]); }
  g_check("lob_bnd_setup");
  for(rep=0;rep<nrep;rep++){ int un=rpct(g,60)?1:ri(g,2,4),st=0,k; double *u=g_new(N*un*sizeof(double)),*b=g_new(2*M*un*sizeof(double)),*w,*wl=0,sc=rpct(g,30)?ldexp(1,ri(g,-200,200)):1; size_t i,nw,nl; struct dbl_range R; 
    for(k=0;k<un;k++) fill(g,u+k*N,dim,n,st=rn(g,9),sc);
    g_freeze(u); for(i=0;i<2*M*un;i++) b[i]=NAN;
    nl=dim==1?0:dim==2?2*m[0]+2*(size_t)n[1]*m[0]:2*(size_t)m[0]*m[1]+2*(size_t)n[2]*m[1]*m[0];
    nw=dim==1?2*m[0]:dim==2?2*(size_t)m[0]*(n[1]+m[1]+1):2*(size_t)m[0]*m[1]*(n[2]+m[2]+1);
    w=g_new(nw*sizeof(double)); for(i=0;i<nw;i++) w[i]=NAN; if(nl){ wl=g_new(nl*sizeof(double)); for(i=0;i<nl;i++) wl[i]=NAN; }
    if(dim==1) lob_bnd_lin_1(b,dat[0],n[0],m[0],u,un); else if(dim==2) lob_bnd_lin_2(b,dat[0],n[0],m[0],dat[1],n[1],m[1],u,un,wl); else lob_bnd_lin_3(b,dat[0],n[0],m[0],dat[1],n[1],m[1],dat[2],n[2],m[2],u,un,wl);
    g_check("lob_bnd_lin");
    for(k=0;k<un;k++){ const double *uk=u+k*N,*bk=b+2*M*k; double amax=0,mn=1e300,mx=-1e300; int npt=dim==1?40:dim==2?30:16; ld tol; 
      if(dim==1) R=lob_bnd_1(dat[0],n[0],m[0],uk,w); else if(dim==2) R=lob_bnd_2(dat[0],n[0],m[0],dat[1],n[1],m[1],uk,w); else R=lob_bnd_3(dat[0],n[0],m[0],dat[1],n[1],m[1],dat[2],n[2],m[2],uk,w);
      g_check("lob_bnd");
      for(i=0;i<N;i++) if(fabs(uk[i])>amax) amax=fabs(uk[i]); tol=(ld)amax*EPS*20*(n[0]+(dim>1?n[1]:0)+(dim>2?n[2]:0))*L; 
      for(i=0;i<M;i++){ if(bk[2*i]<mn) mn=bk[2*i]; if(bk[2*i+1]>mx) mx=bk[2*i+1]; H_CHECK(bk[2*i]-tol<=bk[2*i+1],"bound-order","dim %d: lower bound %.17g above upper bound %.17g at point %zu",dim,bk[2*i],bk[2*i+1],i); }
      H_CHECK(fabsl((ld)R.min-mn)<=tol&&fabsl((ld)R.max-mx)<=tol,"bound-range","dim %d n=%d m=%d: range [%.17g,%.17g] but the piecewise bounds span [%.17g,%.17g]",dim,n[0],m[0],R.min,R.max,mn,mx);
      for(i=0;i<N;i++) H_CHECK(uk[i]>=R.min-tol&&uk[i]<=R.max+tol,"bound-node","dim %d n=%d m=%d: nodal value %.17g outside [%.17g,%.17g]",dim,n[0],m[0],uk[i],R.min,R.max);
      for(q=0;q<npt;q++){ ld r[3],v,lo,up; for(d=0;d<dim;d++) switch(rn(g,6)){ case 0: r[d]=gll(n[d])[rn(g,n[d])]; break; case 1: { int j=rn(g,m[d]); r[d]=cheb(m[d],j); } break; case 2: { int j=rn(g,m[d]-1); r[d]=(cheb(m[d],j)+cheb(m[d],j+1))/2; } break; default: r[d]=rdr(g,-1,1); }
        v=peval(dim,n,uk,r,0,0); lo=piece(dim,m,bk,0,r); up=piece(dim,m,bk,1,r); pts++;
        H_CHECK(v>=lo-tol&&v<=up+tol,"bound-pointwise","dim %d n=%d,%d m=%d,%d: polynomial is %.20Lg at (%.6Lg,%.6Lg) but the piecewise bounds there are [%.20Lg, %.20Lg]",dim,n[0],dim>1?n[1]:0,m[0],dim>1?m[1]:0,v,r[0],dim>1?r[1]:0,lo,up);
        H_CHECK(v>=R.min-tol&&v<=R.max+tol,"bound-global","dim %d: polynomial is %.20Lg at (%.6Lg..) but the range is [%.17g, %.17g]",dim,v,r[0],R.min,R.max); }
      /* tightness: within the sum over the nodes of the basis functions' own uncertainty */
      { ld dev=0; double a0=0; (void)a0; for(i=0;i<N;i++){ ld t=fabsl((ld)uk[i]-uk[0]); if(t>dev) dev=t; } 
        vm_max(dim==1?"max 1d bound slack, percent of the nodal spread":dim==2?"max 2d bound slack, percent of the nodal spread":"max 3d bound slack, percent of the nodal spread",dev>1e3*tol?(uint64_t)(100*(((ld)R.max-R.min)/dev)):0);
        H_CHECK((ld)R.max-R.min<=dev*(dim==1?6:dim==2?9:14)+8*tol,"bound-tight","dim %d n=%d m=%d: range [%.17g,%.17g] for nodal values that differ by at most %.6Lg",dim,n[0],m[0],R.min,R.max,dev); }
      /* scaling */
      if(rpct(g,25)){ double *v=g_new(N*sizeof(double)),f=rpct(g,50)?-1:4; struct dbl_range S; for(i=0;i<N;i++) v[i]=f*uk[i]; 
        if(dim==1) S=lob_bnd_1(dat[0],n[0],m[0],v,w); else if(dim==2) S=lob_bnd_2(dat[0],n[0],m[0],dat[1],n[1],m[1],v,w); else S=lob_bnd_3(dat[0],n[0],m[0],dat[1],n[1],m[1],dat[2],n[2],m[2],v,w);
        H_CHECK(fabsl((ld)S.min-f*(f>0?R.min:R.max))<=8*tol&&fabsl((ld)S.max-f*(f>0?R.max:R.min))<=8*tol,"bound-scaling","dim %d: bounds of %g times the data are [%.17g,%.17g] instead of the scaled [%.17g,%.17g]",dim,f,S.min,S.max,f*(f>0?R.min:R.max),f*(f>0?R.max:R.min)); g_free(v); } }
    sig=hfold(sig,st*8+un); g_free(u),g_free(b),g_free(w); if(wl) g_free(wl); }
  h_count("points compared",pts); vm_sig(mix64(sig,c->seed)); h_sample("dim=%d n=%d m=%d data sets=%d points=%ld",dim,n[0],m[0],nrep,pts); }

static int inverted(const struct mesh *m,int e){ int q; ld s=0; for(q=0;q<(m->dim==2?49:125);q++){ ld r[3],x[3],J[9],D; int b=m->dim==2?7:5; r[0]=-1+2.0L*(q%b)/(b-1),r[1]=-1+2.0L*(q/b%b)/(b-1),r[2]=-1+2.0L*(q/b/b)/(b-1); meval(m,e,r,x,J); D=jdet(m->dim,J); if(q==0) s=D; if(D*s<=0.02L*s*s) return 1; } return 0; }
static void c16(struct ctx *c){ struct rng *g=&c->g; int dim=rpct(g,50)?2:3,d,e,q,tries=0; struct mesh M; unsigned n[3],m[3]; double *xs[3],tol,*xt[3]; struct gmap gm; long pts=0; double aniso=rpct(g,30)?3:0.5,amp=rpct(g,20)?0:rdr(g,0,.75),off=rpct(g,20)?1000:rpct(g,30)?0:1;
  static const double tols[]={0,1e-10,1e-8,1e-5,1e-3,0.05,0.3,1}; 
  M.dim=dim; M.nel=ri(g,1,dim==2?4:2); M.ntot=1; n[2]=m[2]=0; for(d=0;d<dim;d++){ n[d]=M.n[d]=ri(g,2,dim==2?10:6); m[d]=2*n[d]+(rpct(g,40)?0:ri(g,0,2*n[d])); } if(rpct(g,10)){ d=(int)rn(g,dim); n[d]=M.n[d]=dim==2?ri(g,11,22):ri(g,7,14); m[d]=2*n[d]+(rpct(g,40)?0:ri(g,0,2*n[d])); } for(d=0;d<dim;d++) M.ntot*=M.n[d]; if(dim==2) M.n[2]=1; tol=tols[rn(g,8)];
  for(d=0;d<dim;d++) xs[d]=M.x[d]=g_new((size_t)M.nel*M.ntot*sizeof(double)); 
  for(e=0;e<M.nel;e++){ double lo[3]={-1,-1,-1},hi[3]={1,1,1}; do { if(tries++>50) amp=0; gmap_make(&gm,g,dim,amp,aniso,off); if(rpct(g,15)) for(d=0;d<9;d++) gm.M[d]*=1e-3; mesh_elt(&M,e,&gm,lo,hi); } while(inverted(&M,e)); }
  for(d=0;d<dim;d++) g_freeze(xs[d]),xt[d]=xs[d];
  { union { struct obbox_2 *b2; struct obbox_3 *b3; } B,B2; const double *ex[3]; double t2=tol+(rpct(g,50)?0.1:1); size_t sz=dim==2?sizeof(struct obbox_2):sizeof(struct obbox_3); 
    ex[0]=xt[0],ex[1]=xt[1],ex[2]=dim>2?xt[2]:0; B.b2=g_new(sz*M.nel),B2.b2=g_new(sz*M.nel); memset(B.b2,0xff,sz*M.nel); memset(B2.b2,0xff,sz*M.nel);
    if(dim==2) obbox_calc_2(B.b2,ex,n,M.nel,m,tol),obbox_calc_2(B2.b2,ex,n,M.nel,m,t2); else obbox_calc_3(B.b3,ex,n,M.nel,m,tol),obbox_calc_3(B2.b3,ex,n,M.nel,m,t2);
    g_check("obbox_calc");
    for(e=0;e<M.nel;e++){ const struct dbl_range *bx=dim==2?B.b2[e].x:B.b3[e].x,*by=dim==2?B2.b2[e].x:B2.b3[e].x; const double *c0=dim==2?B.b2[e].c0:B.b3[e].c0,*A=dim==2?B.b2[e].A:B.b3[e].A,*A2=dim==2?B2.b2[e].A:B2.b3[e].A; ld lo[3]={1e300,1e300,1e300},hi[3]={-1e300,-1e300,-1e300},ro[3]={0,0,0},scale=0,rt[3],asum; int np=dim==2?150:120;
      for(d=0;d<dim;d++) scale=fmaxl(scale,fmaxl(fabsl(bx[d].min),fabsl(bx[d].max)));
      for(d=0;d<dim;d++){ int k; asum=0; for(k=0;k<dim;k++) asum+=fabsl(A[d*dim+k]); rt[d]=64*EPS*(1+asum*scale)*(M.n[0]+M.n[1]); }
      for(q=0;q<np;q++){ ld r[3],x[3]; double xd[3]; for(d=0;d<dim;d++){ int o=rn(g,5); r[d]=o==0?-1:o==1?1:o==2?gll(M.n[d])[rn(g,M.n[d])]:rdr(g,-1,1); if(q<2*np/3&&d==q%dim) r[d]=(q&1)?-1:1; } meval(&M,e,r,x,0); pts++;
        for(d=0;d<dim;d++){ ld t=64*EPS*scale*(M.n[0]+M.n[1]); xd[d]=(double)x[d]; if(x[d]<lo[d]) lo[d]=x[d]; if(x[d]>hi[d]) hi[d]=x[d]; 
          H_CHECK(x[d]>=bx[d].min-t&&x[d]<=bx[d].max+t,"box-axis","%dd n=%d,%d m=%u,%u tol=%g element %d: coordinate %d of the element point (%.5Lg,%.5Lg,..) is %.17Lg, outside [%.17g,%.17g]",dim,M.n[0],M.n[1],m[0],m[1],tol,e,d,r[0],r[1],x[d],bx[d].min,bx[d].max); }
        for(d=0;d<dim;d++){ ld s=0; int k; for(k=0;k<dim;k++) s+=(ld)A[d*dim+k]*(x[k]-c0[k]); if(fabsl(s)>ro[d]) ro[d]=fabsl(s); H_CHECK(fabsl(s)<=1+rt[d],"box-oriented","%dd n=%d,%d m=%u,%u tol=%g element %d: the element point (%.5Lg,%.5Lg,..) has box coordinate %d = %.17Lg",dim,M.n[0],M.n[1],m[0],m[1],tol,e,r[0],r[1],d,s); }
        if(tol>=1e-8&&off<=1){ double t=dim==2?obbox_test_2(&B.b2[e],xd):obbox_test_3(&B.b3[e],xd),a=dim==2?obbox_axis_test_2(&B.b2[e],xd):obbox_axis_test_3(&B.b3[e],xd); H_CHECK(t>=0&&a>=0,"box-test","%dd element %d tol=%g: box tests give %g and %g for an element point",dim,e,tol,t,a); } }
      { ld a_[9],x[3],J[9],r[3],vol=0,bv; int k,nq=300; for(q=0;q<nq;q++){ for(d=0;d<dim;d++) r[d]=2*fmodl((q+.5L)*(d==0?0.7548776662466927L:d==1?0.5698402909980532L:0.3819660112501051L),1)-1; meval(&M,e,r,x,J); vol+=fabsl(jdet(dim,J)); } vol=vol/nq*(dim==2?4:8);
        for(k=0;k<dim*dim;k++) a_[k]=A[k]; bv=(dim==2?4:8)/fabsl(jdet(dim,a_)); for(d=0;d<dim;d++) bv/=1+tol; vm_max(amp==0?"max obox volume, affine, percent":amp<.3?"max obox volume, mild, percent":"max obox volume, curved, percent",(uint64_t)(100*bv/vol));
        H_CHECK(amp>=.3||bv<=(amp==0?1.05L:4)*vol,"obox-size","%dd n=%d,%d element %d: the oriented box (tolerance removed) has volume %.6Lg, the %s element %.6Lg",dim,M.n[0],M.n[1],e,bv,amp==0?"affine":"mildly curved",vol); }
      for(d=0;d<dim;d++){ ld w=hi[d]-lo[d],bw=(ld)bx[d].max-bx[d].min,f=bw/w/(1+tol); double xo[3]; int k; vm_max("max box width over sampled extent, percent",(uint64_t)(100*f)); 
        H_CHECK(f<=2,"box-tight","%dd n=%d,%d m=%u,%u tol=%g element %d: box width %.6Lg in coordinate %d for an element of extent about %.6Lg",dim,M.n[0],M.n[1],m[0],m[1],tol,e,bw,d,w);
        vm_max("max 100/(oriented box reach)",(uint64_t)(100/(ro[d]*(1+tol))));
        H_CHECK(ro[d]*(1+tol)>=0.5,"obox-tight","%dd element %d tol=%g: the element reaches only %.4Lg of the oriented box in direction %d",dim,e,tol,ro[d],d);
        /* grows with the tolerance */
        H_CHECK(fabsl((ld)by[d].max-by[d].min-bw*(1+t2)/(1+tol))<=64*EPS*scale,"box-growth","%dd element %d: box width %.17Lg at tol %g, %.17Lg at tol %g",dim,e,bw,tol,(ld)by[d].max-by[d].min,t2);
        for(k=0;k<dim;k++) H_CHECK(fabsl((ld)A2[d*dim+k]*(1+t2)-(ld)A[d*dim+k]*(1+tol))<=256*EPS*(fabsl(A[d*dim+k])*(1+tol)),"obox-growth","%dd element %d: oriented box row %d does not scale with the tolerance",dim,e,d);
        /* outside points are rejected */
        for(k=0;k<dim;k++) xo[k]=(double)((lo[k]+hi[k])/2); xo[d]=(double)(rpct(g,50)?bx[d].max+0.01L*bw+2*scale*EPS:bx[d].min-0.01L*bw-2*scale*EPS);
        { double t=dim==2?obbox_test_2(&B.b2[e],xo):obbox_test_3(&B.b3[e],xo),a=dim==2?obbox_axis_test_2(&B.b2[e],xo):obbox_axis_test_3(&B.b3[e],xo); H_CHECK(t<0&&a<0,"box-reject","%dd element %d: a point outside the axis-aligned box gets %g and %g",dim,e,t,a); }
        { ld s[3]={0,0,0},Ai[9],det,xx[3]; int l; s[d]=rpct(g,50)?1.05L:-1.05L; if(rpct(g,30)) s[d]*=1+rn(g,8); /* just outside the oriented box */ { ld a_[9]; for(k=0;k<dim*dim;k++) a_[k]=A[k]; det=jdet(dim,a_); } 
          if(dim==2){ Ai[0]=A[3]/det,Ai[1]=-A[1]/det,Ai[2]=-A[2]/det,Ai[3]=A[0]/det; } else { int i,j; for(i=0;i<3;i++) for(j=0;j<3;j++){ int i1=(j+1)%3,i2=(j+2)%3,j1=(i+1)%3,j2=(i+2)%3; Ai[i*3+j]=((ld)A[i1*3+j1]*A[i2*3+j2]-(ld)A[i1*3+j2]*A[i2*3+j1])/det; } }
          for(k=0;k<dim;k++){ xx[k]=c0[k]; for(l=0;l<dim;l++) xx[k]+=Ai[k*dim+l]*s[l]; xo[k]=(double)xx[k]; }
          { double t=dim==2?obbox_test_2(&B.b2[e],xo):obbox_test_3(&B.b3[e],xo); H_CHECK(t<0,"obox-reject","%dd element %d: a point 5%% outside the oriented box gets %g",dim,e,t); } } } } }
  h_count("element points tested",pts); vm_sig(c->seed); h_sample("%dd elements=%d n=%d,%d m=%u,%u tol=%g distortion=%.2f",dim,M.nel,M.n[0],M.n[1],m[0],m[1],tol,amp); }
const struct prop h_props[]={ {"C15",c15,1,20}, {"C16",c16,1,20}, {0,0,0,0} };
