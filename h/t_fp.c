/* C17 one element; C18 one process; C19 distributed search; C20 evaluation; C21 sessions; C26 Fortran */
#include "config.h"
#include "h.h"
#include "gslib.h"
#include "mesh.h"
#include "sess.h"
#include "fp.h"
/* ---- C17 */
static int c17_mindist(const struct mesh *m,const double *x,ld *best){ /* sampled and refined global minimum over element 0 */
  int dim=m->dim,g=dim==2?13:7,i,it,d,a; ld bs=1e300L,br[3]={0,0,0}; int tot=1; for(d=0;d<dim;d++) tot*=g;
  for(i=0;i<tot;i++){ ld r[3],X[3],s=0; int t=i; for(d=0;d<dim;d++){ r[d]=-1+2*(ld)(t%g)/(g-1); t/=g; } meval(m,0,r,X,0); for(d=0;d<dim;d++) s+=(X[d]-x[d])*(X[d]-x[d]); if(s<bs){ bs=s; for(d=0;d<dim;d++) br[d]=r[d]; } }
  for(it=0;it<60;it++){ ld X[3],J[9],v[3],gr[3],H[9],st[3]={0,0,0},lam=1; int act[3],ok=0; meval(m,0,br,X,J); for(d=0;d<dim;d++) v[d]=x[d]-X[d]; 
    for(d=0;d<dim;d++){ gr[d]=0; for(a=0;a<dim;a++) gr[d]+=v[a]*J[a*dim+d]; act[d]=(br[d]==1&&gr[d]>0)||(br[d]==-1&&gr[d]<0); }
    for(d=0;d<dim;d++) for(i=0;i<dim;i++){ H[d*3+i]=0; for(a=0;a<dim;a++) H[d*3+i]+=J[a*dim+d]*J[a*dim+i]; if(act[d]||act[i]) H[d*3+i]=d==i; } for(d=0;d<dim;d++) if(act[d]) gr[d]=0; 
    { ld A[9],b[3]; int p,q; memcpy(A,H,sizeof A); memcpy(b,gr,sizeof b); for(p=0;p<dim;p++){ ld piv=A[p*3+p]; if(piv<1e-30L) piv=1e-30L; for(q=p+1;q<dim;q++){ ld w=A[q*3+p]/piv; for(i=p;i<dim;i++) A[q*3+i]-=w*A[p*3+i]; b[q]-=w*b[p]; } } for(p=dim-1;p>=0;p--){ for(i=p+1;i<dim;i++) b[p]-=A[p*3+i]*st[i]; st[p]=b[p]/(A[p*3+p]<1e-30L?1e-30L:A[p*3+p]); } }
    for(a=0;a<12;a++,lam/=3){ ld r[3],s=0; for(d=0;d<dim;d++){ r[d]=br[d]+lam*st[d]; if(r[d]>1) r[d]=1; if(r[d]<-1) r[d]=-1; } meval(m,0,r,X,0); for(d=0;d<dim;d++) s+=(X[d]-x[d])*(X[d]-x[d]); if(s<bs){ ok=1; bs=s; memcpy(br,r,sizeof r); break; } }
    if(!ok) break; }
  *best=sqrtl(bs); return 0; }
static void c17(struct ctx *c){ struct rng *g=&c->g; int dim=2+(int)rn(g,2),d,i,rep,nrep=ri(g,1,3),maxn=dim==2?(rpct(g,10)?14:9):(rpct(g,10)?8:5),four=rpct(g,12); unsigned nmax=rpct(g,50)?1+rn(g,8):1+rn(g,60); uint64_t sig=dim; void *fd; int n[3]; long tot=0; 
  for(d=0;d<3;d++) n[d]=d<dim?four?ri(g,4,rpct(g,20)?5:4):ri(g,rpct(g,20)?2:3,maxn):1; if(!four&&rpct(g,6)) n[rn(g,dim)]=dim==2?ri(g,12,22):ri(g,9,15); sig=hfold(sig,n[0]*10000+n[1]*100+n[2]); fd=DD(el_new)(n,nmax);
  for(rep=0;rep<nrep;rep++){ struct fmesh f; struct fpar a; double amp=rpct(g,30)?0:rpct(g,60)?rdr(g,0,.4):rdr(g,.4,.8),aniso=rdr(g,0,rpct(g,20)?1.5:.5),ext; int calls=ri(g,1,3),rough=rpct(g,20); const double *xp[3]; double *one;
    memset(&f,0,sizeof f); f.m.dim=dim; for(d=0;d<3;d++) f.m.n[d]=n[d]; f.m.nel=1; f.m.ntot=n[0]*n[1]*n[2];
    { double lo[3]={-1,-1,-1},hi[3]={1,1,1}; gmap_make(&f.g,g,dim,amp,aniso,rpct(g,70)?rdr(g,0,3):rdr(g,0,50)); for(d=0;d<3;d++) f.m.x[d]=d<dim?g_new(f.m.ntot*8):0; if(rpct(g,four?80:25)){ double b=four?rdr(g,.75,.85):rdr(g,.3,.85); h_count("stretched elements",1); for(d=0;d<dim;d++) if(!rpct(g,four?3:20)) f.g.st[d]=rpct(g,50)||four?b:rdr(g,0,.85); } mesh_elt(&f.m,0,&f.g,lo,hi); 
      f.xmax=0,f.m.size=0; for(d=0;d<dim;d++){ f.lo[d]=DBL_MAX,f.hi[d]=-DBL_MAX; for(i=0;i<f.m.ntot;i++){ double v=f.m.x[d][i]; if(v<f.lo[d]) f.lo[d]=v; if(v>f.hi[d]) f.hi[d]=v; if(fabs(v)>f.xmax) f.xmax=fabs(v); } f.m.size+=(f.hi[d]-f.lo[d])*(f.hi[d]-f.lo[d]); } f.m.size=f.hmin=sqrt(f.m.size);
      if(rough) for(i=0;i<f.m.ntot;i++) for(d=0;d<dim;d++) f.m.x[d][i]+=rdr(g,-.02,.02)*f.m.size/(n[0]+n[1]);
      f.smin=DBL_MAX; for(i=0;i<(dim==2?25:27);i++){ ld r[3],x[3],J[9]; double det,fr=0; int q=dim==2?5:3,t=i; for(d=0;d<dim;d++){ r[d]=-1+2.0L*(t%q)/(q-1); t/=q; } meval(&f.m,0,r,x,J); det=fabs((double)jdet(dim,J)); for(d=0;d<dim*dim;d++) fr+=(double)(J[d]*J[d]); fr=sqrt(fr); det/=fr; if(dim==3) det/=fr; if(det<f.smin) f.smin=det; } }
    ext=f.m.size; fpar_make(&a,g,&f,1); for(d=0;d<dim;d++) xp[d]=f.m.x[d],g_freeze(f.m.x[d]); DD(el_start)(fd,xp); sig=hfold(sig,(uint64_t)(int64_t)(f.m.x[0][0]*1e6)); one=f.m.x[0]; (void)one;
    for(;calls>0;calls--){ unsigned np=rpct(g,10)?rn(g,2):1+rn(g,nmax); struct qp *q=hmalloc((np+1)*sizeof *q); double *x=hmalloc((np+1)*dim*8),*r=hmalloc((np+1)*dim*8),*d2=hmalloc((np+1)*8),*r1=hmalloc(24),*d21=hmalloc(8); unsigned *fl=hmalloc((np+1)*4),fl1; int global=rpct(g,25)&&!rough&&amp<.35&&aniso<.6&&f.g.st[0]==0&&f.g.st[1]==0&&f.g.st[2]==0; void *fd1=0; if(np>nmax) np=nmax;
      for(i=0;i<(int)np;i++){ int k=(int)rn(g,NKIND-1); if(k==KFAR) k=KANY; qp_make(&f,g,&q[i],k); for(d=0;d<dim;d++) x[i*dim+d]=q[i].x[d]; }
      if(f.g.st[0]>.6&&rpct(g,70)){ /* between the corner and its neighbour node, where a step overshoots into the corner */ h_count("overshooting crowds",1);
        for(i=0;i<(int)np;i++){ int k0=0,k1=0,st=1; double t=rdr(g,.4,.53); for(d=0;d<dim;d++){ int up=(int)rn(g,2); k0+=st*(up?n[d]-1:0),k1+=st*(up?n[d]-2:n[d]>1); st*=n[d]; } for(d=0;d<dim;d++) x[i*dim+d]=q[i].x[d]=f.m.x[d][k1]+t*(f.m.x[d][k0]-f.m.x[d][k1]); q[i].kind=KANY; } }
      else if(rpct(g,35)){ /* a crowd around one or a few corners, in every direction from them */ int cb=(int)rn(g,1<<dim),few=rpct(g,30); double sc=pow(10,rdr(g,-3,.5)); h_count("corner crowds",1);
        for(i=0;i<(int)np;i++){ ld r0[3],X[3],J[9],v[3]; int e; if(few) cb^=1<<rn(g,dim); if(rpct(g,20)) sc=pow(10,rdr(g,-3,.5)); for(d=0;d<dim;d++) r0[d]=cb>>d&1?1:-1; meval(&f.m,0,r0,X,J); for(d=0;d<dim;d++) v[d]=sc*rdr(g,-1,1)*(rpct(g,30)?.05:1); for(d=0;d<dim;d++){ for(e=0;e<dim;e++) X[d]+=J[d*dim+e]*v[e]; x[i*dim+d]=q[i].x[d]=(double)X[d]; } q[i].kind=KANY; } }
      DD(el_find)(fd,x,np,a.tol,r,d2,fl); g_check("findpts_el");
      for(i=0;i<(int)np;i++){ ld dist,jn,rr[3],X[3],J[9],xn=0; unsigned conv=fl[i]>>(2*dim)&1,cons=fl[i]&((1u<<2*dim)-1); int inside=q[i].kind<=KFACE; const double *ri_=r+i*dim; ld tp;
        for(d=0;d<dim;d++) H_CHECK(ri_[d]>=-1&&ri_[d]<=1,"el-range","findpts_el_%d: reference coordinate %d of a point is %.17g",dim,d,ri_[d]);
        for(d=0;d<dim;d++){ unsigned b=cons>>(2*d)&3; H_CHECK(b!=3,"el-flags","flags %x hold both sides of direction %d",fl[i],d); if(conv||!b) H_CHECK((b==1)==(ri_[d]==-1&&b)&&(b==2)==(ri_[d]==1&&b),"el-flags","flags %x do not match r[%d]=%.17g",fl[i],d,ri_[d]); }
        dist=dist_at(&f.m,0,ri_,q[i].x,&jn); tp=tolpos(&f,&a,jn); for(d=0;d<dim;d++) xn+=fabsl(q[i].x[d]);
        H_CHECK(isfinite(d2[i])&&(!conv||fabsl(sqrtl(d2[i])-dist)<=tp+1e-12L*dist),"el-dist2","findpts_el_%d: dist2=%.17g but the point returned is at squared distance %.17Lg (kind %d, flags %x, tolerance %.3Lg)",dim,d2[i],dist*dist,q[i].kind,fl[i],tp);
        if(inside&&!rough&&f.smin>=.05*f.m.size/(2*sqrt(dim))){ h_count("points inside a well shaped element",1);  H_CHECK(conv,"el-converge","findpts_el_%d: a point of the element was not converged (kind %d r0 %g %g %g got %g %g dist %Lg)",dim,q[i].kind,q[i].r0[0],q[i].r0[1],q[i].r0[2],ri_[0],ri_[1],dist);
          H_CHECK(dist<=tp,"el-missed","findpts_el_%d: a point of the element (kind %d, r %.10g %.10g %.10g) was placed at distance %.4Lg from itself (flags %x, amp %g aniso %g smin %g size %g)",dim,q[i].kind,q[i].r0[0],q[i].r0[1],q[i].r0[2],dist,fl[i],amp,aniso,f.smin,f.m.size); 
          if(q[i].kind==KIN) H_CHECK(!cons,"el-flags","findpts_el_%d: a point well inside was reported on the boundary (flags %x)",dim,fl[i]); }
        if(inside&&rough) h_count("rough element points",1), h_count("rough element points off",dist>tp);
        /* optimality of what was returned */
        if(conv){ ld v[3],H2; for(d=0;d<dim;d++) rr[d]=ri_[d]; meval(&f.m,0,rr,X,J); for(d=0;d<dim;d++) v[d]=q[i].x[d]-X[d]; H2=jn*jn+dist*jn*f.m.n[0]*f.m.n[0];
          for(d=0;d<dim;d++){ ld gr=0,cd=0,tol; int e; for(e=0;e<dim;e++) gr+=v[e]*J[e*dim+d],cd+=J[e*dim+d]*J[e*dim+d]; tol=200*a.tol*H2+1e4L*EPS*jn*(f.xmax+dist+xn)+1e-11L*dist*jn+3*dist*jn*sqrtl(a.tol);
            if(ri_[d]==1) H_CHECK(gr>=-tol,"el-optimal","findpts_el_%d: r[%d]=1 but the distance decreases inwards (gradient %.3Lg tolerance %.3Lg distance %.3Lg of size %.3g flags %x kind %d r0 %g r1 %g)",dim,d,gr,tol,dist,f.m.size,fl[i],q[i].kind,ri_[0],ri_[1]);
            else if(ri_[d]==-1) H_CHECK(gr<=tol,"el-optimal","findpts_el_%d: r[%d]=-1 but the distance decreases inwards (gradient %.3Lg tolerance %.3Lg distance %.3Lg of size %.3g flags %x kind %d r0 %g r1 %g)",dim,d,gr,tol,dist,f.m.size,fl[i],q[i].kind,ri_[0],ri_[1]);
            else H_CHECK(fabsl(gr)<=tol,"el-optimal","findpts_el_%d: the distance can be decreased along direction %d at r=%g (gradient %.3Lg tolerance %.3Lg distance %.3Lg flags %x kind %d)",dim,d,ri_[d],gr,tol,dist,fl[i],q[i].kind); } }
        else { h_count("unconverged points",1); H_CHECK(rough||amp>.3||q[i].kind>KNUDGE,"el-converge","findpts_el_%d: no convergence on a mildly curved element (kind %d)",dim,q[i].kind); }
        /* never worse than the closest node */
        { int k; ld bn=1e300L; for(k=0;k<f.m.ntot;k++){ ld s=0; for(d=0;d<dim;d++){ ld t=f.m.x[d][k]-(ld)q[i].x[d]; s+=t*t; } if(s<bn) bn=s; } H_CHECK(dist<=sqrtl(bn)+tp,"el-worse","findpts_el_%d: returned distance %.6Lg, the nearest node is at %.6Lg",dim,dist,sqrtl(bn)); }
        if(global&&dist<.25*ext){ ld best; c17_mindist(&f.m,q[i].x,&best); H_CHECK(dist<=best*(1+1e-9L)+tp,"el-closest","findpts_el_%d: returned distance %.9Lg, a point of the element is at %.9Lg (kind %d flags %x)",dim,dist,best,q[i].kind,fl[i]); h_count("global minima compared",1); }
        /* alone, on a fresh object */
        if(rpct(g,25)){ if(!fd1) fd1=DD(el_new)(n,1),DD(el_start)(fd1,xp); DD(el_find)(fd1,x+i*dim,1,a.tol,r1,d21,&fl1); 
          H_CHECK(!memcmp(r1,r+i*dim,dim*8)&&*d21==d2[i]&&fl1==fl[i],"el-batch","findpts_el_%d: a point searched alone gives r=%.17g.. dist2=%.17g flags %x, in a batch of %u r=%.17g.. dist2=%.17g flags %x",dim,r1[0],*d21,fl1,np,r[i*dim],d2[i],fl[i]); h_count("single point repeats",1); } 
        tot++; }
      if(fd1) DD(el_free)(fd1);
      /* evaluation at the results */
      if(np){ double *u=g_new(f.m.ntot*8); unsigned os=8*(1+rn(g,3)),rs=8*(dim+rn(g,3)); char *o=g_new((np-1)*(size_t)os+8); char *rb=g_new((np-1)*(size_t)rs+8*dim); int k; memset(rb,0x41,(np-1)*(size_t)rs+8*dim); memset(o,0x42,(np-1)*(size_t)os+8);
        for(k=0;k<f.m.ntot;k++) u[k]=rgauss(g); g_freeze(u); for(i=0;i<(int)np;i++){ double t[3]; for(d=0;d<dim;d++) t[d]=rpct(g,50)?r[i*dim+d]:rdr(g,-1,1); memcpy(rb+i*(size_t)rs,t,8*dim); } g_freeze(rb);
        DD(el_eval)(fd,(double*)o,os,(double*)rb,rs,np,u); g_check("findpts_el_eval");
        for(i=0;i<(int)np;i++){ ld rr[3],v,ab; double got; for(d=0;d<dim;d++){ double t; memcpy(&t,rb+i*(size_t)rs+8*d,8); rr[d]=t; } v=peval(dim,f.m.n,u,rr,0,&ab); memcpy(&got,o+i*(size_t)os,8); { ld um=0; for(k=0;k<f.m.ntot;k++) if(fabs(u[k])>um) um=fabs(u[k]); H_CHECK(fabsl(got-v)<=500*EPS*(ab+um)*(n[0]+n[1]+n[2]),"el-eval","findpts_el_eval_%d: %.17g instead of %.17Lg",dim,got,v); } 
          if(i<(int)np-1){ unsigned b; for(b=8;b<os;b++) H_CHECK(o[i*(size_t)os+b]==0x42,"stray-write","findpts_el_eval_%d wrote between outputs of stride %u",dim,os); } }
        h_count("values compared",np); g_free(u); g_free(o); g_free(rb); }
      hfree(q); hfree(x); hfree(r); hfree(d2); hfree(fl); hfree(r1); hfree(d21); }
    for(d=0;d<dim;d++) g_free(f.m.x[d]); }
  DD(el_free)(fd); h_count("points checked",tot); vm_sig(sig); h_sample("dim=%d n=%d,%d,%d points=%ld",dim,n[0],n[1],n[2],tot); }
#include "fp_mesh.h"
#include "fp_fort.h"
const struct prop h_props[]={ {"C17",c17,1,20}, {"C18",c18,1,20}, {"C19",c19,12,10}, {"C20",c20,12,10}, {"C21",c21,12,10}, {"C26",c26,12,10}, {0} };
