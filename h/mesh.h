#ifndef MESH_H
#define MESH_H
/* Spectral-element meshes and their exact (long double) evaluation. */
typedef long double ld;
#ifndef M_PIl
#define M_PIl 3.141592653589793238462643383279502884L
#endif
#define EPS 2.220446049250313e-16L
#define MAXN 26
/* exact Gauss-Lobatto nodes */
static void leg_(int n,ld x,ld *p,ld *dp){ ld a=1,b=x; int k; if(n==0){ *p=1,*dp=0; return; } for(k=2;k<=n;k++){ ld c=((2*k-1)*x*b-(k-1)*a)/k; a=b,b=c; } *p=b; if(fabsl(x)==1) *dp=(x>0||(n&1))?(ld)n*(n+1)/2:-(ld)n*(n+1)/2; else *dp=n*(x*b-a)/(x*x-1); }
static ld lob_node(int n,int i){ int N=n-1,k; ld x,p,d; if(i==0) return -1; if(i==N) return 1; if(2*i==N) return 0; x=-cosl(M_PIl*i/N);
  for(k=0;k<60;k++){ ld s,d2; leg_(N,x,&p,&d); d2=(2*x*d-(ld)N*(N+1)*p)/(1-x*x); s=d/d2; x-=s; if(fabsl(s)<1e-19L) break; } return x; }
static const ld *gll(int n){ static ld tab[MAXN+1][MAXN]; static char have[MAXN+1]; int i; if(!have[n]){ have[n]=1; for(i=0;i<n;i++) tab[n][i]=lob_node(n,i); } return tab[n]; }
/* value, first and second derivative of all basis functions at x */
static void basis(int n,ld x,ld *h,ld *dh,ld *d2h){ const ld *z=gll(n); static ld wt[MAXN+1][MAXN]; static char have[MAXN+1]; int i,j; 
  if(!have[n]){ have[n]=1; for(i=0;i<n;i++){ ld w=1; for(j=0;j<n;j++) if(j!=i) w*=z[i]-z[j]; wt[n][i]=1/w; } }
  for(i=0;i<n;i++){ ld q0=1,q1=0,q2=0; for(j=0;j<n;j++) if(j!=i){ ld d=x-z[j]; if(d2h) q2=q2*d+2*q1; if(dh) q1=q1*d+q0; q0*=d; } h[i]=q0*wt[n][i]; if(dh) dh[i]=q1*wt[n][i]; if(d2h) d2h[i]=q2*wt[n][i]; } }
/* polynomial on nx x ny x nz nodes at r (dim entries), value and gradient, abs: sum of absolute values of the terms */
static ld peval(int dim,const int *n,const double *u,const ld *r,ld *grad,ld *abs_){ ld h[3][MAXN],dh[3][MAXN],v=0,a=0; int i,j,k,d; ld g[3]={0,0,0};
  for(d=0;d<dim;d++) basis(n[d],r[d],h[d],grad?dh[d]:0,0); 
  if(dim<3) h[2][0]=1,dh[2][0]=0; if(dim<2) h[1][0]=1,dh[1][0]=0;
  { int n1=dim>1?n[1]:1,n2=dim>2?n[2]:1; 
  for(k=0;k<n2;k++) for(j=0;j<n1;j++){ ld s=0,s1=0,sa=0; for(i=0;i<n[0];i++){ ld t=*u++; s+=t*h[0][i]; if(grad) s1+=t*dh[0][i]; if(abs_) sa+=fabsl(t*h[0][i]); }
    v+=s*h[1][j]*h[2][k]; if(grad) g[0]+=s1*h[1][j]*h[2][k],g[1]+=s*dh[1][j]*h[2][k],g[2]+=s*h[1][j]*dh[2][k]; if(abs_) a+=sa*fabsl(h[1][j]*h[2][k]); } }
  if(grad) for(d=0;d<dim;d++) grad[d]=g[d]; if(abs_) *abs_=a; return v; }
struct mesh { int dim,n[3],nel,ntot; double *x[3]; double size; /* typical element size */ };
/* position and Jacobian (J[d*dim+e]=dx_d/dr_e) of element e at r */
static void meval(const struct mesh *m,int e,const ld *r,ld *x,ld *J){ int d; for(d=0;d<m->dim;d++) x[d]=peval(m->dim,m->n,m->x[d]+(size_t)e*m->ntot,r,J?J+d*m->dim:0,0); }
static ld jdet(int dim,const ld *J){ if(dim==2) return J[0]*J[3]-J[1]*J[2]; return J[0]*(J[4]*J[8]-J[5]*J[7])+J[1]*(J[5]*J[6]-J[3]*J[8])+J[2]*(J[3]*J[7]-J[4]*J[6]); }

/* a smooth invertible map of the logical box: x = x0 + R S (q + p(q)), |grad p| < amp */
struct gmap { int dim; double x0[3],M[9],amp; int nm; double k[6][3],ph[6],dir[6][3],st[3]; /* st: cubic stretching of the coordinates of one element, q -> (1-st)q+st q^3 */ };
static void gmap_make(struct gmap *g,struct rng *r,int dim,double amp,double aniso,double offset){ int i,j,d; double R[9]={1,0,0,0,1,0,0,0,1},s[3],tot=0; memset(g,0,sizeof *g); g->dim=dim; g->amp=amp; 
  for(d=0;d<3;d++) s[d]=exp(rdr(r,-aniso,aniso)), g->x0[d]=offset*rdr(r,-1,1);
  if(rpct(r,70)) for(i=0;i<dim;i++) for(j=i+1;j<dim;j++){ double t=rdr(r,0,6.2831853),c=cos(t),q=sin(t); for(d=0;d<3;d++){ double a=R[d*3+i],b=R[d*3+j]; R[d*3+i]=c*a-q*b; R[d*3+j]=q*a+c*b; } }
  if(rpct(r,20)) for(d=0;d<3;d++) R[d*3]=-R[d*3];   /* left-handed */
  for(i=0;i<3;i++) for(j=0;j<3;j++) g->M[i*3+j]=R[i*3+j]*s[j];
  g->nm=amp>0?1+(int)rn(r,6):0; for(i=0;i<g->nm;i++){ double kk=0,dd=0; g->ph[i]=rdr(r,0,6.28); for(d=0;d<3;d++){ g->k[i][d]=d<dim?rdr(r,-1.6,1.6):0; g->dir[i][d]=d<dim?rgauss(r):0; kk+=g->k[i][d]*g->k[i][d]; dd+=g->dir[i][d]*g->dir[i][d]; }
    kk=sqrt(kk)+1e-9,dd=sqrt(dd)+1e-9; { double a=rdr(r,.2,1); for(d=0;d<3;d++) g->dir[i][d]*=a/dd/kk; tot+=a; } }
  for(i=0;i<g->nm;i++) for(d=0;d<3;d++) g->dir[i][d]*=amp/tot;
  /* symmetric ones: odd (the centre, and every chord through it, stays in place), even, or bent along one direction only */
  if(g->nm&&rpct(r,18)){ int odd=(int)rn(r,3); for(i=0;i<g->nm;i++){ g->ph[i]=odd==0?0:1.5707963267948966; if(odd==2) for(d=0;d<3;d++) g->k[i][d]=d==i%dim?g->k[i][d]:0; } } }
static void gmap_eval(const struct gmap *g,const double *q,double *x){ double p[3]; int i,d; for(d=0;d<3;d++) p[d]=d<g->dim?q[d]:0; 
  for(i=0;i<g->nm;i++){ double a=g->ph[i]; for(d=0;d<g->dim;d++) a+=g->k[i][d]*q[d]; a=sin(a); for(d=0;d<g->dim;d++) p[d]+=g->dir[i][d]*a; }
  for(d=0;d<g->dim;d++) x[d]=g->x0[d]+g->M[d*3]*p[0]+g->M[d*3+1]*p[1]+g->M[d*3+2]*p[2]; }
/* one element covering the logical box lo..hi */
static void mesh_elt(struct mesh *m,int e,const struct gmap *g,const double *lo,const double *hi){ int i,j,k,d,n2=m->dim>2?m->n[2]:1; size_t o=(size_t)e*m->ntot; 
  for(k=0;k<n2;k++) for(j=0;j<m->n[1];j++) for(i=0;i<m->n[0];i++,o++){ double q[3],x[3]; 
    q[0]=lo[0]+(hi[0]-lo[0])*(double)(1+gll(m->n[0])[i])/2; q[1]=lo[1]+(hi[1]-lo[1])*(double)(1+gll(m->n[1])[j])/2; q[2]=m->dim>2?lo[2]+(hi[2]-lo[2])*(double)(1+gll(m->n[2])[k])/2:0;
    /* end nodes exactly at the logical ends so that neighbours share their face nodes */
    if(i==m->n[0]-1) q[0]=hi[0]; if(j==m->n[1]-1) q[1]=hi[1]; if(m->dim>2&&k==n2-1) q[2]=hi[2];
    for(d=0;d<3;d++) if(g->st[d]) q[d]*=(1-g->st[d])+g->st[d]*q[d]*q[d];
    gmap_eval(g,q,x); for(d=0;d<m->dim;d++) m->x[d][o]=x[d]; } }
#endif
