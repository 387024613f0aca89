#ifndef FP_H
#define FP_H
/* shared by the search drivers: parameters, result layouts, meshes and query points */
struct fpar { int m[3]; double bbtol,tol; unsigned nmax; uint lhash,ghash; };
/* results: 0 code, 1 proc, 2 el, 3 r, 4 dist2 */
struct fout { char *f[5]; unsigned st[5]; char *buf[5]; size_t sz[5]; char *img[5]; int nb; unsigned n; int dim; };
struct fin { const double *x[3]; unsigned xst[3]; const uint *sid; unsigned sidst; uint match; };
#define D 2
#include "fp_d.h"
#undef D
#define D 3
#include "fp_d.h"
#undef D
#define DD(f) (dim==2?f##_2:f##_3)
static const size_t fsz_[5]={4,4,4,0,8};
static size_t fsz(int k,int dim){ return k==3?8*(size_t)dim:fsz_[k]; }
/* allocate outputs for n points in a random layout, filled with a pattern */
static void fout_new(struct fout *o,struct rng *g,unsigned n,int dim,int plain){ int k; unsigned i; memset(o,0,sizeof *o); o->n=n,o->dim=dim;
  if(!plain&&rpct(g,40)){ /* rows of records, doubles first or last */ size_t row=0,off[5]; int perm[5]={3,4,0,1,2}; if(rpct(g,50)){ int q[5]={0,1,2,3,4}; memcpy(perm,q,sizeof q); }
    if(rpct(g,30)) row+=8; for(k=0;k<5;k++){ size_t s=fsz(perm[k],dim),al=perm[k]>=3?8:4; row=(row+al-1)/al*al; off[perm[k]]=row; row+=s; } row=(row+7)/8*8+(rpct(g,40)?8*rn(g,4):0);
    o->nb=1; o->sz[0]=n*row; o->buf[0]=g_new(o->sz[0]); for(k=0;k<5;k++) o->f[k]=o->buf[0]+off[k],o->st[k]=row; }
  else { o->nb=5; for(k=0;k<5;k++){ size_t s=fsz(k,dim),a=k>=3?8:4; o->st[k]=s+(plain||rpct(g,60)?0:a*rn(g,4)); o->sz[k]=n?(size_t)(n-1)*o->st[k]+s:0; o->buf[k]=o->f[k]=g_new(o->sz[k]); } }
  for(k=0;k<o->nb;k++){ for(i=0;i<o->sz[k];i++) o->buf[k][i]=(char)(0x40+rn(g,60)); o->img[k]=hmalloc(o->sz[k]+1); if(o->sz[k]) memcpy(o->img[k],o->buf[k],o->sz[k]); } }
static uint fo_u(const struct fout *o,int k,unsigned i){ uint v; memcpy(&v,o->f[k]+(size_t)i*o->st[k],4); return v; }
static double fo_r(const struct fout *o,unsigned i,int d){ double v; memcpy(&v,o->f[3]+(size_t)i*o->st[3]+8*d,8); return v; }
static double fo_d2(const struct fout *o,unsigned i){ double v; memcpy(&v,o->f[4]+(size_t)i*o->st[4],8); return v; }
static void fo_setu(struct fout *o,int k,unsigned i,uint v){ memcpy(o->f[k]+(size_t)i*o->st[k],&v,4); }
static void fo_setr(struct fout *o,unsigned i,int d,double v){ memcpy(o->f[3]+(size_t)i*o->st[3]+8*d,&v,8); }
/* only the fields in mask may have changed since the image was taken */
static void fout_gaps(struct fout *o,unsigned mask,const char *what){ int k; unsigned i; size_t b; 
  for(k=0;k<5;k++) if(mask>>k&1){ int q=o->nb==1?0:k; size_t s=fsz(k,o->dim); for(i=0;i<o->n;i++){ size_t off=(o->f[k]-o->buf[q])+(size_t)i*o->st[k]; memcpy(o->img[q]+off,o->buf[q]+off,s); } }
  for(k=0;k<o->nb;k++) if(o->sz[k]&&memcmp(o->img[k],o->buf[k],o->sz[k])){ for(b=0;b<o->sz[k];b++) if(o->img[k][b]!=o->buf[k][b]) break; H_FAIL("stray-write","%s: byte %zu of a %zu byte output array (stride %u) was written although it belongs to no field of a result",what,b,o->sz[k],o->st[k==0&&o->nb==1?0:k]); } }
static void fout_sync(struct fout *o){ int k; for(k=0;k<o->nb;k++) if(o->sz[k]) memcpy(o->img[k],o->buf[k],o->sz[k]); }
static void fout_free(struct fout *o){ int k; for(k=0;k<o->nb;k++){ g_free(o->buf[k]); hfree(o->img[k]); } }
/* query points: known position r0 in element e (kind<KOUT), or outside */
enum { KIN=0, KNEAR, KNODE, KFACE, KNUDGE, KOUT, KFAR, KANY, NKIND };
struct qp { double x[3]; int kind,e; double r0[3]; double nudge; };
/* a structured patch of elements, shuffled and reoriented */
struct fmesh { struct mesh m; struct gmap g; int k[3]; double hmin; double xmax; int *perm; double lo[3],hi[3]; double smin; /* smallest singular value estimate */ };
static void fmesh_free(struct fmesh *f){ int d; for(d=0;d<f->m.dim;d++) hfree(f->m.x[d]); hfree(f->perm); }
static int fm_big; /* 1: a few hundred elements of low order, 2: more than 65536 */
static void fmesh_make(struct fmesh *f,struct rng *g,int dim,int maxel,int maxn,double amp,double aniso,double offset,double scale){ int d,e,i,j,k,tot; double *cut[3]; 
  memset(f,0,sizeof *f); f->m.dim=dim; 
  if(fm_big) maxel=fm_big==2?70000:dim==2?400:300,maxn=fm_big==2?2:3;
  do { tot=1; for(d=0;d<3;d++){ f->k[d]=d>=dim?1:fm_big==2?(dim==2?ri(g,254,264):ri(g,39,41)):1+(int)rn(g,fm_big?(dim==2?40:12):dim==2?5:3); tot*=f->k[d]; } } while(tot>maxel||(fm_big==2&&tot<65600));
  for(d=0;d<3;d++) f->m.n[d]=d<dim?ri(g,maxn<3?2:rpct(g,15)?2:3,maxn):1; if(!fm_big&&maxn>3&&tot<=12&&rpct(g,4)) f->m.n[rn(g,dim)]=dim==2?ri(g,9,16):ri(g,7,12); f->m.nel=tot; f->m.ntot=f->m.n[0]*f->m.n[1]*f->m.n[2];
  gmap_make(&f->g,g,dim,amp,aniso,offset);
  if(scale!=1) for(d=0;d<3;d++){ f->g.x0[d]*=scale; for(i=0;i<3;i++) f->g.M[d*3+i]*=scale; }
  for(d=0;d<3;d++) f->m.x[d]=d<dim?hmalloc(sizeof(double)*tot*f->m.ntot):0;
  for(d=0;d<3;d++){ double s=0; cut[d]=hmalloc((f->k[d]+1)*sizeof(double)); cut[d][0]=-1; for(i=0;i<f->k[d];i++){ cut[d][i+1]=fm_big==2?1:rdr(g,.4,1.6); s+=cut[d][i+1]; } for(i=0;i<f->k[d];i++) cut[d][i+1]=cut[d][i]+2*cut[d][i+1]/s; cut[d][f->k[d]]=1; }
  f->perm=hmalloc(tot*sizeof(int)); for(i=0;i<tot;i++) f->perm[i]=i; if(rpct(g,70)) rshuffle(g,f->perm,tot);
  for(e=0,k=0;k<f->k[2];k++) for(j=0;j<f->k[1];j++) for(i=0;i<f->k[0];i++,e++){ double lo[3],hi[3]; int ix[3]; ix[0]=i,ix[1]=j,ix[2]=k; for(d=0;d<3;d++){ lo[d]=cut[d][ix[d]],hi[d]=cut[d][ix[d]+1]; } 
    if(rpct(g,30)) for(d=0;d<dim;d++) if(rpct(g,50)){ double t=lo[d]; lo[d]=hi[d],hi[d]=t; }
    mesh_elt(&f->m,f->perm[e],&f->g,lo,hi); }
  for(d=0;d<3;d++) hfree(cut[d]);
  f->xmax=0; for(d=0;d<dim;d++){ f->lo[d]=DBL_MAX,f->hi[d]=-DBL_MAX; for(i=0;i<tot*f->m.ntot;i++){ double v=f->m.x[d][i]; if(v<f->lo[d]) f->lo[d]=v; if(v>f->hi[d]) f->hi[d]=v; if(fabs(v)>f->xmax) f->xmax=fabs(v); } }
  f->m.size=0; f->hmin=DBL_MAX; for(e=0;e<tot;e++){ double big=0; for(d=0;d<dim;d++){ double a=DBL_MAX,b=-DBL_MAX; for(i=0;i<f->m.ntot;i++){ double v=f->m.x[d][e*f->m.ntot+i]; if(v<a) a=v; if(v>b) b=v; } big+=(b-a)*(b-a); } big=sqrt(big); if(big>f->m.size) f->m.size=big; if(big<f->hmin) f->hmin=big; }
  /* smallest stretching over all nodes */
  f->smin=DBL_MAX; for(e=0;e<tot;e++) for(i=0;i<(1<<dim);i++){ ld r[3],x[3],J[9]; double det,fr=0; for(d=0;d<dim;d++) r[d]=(i>>d&1)?1:-1; meval(&f->m,e,r,x,J); det=fabs((double)jdet(dim,J)); for(d=0;d<dim*dim;d++) fr+=(double)(J[d]*J[d]); fr=sqrt(fr); if(dim==3) det/=fr; det/=fr; if(det<f->smin) f->smin=det; } }
static ld dist_at(const struct mesh *m,int e,const double *r,const double *x,ld *jn){ ld rr[3],xx[3],J[9],s=0; int d; for(d=0;d<m->dim;d++) rr[d]=r[d]; meval(m,e,rr,xx,J); for(d=0;d<m->dim;d++) s+=(xx[d]-x[d])*(xx[d]-x[d]); if(jn){ *jn=0; for(d=0;d<m->dim*m->dim;d++) *jn+=J[d]*J[d]; *jn=sqrtl(*jn); } return sqrtl(s); }
static void qp_make(const struct fmesh *f,struct rng *g,struct qp *q,int kind){ const struct mesh *m=&f->m; int d,e=(int)rn(g,m->nel),dim=m->dim; ld r[3],x[3],J[9]; memset(q,0,sizeof *q);
  q->kind=kind; q->e=e; for(d=0;d<dim;d++) q->r0[d]=rdr(g,-1,1);
  switch(kind){ 
    case KIN: for(d=0;d<dim;d++) q->r0[d]*=.95; break;
    case KNEAR: d=rn(g,dim); q->r0[d]=(1-pow(10,-rdr(g,1,10)))*(rpct(g,50)?1:-1); if(rpct(g,30)){ d=rn(g,dim); q->r0[d]=(1-pow(10,-rdr(g,1,10)))*(rpct(g,50)?1:-1); } break;
    case KNODE: for(d=0;d<dim;d++) q->r0[d]=(double)gll(m->n[d])[rn(g,m->n[d])]; break;
    case KFACE: d=rn(g,dim); q->r0[d]=rpct(g,50)?1:-1; if(rpct(g,40)) q->r0[rn(g,dim)]=rpct(g,50)?1:-1; break;
    case KNUDGE: case KOUT: d=rn(g,dim); q->r0[d]=rpct(g,50)?1:-1; break; }
  r[0]=r[1]=r[2]=0; for(d=0;d<dim;d++) r[d]=q->r0[d]; meval(m,e,r,x,J); for(d=0;d<dim;d++) q->x[d]=(double)x[d];
  if(kind==KFAR){ double s=f->hi[0]-f->lo[0]; for(d=1;d<dim;d++) if(f->hi[d]-f->lo[d]>s) s=f->hi[d]-f->lo[d]; s=s+4*m->size; if(rpct(g,30)) s*=pow(10,rdr(g,0,4)); d=rn(g,dim); q->x[d]+=(rpct(g,50)?1:-1)*s; }
  if(kind==KANY) for(d=0;d<dim;d++) q->x[d]=rdr(g,f->lo[d]-.3*(f->hi[d]-f->lo[d]),f->hi[d]+.3*(f->hi[d]-f->lo[d])); 
  if(kind==KNUDGE||kind==KOUT){ /* along the outward direction of the chosen face: solve J dr = normal direction by taking +-dx/dr_d orthogonalised */
    int fd=-1; double nn=0,v[3]; for(d=0;d<dim;d++) if(fabs(q->r0[d])==1) fd=d; 
    for(d=0;d<dim;d++) v[d]=(double)J[d*dim+fd]*q->r0[fd];
    { int t; double tv[2][3]; int nt=0; for(t=0;t<dim;t++) if(t!=fd){ int u; double l=0; for(d=0;d<dim;d++) tv[nt][d]=(double)J[d*dim+t]; for(u=0;u<nt;u++){ double dot=0; for(d=0;d<dim;d++) dot+=tv[nt][d]*tv[u][d]; for(d=0;d<dim;d++) tv[nt][d]-=dot*tv[u][d]; } for(d=0;d<dim;d++) l+=tv[nt][d]*tv[nt][d]; l=sqrt(l); for(d=0;d<dim;d++) tv[nt][d]/=l; nt++; }
      for(t=0;t<nt;t++){ double dot=0; for(d=0;d<dim;d++) dot+=v[d]*tv[t][d]; for(d=0;d<dim;d++) v[d]-=dot*tv[t][d]; } }
    for(d=0;d<dim;d++) nn+=v[d]*v[d]; nn=sqrt(nn); q->nudge=kind==KNUDGE?f->hmin*pow(10,-rdr(g,6,13)):f->hmin*pow(10,-rdr(g,.5,4)); for(d=0;d<dim;d++) q->x[d]+=v[d]/nn*q->nudge; } }
static void fin_new(struct fin *q,struct rng *g,const struct qp *p,unsigned n,int dim){ int d; unsigned i; memset(q,0,sizeof *q);
  if(rpct(g,35)){ unsigned row=dim+rn(g,4),off=rn(g,row-dim+1); double *b=g_new(sizeof(double)*n*row); for(i=0;i<n*row;i++) b[i]=-77.25; for(i=0;i<n;i++) for(d=0;d<dim;d++) b[i*row+off+d]=p[i].x[d]; for(d=0;d<dim;d++) q->x[d]=b+off+d,q->xst[d]=8*row; g_freeze(b); }
  else for(d=0;d<dim;d++){ unsigned st=1+(rpct(g,30)?rn(g,3):0); double *b=g_new(n?((n-1)*(size_t)st+1)*8:0); for(i=0;n&&i<(n-1)*st+1;i++) b[i]=-77.25; for(i=0;i<n;i++) b[i*st]=p[i].x[d]; q->x[d]=b,q->xst[d]=8*st; g_freeze(b); } }
static void fpar_make(struct fpar *a,struct rng *g,const struct fmesh *f,unsigned nel){ int d; uint h=f->m.ntot*(nel?nel:1); double s; for(d=0;d<f->m.dim;d++) a->m[d]=2*f->m.n[d]+(rpct(g,50)?0:(int)rn(g,4));
  a->bbtol=rpct(g,50)?0.01:pow(10,-rdr(g,1,4)); a->nmax=rpct(g,40)?256:1+rn(g,rpct(g,50)?3:20); a->lhash=nel+2+(rpct(g,40)?0:rpct(g,50)?h:rn(g,4*h+1)); a->ghash=rpct(g,30)?1+rn(g,6):rpct(g,50)?h:1+rn(g,6*h); 
  if(f->m.nel>5000) a->ghash=1+a->ghash%f->m.nel,a->lhash=nel+2+a->lhash%f->m.nel;
  s=3000*2.2e-16*f->xmax/f->smin; a->tol=1024*DBL_EPSILON; if(s>a->tol) a->tol=s; if(rpct(g,20)) a->tol*=pow(10,rdr(g,0,3)); if(a->tol>1e-7) a->tol=1e-7; }
static ld tolpos(const struct fmesh *f,const struct fpar *a,ld jn){ return 20*a->tol*jn+3e3L*EPS*(f->xmax+f->m.size); }
#endif
