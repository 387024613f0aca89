#define FM_GIANT 40 /* one in 40*40 */
/* elements held by one process */
struct lmesh { int nel,*ge; double *x[3]; };
/* a mesh spread over np processes; holes: elements nobody holds; twice: elements held twice */
struct dmesh { struct fmesh f; int np,*own,*loc; int n[VM_MAXNP]; int nent,*ent; /* entry k: global element ent[k] on own[k] as local loc[k] */ int holes,twice,strict; };
static void dmesh_make(struct dmesh *m,struct rng *g,int np,int dim){ int k,cap,style,nel; double scale=rpct(g,70)?1:pow(10,rdr(g,-3,3)),amp=rpct(g,30)?0:rdr(g,0,.5);
  fm_big=np>0&&rn(g,40)==0?(np<=6&&rn(g,FM_GIANT)==0?2:1):0; if(fm_big){ h_count(fm_big==2?"meshes of more than 65536 elements":"meshes of hundreds of elements",1); if(fm_big==2) scale=1,amp=0; }
  memset(m,0,sizeof *m); m->np=np; fmesh_make(&m->f,g,dim,rpct(g,20)?24:10,dim==2?(rpct(g,10)?12:7):(rpct(g,10)?7:4),amp,rdr(g,0,.6),rpct(g,60)?rdr(g,0,2):rdr(g,0,20),scale);
  fm_big=0; m->strict=m->f.smin>=.05*m->f.hmin/(2*sqrt(dim));
  nel=m->f.m.nel; cap=2*nel; m->own=hmalloc(cap*sizeof(int)); m->loc=hmalloc(cap*sizeof(int)); m->ent=hmalloc(cap*sizeof(int)); style=(int)rn(g,4);
  { int hp=rpct(g,25)?20:0,tp=rpct(g,15)?25:0,skip=rn(g,np+1); 
    for(k=0;k<nel;k++){ int c=1,t; if(nel>1&&rpct(g,hp)&&(k<nel-1||m->nent)) c=0,m->holes=1; else if(rpct(g,tp)) c=2,m->twice=1;
      for(t=0;t<c;t++){ int p=style==0?(int)rn(g,np):style==1?k*np/nel:style==2?(int)rn(g,1+rn(g,np)):k%np; if(p==skip&&np>1) p=(p+1)%np; m->ent[m->nent]=k,m->own[m->nent]=p,m->loc[m->nent]=m->n[p]++,m->nent++; } } } }
static void dmesh_free(struct dmesh *m){ fmesh_free(&m->f); hfree(m->own); hfree(m->loc); hfree(m->ent); }
static void lmesh_make(struct lmesh *l,const struct dmesh *m,int p){ int k,d; size_t N=m->f.m.ntot; memset(l,0,sizeof *l); l->nel=m->n[p]; l->ge=hmalloc((l->nel+1)*sizeof(int)); 
  for(k=0;k<m->nent;k++) if(m->own[k]==p) l->ge[m->loc[k]]=m->ent[k];
  for(d=0;d<m->f.m.dim;d++){ l->x[d]=g_new(8*N*l->nel); for(k=0;k<l->nel;k++) memcpy(l->x[d]+k*N,m->f.m.x[d]+l->ge[k]*N,8*N); g_freeze(l->x[d]); } }
static void lmesh_free(struct lmesh *l,int dim){ int d; for(d=0;d<dim;d++) g_free(l->x[d]); hfree(l->ge); }
static int dm_elem(const struct dmesh *m,int p,int l){ int k; for(k=0;k<m->nent;k++) if(m->own[k]==p&&m->loc[k]==l) return m->ent[k]; return -1; }
static int dm_copies(const struct dmesh *m,int e){ int k,c=0; for(k=0;k<m->nent;k++) c+=m->ent[k]==e; return c; }
/* one answer */
struct ans { uint code,proc,el; double r[3],d2; };
static void fo_ans(const struct fout *o,unsigned i,struct ans *a){ int d; memset(a,0,sizeof *a); a->code=fo_u(o,0,i); if(a->code==2) return; a->proc=fo_u(o,1,i),a->el=fo_u(o,2,i); for(d=0;d<o->dim;d++) a->r[d]=fo_r(o,i,d); a->d2=fo_d2(o,i); }
/* what can be said about an answer from the geometry alone; returns the distance */
static ld ans_check(const char *who,const struct dmesh *m,const struct fpar *a,const struct qp *q,const struct ans *s){ const struct mesh *g=&m->f.m; int dim=g->dim,d,e,cp=dm_copies(m,q->e),inside=q->kind<=KFACE; ld dist,jn,tp;
  H_CHECK(s->code<=2,"code-range","%s: code %u",who,s->code);
  if(s->code==2){ H_CHECK(!(inside&&cp),"not-found","%s: a point of element %d (kind %d, r %.9g %.9g %.9g) was not found",who,q->e,q->kind,q->r0[0],q->r0[1],q->r0[2]);
    H_CHECK(!(q->kind==KNUDGE&&cp&&m->strict),"not-found","%s: a point %.3g outside element %d (size %.3g, box tolerance %.3g) was not found",who,q->nudge,q->e,m->f.hmin,a->bbtol); return -1; }
  e=(int)s->proc<m->np?dm_elem(m,s->proc,s->el):-1; H_CHECK(e>=0,"owner-range","%s: reported element %u of process %u, which has %d elements (%d processes)",who,s->el,s->proc,(int)s->proc<m->np?m->n[s->proc]:-1,m->np);
  H_CHECK(q->kind!=KFAR,"found-far","%s: a point far away from the mesh was found with code %u, dist2 %g",who,s->code,s->d2);
  for(d=0;d<dim;d++) H_CHECK(s->r[d]>=-1&&s->r[d]<=1,"r-range","%s: r[%d]=%.17g",who,d,s->r[d]);
  dist=dist_at(g,e,s->r,q->x,&jn); tp=tolpos(&m->f,a,jn);
  H_CHECK(isfinite(s->d2)&&s->d2>=0&&fabsl(sqrtl(s->d2)-dist)<=tp+1e-12L*dist,"dist2","%s: dist2=%.17g but the position reported is at squared distance %.17Lg of the point",who,s->d2,dist*dist);
  if(s->code==0&&m->strict) H_CHECK(dist<=tp,"inside-far","%s: reported inside element %d at distance %.4Lg (kind %d, tolerance %.3Lg; r %.9g %.9g %.9g, element size %.3g smallest stretch %.3g here %.3Lg newton tolerance %.3g n %d)",who,e,dist,q->kind,tp,s->r[0],s->r[1],s->r[2],m->f.hmin,m->f.smin,jn,a->tol,g->n[0]);
  if(inside&&cp&&m->strict){ H_CHECK(dist<=tp,"missed","%s: a point of element %d (kind %d, r %.9g %.9g %.9g) was placed %.4Lg away, in element %d with code %u",who,q->e,q->kind,q->r0[0],q->r0[1],q->r0[2],dist,e,s->code); }
  if(q->kind==KIN&&cp&&m->strict){ H_CHECK(s->code==0,"code","%s: a point well inside element %d got code %u",who,q->e,s->code); H_CHECK(e==q->e,"element","%s: a point well inside element %d was placed in element %d",who,q->e,e); 
    for(d=0;d<dim;d++) H_CHECK(fabs(s->r[d]-q->r0[d])<=50*(double)(tp)/m->f.smin,"r-value","%s: r[%d]=%.17g instead of %.17g",who,d,s->r[d],q->r0[d]); }
  if(q->kind==KNUDGE&&cp&&m->strict) H_CHECK(dist<=q->nudge*(1+1e-6)+tp,"missed","%s: a point %.3g outside element %d was placed %.4Lg away",who,q->nudge,q->e,dist);
  if(s->code==1&&m->strict&&inside){ int b=0; for(d=0;d<dim;d++) b|=fabs(s->r[d])==1; H_CHECK(b,"code","%s: code 1 but the position is not on the border of the element (kind %d)",who,q->kind); }
  return dist; }
/* the best of several answers, and whether s is one of the best */
static void best_check(const char *who,const struct ans *c,int n,const struct ans *s,int dim,const struct qp *q){ int i,best=2; double bd=DBL_MAX; 
  for(i=0;i<n;i++){ if(c[i].code==0) best=0; if(c[i].code==1&&best!=0){ best=1; if(c[i].d2<bd) bd=c[i].d2; } }
  H_CHECK((int)s->code==best,"best-code","%s: code %u although the best answer of the elements taken separately has code %d (kind %d)",who,s->code,best,q->kind); if(best==2) return;
  for(i=0;i<n;i++) if((int)c[i].code==best&&c[i].proc==s->proc&&c[i].el==s->el){ int d,same=1; for(d=0;d<dim;d++) same&=c[i].r[d]==s->r[d]; 
      H_CHECK(same&&c[i].d2==s->d2,"best-value","%s: element %u of process %u gives r=%.17g,%.17g dist2=%.17g on its own, r=%.17g,%.17g dist2=%.17g here",who,s->el,s->proc,c[i].r[0],c[i].r[1],c[i].d2,s->r[0],s->r[1],s->d2);
      H_CHECK(best==0||s->d2==bd,"best-distance","%s: dist2=%.17g although another element is at %.17g",who,s->d2,bd); return; }
  H_FAIL("best-element","%s: answer code %u in element %u of process %u, which does not have that answer on its own",who,s->code,s->el,s->proc); }
static void qps_make(struct qp *q,const struct dmesh *m,struct rng *g,int n){ int i,only=rpct(g,30)?(int)rn(g,NKIND):-1; for(i=0;i<n;i++) qp_make(&m->f,g,&q[i],only>=0?only:(int)rn(g,NKIND)); }
static int qcount(struct rng *g){ if(rn(g,150)==0) return rn(g,10)?rpct(g,30)?rround(g,4200):ri(g,300,3000):ri(g,65000,72000); return rpct(g,12)?(int)rn(g,2):rpct(g,15)?ri(g,20,90):ri(g,1,18); }

/* ---- C18 */
static void c18(struct ctx *c){ struct rng *g=&c->g; int dim=2+(int)rn(g,2),d,i,k,rep,nrep=ri(g,1,4); struct dmesh m; struct lmesh l; struct fpar a; void *fd,**one=0; const double *xp[3]; buffer b=null_buffer; uint64_t sig; long pts=0,found=0; 
  do { dmesh_make(&m,g,1,dim); if(m.nent) break; dmesh_free(&m); } while(1);
  lmesh_make(&l,&m,0); fpar_make(&a,g,&m.f,l.nel); for(d=0;d<dim;d++) xp[d]=l.x[d]; fd=DD(loc_new)(&a,xp,m.f.m.n,l.nel); sig=hfold(m.f.m.nel*100+dim,r64(g)); g_check("findpts_local_setup");
  if(l.nel<=60&&rpct(g,50)){ one=hmalloc(l.nel*sizeof *one); for(k=0;k<l.nel;k++){ const double *xe[3]; struct fpar a1=a; a1.lhash=3+rn(g,20); a1.nmax=1+rn(g,9); for(d=0;d<dim;d++) xe[d]=l.x[d]+(size_t)k*m.f.m.ntot; one[k]=DD(loc_new)(&a1,xe,m.f.m.n,1); } }
  for(rep=0;rep<nrep;rep++){ int n=qcount(g); struct qp *q=hmalloc((n+1)*sizeof *q); struct fout o; struct fin in; struct ans *sn=one?hmalloc((n+1)*l.nel*sizeof *sn):0;
    qps_make(q,&m,g,n); fout_new(&o,g,n,dim,0); fin_new(&in,g,q,n,dim); DD(loc_find)(fd,&o,&in,n,&b); g_check("findpts_local"); fout_gaps(&o,0x1d,"findpts_local");
    for(i=0;i<n;i++){ uint z=0; memcpy(o.f[1]+(size_t)i*o.st[1],&z,4); }
    if(one) for(k=0;k<l.nel;k++){ struct fout o1; fout_new(&o1,g,n,dim,1); DD(loc_find)(one[k],&o1,&in,n,&b); for(i=0;i<n;i++){ fo_ans(&o1,i,&sn[i*l.nel+k]); sn[i*l.nel+k].proc=0; sn[i*l.nel+k].el=k; } fout_free(&o1); }
    for(i=0;i<n;i++){ struct ans s; fo_ans(&o,i,&s); s.proc=0; ans_check("findpts_local",&m,&a,&q[i],&s); if(one) best_check("findpts_local",sn+i*l.nel,l.nel,&s,dim,&q[i]),h_count("answers compared with those of the single elements",1); found+=s.code<2; pts++; }
    /* evaluation: in the order of the answers, grouped and in random order */
    { size_t N=m.f.m.ntot; double *u=g_new(8*N*l.nel); int *idx=hmalloc((n+1)*sizeof(int)),nf=0; unsigned es,rs,os; uint *el; char *rb,*ob; for(i=0;i<(int)(N*l.nel);i++) u[i]=rgauss(g); g_freeze(u);
      for(i=0;i<n;i++) if(fo_u(&o,0,i)<2) idx[nf++]=i; if(rpct(g,40)) rshuffle(g,idx,nf); else if(rpct(g,50)){ int x,y; for(x=1;x<nf;x++) for(y=x;y>0&&fo_u(&o,2,idx[y-1])>fo_u(&o,2,idx[y]);y--){ int t=idx[y]; idx[y]=idx[y-1]; idx[y-1]=t; } }
      es=4*(1+rn(g,3)),rs=8*(dim+rn(g,3)),os=8*(1+rn(g,3)); el=g_new(nf?(nf-1)*es+4:0); rb=g_new(nf?(nf-1)*rs+8*dim:0); ob=g_new(nf?(nf-1)*os+8:0); if(nf) memset(el,1,(nf-1)*es+4),memset(rb,1,(nf-1)*rs+8*dim),memset(ob,1,(nf-1)*os+8);
      for(i=0;i<nf;i++){ uint e=fo_u(&o,2,idx[i]); memcpy((char*)el+i*es,&e,4); for(d=0;d<dim;d++){ double t=fo_r(&o,idx[i],d); memcpy(rb+i*rs+8*d,&t,8); } } g_freeze(el); g_freeze(rb);
      DD(loc_eval)(fd,(double*)ob,os,el,es,(double*)rb,rs,nf,u); g_check("findpts_local_eval");
      for(i=0;i<nf;i++){ ld rr[3],v,ab; double got; int e=fo_u(&o,2,idx[i]); for(d=0;d<dim;d++) rr[d]=fo_r(&o,idx[i],d); v=peval(dim,m.f.m.n,u+e*N,rr,0,&ab); memcpy(&got,ob+i*os,8); H_CHECK(fabsl(got-v)<=500*EPS*(ab+5)*(m.f.m.n[0]+m.f.m.n[1]+m.f.m.n[2]),"local-eval","findpts_local_eval: %.17g instead of %.17Lg",got,v); 
        if(i<nf-1){ unsigned t; for(t=8;t<os;t++) H_CHECK(ob[i*os+t]==1,"stray-write","findpts_local_eval wrote between its outputs"); } }
      h_count("values compared",nf); hfree(idx); g_free(u); g_free(el); g_free(rb); g_free(ob); }
    fout_free(&o); hfree(q); if(sn) hfree(sn); }
  if(one){ for(k=0;k<l.nel;k++) DD(loc_free)(one[k]); hfree(one); }
  DD(loc_free)(fd); buffer_free(&b); lmesh_free(&l,dim); h_count("points searched",pts); h_count("points found",found); vm_sig(sig); h_sample("dim=%d elements=%d n=%d points=%ld found=%ld",dim,l.nel,m.f.m.n[0],pts,found); dmesh_free(&m); }

/* ---- distributed searches */
static double fld_val(uint64_t s,int e,int k){ uint64_t h=mix64(s+e,k); return (double)(int64_t)(h>>11)*(1.0/4503599627370496.0)-1; }
static void fld_fill(double *u,const struct fmesh *f,uint64_t s,int style,int e){ size_t N=f->m.ntot,k; for(k=0;k<N;k++) u[k]=style<f->m.dim?f->m.x[style][e*N+k]:fld_val(s,e,(int)k); }
struct dcase { struct sess s; struct rng r, l; /* l: this process only */ struct dmesh m; struct lmesh lm; struct fpar a; int dim; const double *xp[3]; void *fd; };
static void dcase_open(struct dcase *t,struct ctx *c){ int d,dim; sess_open(&t->s,c); t->r.s=t->s.seed; t->l.s=mix64(t->s.seed,9000+t->s.me); t->dim=dim=2+(int)rn(&t->r,2);
  dmesh_make(&t->m,&t->r,t->s.np,dim); lmesh_make(&t->lm,&t->m,t->s.me); fpar_make(&t->a,&t->r,&t->m.f,t->m.f.m.nel); t->a.lhash+=t->lm.nel; if(rpct(&t->r,40)){ uint64_t z=r64(&t->r)+(uint64_t)t->s.me*0x9e3779b97f4a7c15u; t->a.ghash=1+(uint)((z>>33)%(2*t->a.ghash+3)); } for(d=0;d<dim;d++) t->xp[d]=t->lm.x[d]; 
  t->fd=DD(d_new)(&t->a,&t->s.c,t->xp,t->m.f.m.n,t->lm.nel,0,0); g_check("findpts_setup"); }
static void dcase_close(struct dcase *t){ int dim=t->dim; DD(d_free)(t->fd,0); lmesh_free(&t->lm,dim); dmesh_free(&t->m); sess_close(&t->s); }
/* the answer of every process of the communicator taken separately, for all points of all processes */
#define QMAX 96
static void c19(struct ctx *c){ struct dcase t; int dim,rep,nrep,i,p; long pts=0,found=0; uint64_t sig; int cmp; void *lf=0;
  dcase_open(&t,c); dim=t.dim; nrep=ri(&c->g,1,3); sig=hfold(hfold(t.m.f.m.nel,t.s.np),dim); cmp=rpct(&c->g,60); if(cmp&&t.lm.nel) lf=DD(loc_new)(&t.a,t.xp,t.m.f.m.n,t.lm.nel);
  for(rep=0;rep<nrep;rep++){ int np=t.s.np,n=0,tot=0,off[VM_MAXNP+1],none=rn(&t.r,np+1); uint64_t qs=r64(&t.r); struct qp *q; struct fout o; struct fin in; struct ans *all=0; int big=rpct(&t.r,10);
    for(p=0;p<np;p++){ struct rng g; g.s=mix64(qs,p); off[p]=tot; tot+=p==none?0:big?qcount(&g):(int)rn(&g,14); } off[np]=tot; n=off[t.s.me+1]-off[t.s.me]; q=hmalloc((tot+1)*sizeof *q);
    for(p=0;p<np;p++){ struct rng g; g.s=mix64(qs,1000+p); qps_make(q+off[p],&t.m,&g,off[p+1]-off[p]); } sig=hfold(sig,qs);
    if(cmp){ /* every process answers all the points from its own elements */ struct ans *mine=hmalloc((tot+1)*sizeof *mine); size_t k,sz=(tot+1)*sizeof *mine; buffer b=null_buffer; struct ans *w; 
      for(i=0;i<=tot;i++) memset(&mine[i],0,sizeof *mine),mine[i].code=2; 
      if(lf){ fin_new(&in,&t.l,q,tot,dim); fout_new(&o,&t.l,tot,dim,1); DD(loc_find)(lf,&o,&in,tot,&b); for(i=0;i<tot;i++) fo_ans(&o,i,&mine[i]),mine[i].proc=t.s.me; fout_free(&o); } buffer_free(&b);
      /* exchange within this communicator: gather over the world, keep the members */
      { size_t ns[VM_MAXNP],totb,o2=0; char *x=vm_share(mine,sz,ns,&totb); int wp; struct { int color,me; } id={t.s.color,t.s.me},ids[VM_MAXNP]; vm_gatherall(&id,sizeof id,ids); all=hmalloc((tot+1)*np*sizeof *all); for(wp=0;wp<vm_np();wp++){ if(ids[wp].color==t.s.color){ w=(struct ans*)(x+o2); for(k=0;k<=(size_t)tot;k++) all[k*np+ids[wp].me]=w[k]; } o2+=ns[wp]; } hfree(x); } hfree(mine); }
    else { if(0) vm_barrier(); }
    fin_new(&in,&t.l,q+off[t.s.me],n,dim); fout_new(&o,&t.l,n,dim,0); DD(d_find)(t.fd,&o,&in,n); g_check("findpts"); fout_gaps(&o,0x1f,"findpts");
    for(i=0;i<n;i++){ struct ans s; const struct qp *qq=&q[off[t.s.me]+i]; fo_ans(&o,i,&s); ans_check("findpts",&t.m,&t.a,qq,&s); if(cmp) best_check("findpts",all+(size_t)(off[t.s.me]+i)*np,np,&s,dim,qq),h_count("answers compared with those of the separate processes",1); pts++,found+=s.code<2; h_count("points found on another process",s.code<2&&(int)s.proc!=t.s.me); }
    fout_free(&o); hfree(q); if(all) hfree(all); }
  if(lf) DD(loc_free)(lf);
  h_count("points searched",pts); h_count("points found",found); h_count("searches",nrep); vm_sig(sig); h_sample("np=%d dim=%d elements=%d (here %d) points here=%ld found=%ld",t.s.np,dim,t.m.f.m.nel,t.lm.nel,pts,found); dcase_close(&t); }

/* ---- C20 */
static void c20(struct ctx *c){ struct dcase t; int dim,step,ns,i,d; uint64_t sig; struct fout o; struct fin in; unsigned n=0; struct qp *q; long vals=0; size_t N; int used=0;
  dcase_open(&t,c); dim=t.dim; N=t.m.f.m.ntot; ns=ri(&t.r,2,6); sig=hfold(hfold(t.m.f.m.nel,t.s.np),dim+c->seed); memset(&o,0,sizeof o);
  for(step=0;step<ns;step++){ int what=step==0?(rpct(&t.r,80)?0:2):(int)rn(&t.r,6),mutual=rpct(&t.r,50); uint64_t fs=r64(&t.r); int style=rpct(&t.r,30)?(int)rn(&t.r,dim):9; double *u; unsigned os; char *ob; int k;
    if(what==0){ /* search, list = its answers */
      if(used) fout_free(&o); n=qcount(&t.l); if(rpct(&t.l,10)) n=0; q=hmalloc((n+1)*sizeof *q); qps_make(q,&t.m,&t.l,n); fin_new(&in,&t.l,q,n,dim); fout_new(&o,&t.l,n,dim,0); DD(d_find)(t.fd,&o,&in,n); fout_gaps(&o,0x1f,"findpts"); hfree(q); used=1; 
      if(rpct(&t.r,25)) continue; }
    else if(what<=2&&(mutual||rpct(&t.l,40)||!used)){ /* another list: taken from the old one, or made up */
      struct fout w; unsigned m=rpct(&t.l,30)?n:rpct(&t.l,20)?0:rn(&t.l,40); int made=!used||!n||rpct(&t.l,50); if(!t.m.nent) made=0; fout_new(&w,&t.l,m,dim,0); 
      for(i=0;i<(int)m;i++){ if(made||!n){ int e=t.m.nent?(int)rn(&t.l,t.m.nent):0; fo_setu(&w,0,i,!t.m.nent||rpct(&t.l,15)?2:rn(&t.l,2)); fo_setu(&w,1,i,t.m.nent?t.m.own[e]:0); fo_setu(&w,2,i,t.m.nent?t.m.loc[e]:0); for(d=0;d<dim;d++) fo_setr(&w,i,d,rpct(&t.l,20)?(rpct(&t.l,50)?1:-1):rdr(&t.l,-1,1)); }
        else { int j=rpct(&t.l,50)?(int)rn(&t.l,n):i%(int)n; fo_setu(&w,0,i,rpct(&t.l,10)?2:fo_u(&o,0,j)); fo_setu(&w,1,i,fo_u(&o,1,j)); fo_setu(&w,2,i,fo_u(&o,2,j)); for(d=0;d<dim;d++) fo_setr(&w,i,d,fo_r(&o,j,d)); } }
      if(used) fout_free(&o); o=w; n=m; used=1; fout_sync(&o); }
    else if(what==3&&used&&n&&t.m.nent&&rpct(&t.l,60)){ /* change one entry in place */
      int j=(int)rn(&t.l,n); if(fo_u(&o,0,j)<2){ switch(rn(&t.l,3)){ case 0: fo_setr(&o,j,rn(&t.l,dim),rdr(&t.l,-1,1)); break; case 1: fo_setu(&o,0,j,2); break; case 2: { int e=(int)rn(&t.l,t.m.nent); fo_setu(&o,1,j,t.m.own[e]),fo_setu(&o,2,j,t.m.loc[e]); } } fout_sync(&o); } }
    if(!used){ fout_new(&o,&t.l,0,dim,0); n=0; used=1; }
    u=g_new(8*N*t.lm.nel); for(k=0;k<t.lm.nel;k++) fld_fill(u+k*N,&t.m.f,fs,style,t.lm.ge[k]); g_freeze(u); os=8*(1+rn(&t.l,3)); ob=g_new(n?(n-1)*(size_t)os+8:0); if(n) memset(ob,0x3b,(n-1)*(size_t)os+8);
    for(k=0;k<o.nb;k++) g_freeze(o.buf[k]);
    DD(d_eval)(t.fd,(double*)ob,os,&o,n,u,0); g_check("findpts_eval"); for(k=0;k<o.nb;k++) g_thaw(o.buf[k]);
    { double *ue=hmalloc(8*N); for(i=0;i<(int)n;i++){ struct ans s; double got; unsigned b; memcpy(&got,ob+i*(size_t)os,8); fo_ans(&o,i,&s); 
      if(s.code==2) for(b=0;b<8;b++) H_CHECK(ob[i*(size_t)os+b]==0x3b,"stray-write","findpts_eval wrote a value (%.17g) for a point that was not found",got);
      else { ld rr[3],v,ab; int e=dm_elem(&t.m,s.proc,s.el); ld um=0; int kk; H_CHECK(e>=0,"owner-range","findpts: element %u of process %u does not exist",s.el,s.proc); fld_fill(ue,&t.m.f,fs,style,e); for(kk=0;kk<(int)N;kk++) if(fabs(ue[kk])>um) um=fabs(ue[kk]); for(d=0;d<dim;d++) rr[d]=s.r[d]; v=peval(dim,t.m.f.m.n,ue,rr,0,&ab);
        H_CHECK(fabsl(got-v)<=500*EPS*(ab+um)*(t.m.f.m.n[0]+t.m.f.m.n[1]+t.m.f.m.n[2]),"eval-value","findpts_eval: point %d of %u (code %u, process %u, element %u, r %.6g %.6g %.6g): %.17g instead of %.17Lg (step %d)",i,n,s.code,s.proc,s.el,s.r[0],s.r[1],s.r[2],got,v,step); vals++; }
      if(i<(int)n-1) for(b=8;b<os;b++) H_CHECK(ob[i*(size_t)os+b]==0x3b,"stray-write","findpts_eval wrote between its outputs"); } hfree(ue); }
    g_free(u); g_free(ob); h_count("evaluations",1); }
  if(used) fout_free(&o); h_count("values compared",vals); vm_sig(sig); h_sample("np=%d dim=%d elements=%d steps=%d values here=%ld",t.s.np,dim,t.m.f.m.nel,ns,vals); dcase_close(&t); }

/* ---- C21 */
static void c21(struct ctx *c){ struct sess s; struct rng r,l; int dim,ns,k,p,i,d,rep,nrep,sid[VM_MAXNP],idx[VM_MAXNP],cnt[3]={0,0,0}; uint lab[3]; struct dmesh m[3]; struct lmesh lm; struct fpar a; void *fd,*lf=0; const double *xp[3]; uint64_t sig,ds; double *dist; long pts=0,found=0,multi=0; size_t N; double ext;
  sess_open(&s,c); r.s=s.seed; l.s=mix64(s.seed,9000+s.me); dim=2+(int)rn(&r,2); ns=1+(int)rn(&r,3); if(ns>s.np) ns=s.np; 
  for(k=0;k<3;k++) lab[k]=(rpct(&r,60)?0:rn(&r,7))+k*7; if(rpct(&r,40)) for(k=0;k<3;k++) lab[k]=k; for(p=0;p<s.np;p++){ sid[p]=p<ns?p:(int)rn(&r,ns); } { int tmp[VM_MAXNP],j; for(p=0;p<s.np;p++) tmp[p]=p; rshuffle(&r,tmp,s.np); { int q[VM_MAXNP]; for(p=0;p<s.np;p++) q[p]=sid[tmp[p]]; for(j=0;j<s.np;j++) sid[j]=q[j]; } }
  for(p=0;p<s.np;p++) idx[p]=cnt[sid[p]]++;   /* process idx[p] of session sid[p] */
  /* meshes of the sessions overlap: same size, shifted by part of it; same order so that the Fortran-like single n holds */
  for(k=0;k<ns;k++){ dmesh_make(&m[k],&r,cnt[k],dim); if(k){ struct rng r2=r; double sh[3]; int e; ext=0; for(d=0;d<dim;d++) if(m[0].f.hi[d]-m[0].f.lo[d]>ext) ext=m[0].f.hi[d]-m[0].f.lo[d]; { double e1=0,fc; for(d=0;d<dim;d++) if(m[k].f.hi[d]-m[k].f.lo[d]>e1) e1=m[k].f.hi[d]-m[k].f.lo[d]; fc=ext/e1; for(d=0;d<dim;d++){ double c0=(m[0].f.lo[d]+m[0].f.hi[d])/2,c1=(m[k].f.lo[d]+m[k].f.hi[d])/2; sh[d]=rpct(&r2,30)?0:rdr(&r2,-.6,.6)*ext; for(e=0;e<m[k].f.m.nel*m[k].f.m.ntot;e++) m[k].f.m.x[d][e]=c0+sh[d]+fc*(m[k].f.m.x[d][e]-c1); m[k].f.lo[d]=c0+sh[d]+fc*(m[k].f.lo[d]-c1); m[k].f.hi[d]=c0+sh[d]+fc*(m[k].f.hi[d]-c1); } m[k].f.hmin*=fc; m[k].f.m.size*=fc; m[k].f.smin*=fc; m[k].f.xmax=m[0].f.xmax+2*ext; } r=r2; } }
  lmesh_make(&lm,&m[sid[s.me]],idx[s.me]); { double t0=0; int hh=0; for(k=0;k<ns;k++){ fpar_make(&a,&r,&m[k].f,m[k].f.m.nel); if(a.tol>t0) t0=a.tol; if((int)a.ghash>hh) hh=a.ghash; } fpar_make(&a,&r,&m[sid[s.me]].f,m[sid[s.me]].f.m.nel); a.tol=t0; a.ghash=hh; if(hh&1) a.ghash=1+(hh+7u*s.me)%(2*hh+3); a.bbtol=.01; a.lhash+=lm.nel; for(d=0;d<dim;d++) a.m[d]=2*m[sid[s.me]].f.m.n[d]; }
  N=m[sid[s.me]].f.m.ntot; ds=r64(&r); dist=g_new(8*N*lm.nel); for(k=0;k<lm.nel;k++) for(i=0;i<(int)N;i++) dist[k*N+i]=fld_val(ds+1000*sid[s.me],lm.ge[k],i)*.2+(fld_val(ds,sid[s.me],99)); g_freeze(dist);
  for(d=0;d<dim;d++) xp[d]=lm.x[d]; { uint *mysid=g_new(4); *mysid=lab[sid[s.me]]; g_freeze(mysid); fd=DD(d_new)(&a,&s.c,xp,m[sid[s.me]].f.m.n,lm.nel,mysid,dist); } g_check("findptsms_setup");
  if(lm.nel) lf=DD(loc_new)(&a,xp,m[sid[s.me]].f.m.n,lm.nel); nrep=ri(&c->g,1,3); sig=hfold(ds,s.np*10+ns);
  for(rep=0;rep<nrep;rep++){ int np=s.np,tot=0,off[VM_MAXNP+1],n; uint64_t qs=r64(&r); struct qp *q; int *qm; uint *qsid; struct fout o; struct fin in; struct ans *all,*mine; uint match=rn(&r,2); unsigned sst; char *sb; buffer b=null_buffer;
    for(p=0;p<np;p++){ struct rng g; g.s=mix64(qs,p); off[p]=tot; tot+=(int)rn(&g,12); } off[np]=tot; n=off[s.me+1]-off[s.me]; q=hmalloc((tot+1)*sizeof *q); qm=hmalloc((tot+1)*sizeof(int)); qsid=hmalloc((tot+1)*sizeof(uint));
    for(p=0;p<np;p++){ struct rng g; int j; g.s=mix64(qs,1000+p); for(j=off[p];j<off[p+1];j++){ qm[j]=(int)rn(&g,ns); qp_make(&m[qm[j]].f,&g,&q[j],(int)rn(&g,NKIND)); qsid[j]=rpct(&g,60)?lab[sid[p]]:rpct(&g,80)?lab[rn(&g,ns)]:100+rn(&g,5); } }
    mine=hmalloc((tot+1)*sizeof *mine); for(i=0;i<=tot;i++) memset(&mine[i],0,sizeof *mine),mine[i].code=2;
    if(lf){ fin_new(&in,&l,q,tot,dim); fout_new(&o,&l,tot,dim,1); DD(loc_find)(lf,&o,&in,tot,&b); for(i=0;i<tot;i++) fo_ans(&o,i,&mine[i]),mine[i].proc=s.me; fout_free(&o); } buffer_free(&b);
    { size_t nsz[VM_MAXNP],totb,o2=0; char *x=vm_share(mine,(tot+1)*sizeof *mine,nsz,&totb); int wp; struct { int color,me; } id={s.color,s.me},ids[VM_MAXNP]; vm_gatherall(&id,sizeof id,ids); all=hmalloc((tot+1)*np*sizeof *all); for(wp=0;wp<vm_np();wp++){ if(ids[wp].color==s.color){ struct ans *w=(struct ans*)(x+o2); for(i=0;i<=tot;i++) all[i*np+ids[wp].me]=w[i]; } o2+=nsz[wp]; } hfree(x); hfree(mine); }
    fin_new(&in,&l,q+off[s.me],n,dim); fout_new(&o,&l,n,dim,0); sst=4*(1+rn(&l,3)); sb=g_new(n?(n-1)*sst+4:4); memset(sb,0x55,n?(n-1)*sst+4:4); for(i=0;i<n;i++) memcpy(sb+i*sst,&qsid[off[s.me]+i],4); g_freeze(sb); in.sid=(uint*)sb; in.sidst=sst; in.match=match;
    DD(d_find)(fd,&o,&in,n); g_check("findptsms"); fout_gaps(&o,0x1f,"findptsms");
    for(i=0;i<n;i++){ struct ans z; int j=off[s.me]+i,nc=0,amb=0,best=-1; ld bp=-1e300L,pr[3],tolp=0; struct ans cand[VM_MAXNP]; fo_ans(&o,i,&z); pts++;
      H_CHECK(z.code<=2,"code-range","findptsms: code %u",z.code);
      if(z.code<2){ int zs; H_CHECK((int)z.proc<np,"owner-range","findptsms: process %u",z.proc); zs=sid[z.proc]; H_CHECK(match?lab[zs]==qsid[j]:lab[zs]!=qsid[j],"session-filter","findptsms: point of session %u with match=%u was answered by process %u of session %u",qsid[j],match,z.proc,lab[zs]); found++; }
      for(k=0;k<ns;k++){ pr[k]=-2e300L; if(match?lab[k]==qsid[j]:lab[k]!=qsid[j]){ int w; struct ans *bs=0; /* best of the session */ 
          for(w=0;w<np;w++) if(sid[w]==k){ struct ans *x=&all[j*np+w]; if(x->code==2) continue; if(!bs||(x->code==0&&bs->code!=0)||(x->code==1&&bs->code==1&&x->d2<bs->d2)) bs=x; }
          if(bs){ int w2,e=dm_elem(&m[k],idx[bs->proc],bs->el),ii; size_t Nk=m[k].f.m.ntot; double *ue; ld rr[3],ab,v,dd,jn; 
            if(bs->code==0) for(w2=0;w2<np;w2++) if(sid[w2]==k&&&all[j*np+w2]!=bs&&all[j*np+w2].code==0) amb=1;     /* several elements hold the point */
            if(bs->code==1) for(w2=0;w2<np;w2++) if(sid[w2]==k&&&all[j*np+w2]!=bs&&all[j*np+w2].code==1&&all[j*np+w2].d2==bs->d2) amb=1;
            dd=dist_at(&m[k].f.m,e,bs->r,q[j].x,&jn); if(dd>tolpos(&m[k].f,&a,jn)) amb=1;
            ue=hmalloc(8*Nk); for(ii=0;ii<(int)Nk;ii++) ue[ii]=fld_val(ds+1000*k,e,ii)*.2+fld_val(ds,k,99); for(d=0;d<dim;d++) rr[d]=bs->r[d]; v=peval(dim,m[k].f.m.n,ue,rr,0,&ab); hfree(ue); pr[k]=v; if(500*EPS*(ab+1)*(m[k].f.m.n[0]+m[k].f.m.n[1]+m[k].f.m.n[2])>tolp) tolp=500*EPS*(ab+1)*(m[k].f.m.n[0]+m[k].f.m.n[1]+m[k].f.m.n[2]); nc++; if(v>bp) bp=v,best=k; cand[k]=*bs; } } }
      if(nc==0) H_CHECK(z.code==2,"session-found","findptsms: code %u although no element of an allowed session holds the point",z.code);
      else { int zs,w; H_CHECK(z.code<2,"session-missed","findptsms: not found although session %u holds the point (code %u there, kind %d)",lab[best],cand[best].code,q[j].kind); zs=sid[z.proc]; h_count("points held by several allowed sessions",nc>1); multi+=nc>1;
        /* the answer is one of its session's answers */
        w=(int)z.proc; { struct ans *x=&all[j*np+w]; int same=x->code==z.code&&x->el==z.el&&x->d2==z.d2; for(d=0;d<dim;d++) same&=x->r[d]==z.r[d]; H_CHECK(same,"session-value","findptsms: process %d answers code %u element %u dist2 %.17g on its own, code %u element %u dist2 %.17g here",w,x->code,x->el,x->d2,z.code,z.el,z.d2); }
        if(!amb){ H_CHECK(pr[zs]>=bp-tolp,"session-priority","findptsms: answered by session %u with priority %.9Lg, session %u holds the point with priority %.9Lg",lab[zs],pr[zs],lab[best],bp); h_count("priority decisions checked",nc>1); } } }
    /* evaluation of a field at the answers */
    { uint64_t fs=r64(&r); double *u=g_new(8*N*lm.nel),*ob; for(k=0;k<lm.nel;k++) for(i=0;i<(int)N;i++) u[k*N+i]=fld_val(fs+1000*sid[s.me],lm.ge[k],i); g_freeze(u); ob=g_new(8*n); for(i=0;i<n;i++) ob[i]=-55; for(k=0;k<o.nb;k++) g_freeze(o.buf[k]);
      DD(d_eval)(fd,ob,8,&o,n,u,1); g_check("findptsms_eval"); for(k=0;k<o.nb;k++) g_thaw(o.buf[k]);
      for(i=0;i<n;i++){ struct ans z; fo_ans(&o,i,&z); if(z.code==2) H_CHECK(ob[i]==-55,"stray-write","findptsms_eval wrote a value for a point that was not found"); else { int zs=sid[z.proc],e=dm_elem(&m[zs],idx[z.proc],z.el),ii; size_t Nk=m[zs].f.m.ntot; ld rr[3],v,ab; double *ue; H_CHECK(e>=0,"owner-range","findptsms: element %u of process %u",z.el,z.proc); ue=hmalloc(8*Nk); for(ii=0;ii<(int)Nk;ii++) ue[ii]=fld_val(fs+1000*zs,e,ii); for(d=0;d<dim;d++) rr[d]=z.r[d]; v=peval(dim,m[zs].f.m.n,ue,rr,0,&ab); hfree(ue); H_CHECK(fabsl(ob[i]-v)<=500*EPS*(ab+1)*(m[zs].f.m.n[0]+m[zs].f.m.n[1]+m[zs].f.m.n[2]),"eval-value","findptsms_eval: %.17g instead of %.17Lg",ob[i],v); h_count("values compared",1); } }
      g_free(u); g_free(ob); }
    fout_free(&o); hfree(q); hfree(qm); hfree(qsid); hfree(all); }
  if(lf) DD(loc_free)(lf); DD(d_free)(fd,1); h_count("points searched",pts); h_count("points found",found); vm_sig(sig); h_sample("np=%d sessions=%d dim=%d points here=%ld found=%ld in several sessions=%ld",s.np,ns,dim,pts,found,multi);
  lmesh_free(&lm,dim); for(k=0;k<ns;k++) dmesh_free(&m[k]); sess_close(&s); }
