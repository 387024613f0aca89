/* ---- C26: the Fortran interface, next to the C interface on the same data */
#define FF(x) fgslib_##x##_
typedef const int *CI; typedef const double *CD;
void FF(findpts_setup)(int*,CI,CI,CI,CD,CD,CD,CI,CI,CI,CI,CI,CI,CI,CD,CI,CI,CI,CD);
void FF(findptsms_setup)(int*,CI,CI,CI,CD,CD,CD,CI,CI,CI,CI,CI,CI,CI,CD,CI,CI,CI,CD,const uint*,CD);
void FF(findpts)(CI,int*,CI,int*,CI,int*,CI,double*,CI,double*,CI,CD,CI,CD,CI,CD,CI,CI);
void FF(findptsms)(CI,int*,CI,int*,CI,int*,CI,double*,CI,double*,CI,CD,CI,CD,CI,CD,CI,const uint*,const uint*,const uint*,CI);
void FF(findpts_eval)(CI,double*,CI,CI,CI,CI,CI,CI,CI,CD,CI,CI,CD);
void FF(findptsms_eval)(CI,double*,CI,CI,CI,CI,CI,CI,CI,CD,CI,CI,CD);
void FF(findpts_eval_local)(CI,double*,CI,CI,CI,CD,CI,CI,CD);
void FF(findptsms_eval_local)(CI,double*,CI,CI,CI,CD,CI,CI,CD);
void FF(findpts_free)(CI); void FF(findptsms_free)(CI);
struct fslot { int on,dim,ms,h; struct dmesh m; struct lmesh lm; struct fpar a; void *cd,*ld; double *dist; uint sid; };
static uint loc_nel(const struct fslot *f){ return (uint)f->lm.nel; }
static void c26(struct ctx *c){ struct sess s; struct rng r,l; struct fslot *f; int k,d,i,step,steps,nlive=0,nf; uint64_t sig=11; long pts=0,found=0,vals=0;
  h_leak_slack=128; sess_open(&s,c); r.s=s.seed; l.s=mix64(s.seed,9000+s.me); nf=4; steps=ri(&r,3,9); if(rn(&r,1000)<12) nf=12+(int)rn(&r,24),steps=2*nf,h_count("histories with many handles",1); f=hmalloc(nf*sizeof *f); memset(f,0,nf*sizeof *f);
  for(step=0;step<steps;step++){ int j=(int)rn(&r,nf),what=(int)rn(&r,5),dim; struct fslot *q=&f[j]; uint64_t ss=r64(&r); 
    if(!q->on){ const double *xp[3]; int fc=MPI_Comm_c2f(s.mc),np=s.np,pad=1+(int)rn(&l,1000); struct rng g; int *iv; double *dv,*none; memset(q,0,sizeof *q); q->dim=dim=2+(int)rn(&r,2); q->ms=rpct(&r,40); g.s=ss;
      dmesh_make(&q->m,&g,s.np,dim); lmesh_make(&q->lm,&q->m,s.me); fpar_make(&q->a,&g,&q->m.f,q->m.f.m.nel); q->a.lhash+=q->lm.nel; q->sid=s.me%2; if(q->ms){ size_t N=q->m.f.m.ntot; q->dist=g_new(8*N*q->lm.nel); for(i=0;i<(int)(N*q->lm.nel);i++) q->dist[i]=rdr(&l,-1,1); g_freeze(q->dist); }
      for(d=0;d<3;d++) xp[d]=d<dim?q->lm.x[d]:0; iv=g_new(14*sizeof(int)); dv=g_new(2*8); none=g_new(0);
      { uint *sp=g_new(4); *sp=q->sid; g_freeze(sp); q->cd=DD(d_new)(&q->a,&s.c,xp,q->m.f.m.n,q->lm.nel,q->ms?sp:0,q->dist);
      iv[0]=fc,iv[1]=np,iv[2]=dim; for(d=0;d<3;d++) iv[3+d]=d<dim?q->m.f.m.n[d]:pad,iv[6+d]=d<dim?q->a.m[d]:pad; iv[9]=q->lm.nel,iv[10]=q->a.lhash,iv[11]=q->a.ghash,iv[12]=q->a.nmax; iv[13]=q->ms; dv[0]=q->a.bbtol,dv[1]=q->a.tol; g_freeze(iv); g_freeze(dv); q->h=-12345;
      if(q->ms) FF(findptsms_setup)(&q->h,iv,iv+1,iv+2,xp[0],xp[1],dim==3?xp[2]:none,iv+3,iv+4,iv+5,iv+9,iv+6,iv+7,iv+8,dv,iv+10,iv+11,iv+12,dv+1,sp,q->dist);
      else FF(findpts_setup)(&q->h,iv,iv+1,iv+2,xp[0],xp[1],dim==3?xp[2]:none,iv+3,iv+4,iv+5,iv+9,iv+6,iv+7,iv+8,dv,iv+10,iv+11,iv+12,dv+1); }
      g_check("findpts_setup (Fortran)"); g_free(iv); g_free(dv); g_free(none); q->on=1; nlive++; H_CHECK(q->h>=0,"fort-handle","findpts_setup gave handle %d",q->h);
      for(k=0;k<nf;k++) if(k!=j&&f[k].on) H_CHECK(f[k].h!=q->h,"fort-handle","findpts_setup gave handle %d, which is in use",q->h); sig=hfold(sig,dim*2+q->ms); continue; }
    dim=q->dim; sig=hfold(sig,what);
    if(what==4){ if(q->ms) FF(findptsms_free)(&q->h); else FF(findpts_free)(&q->h); DD(d_free)(q->cd,q->ms); if(q->ld) DD(loc_free)(q->ld); lmesh_free(&q->lm,dim); dmesh_free(&q->m); if(q->dist) g_free(q->dist); q->on=0; nlive--; continue; }
    if(what<=2){ /* search, then evaluate */
      int n=qcount(&l),si[9],n1=n,zs=77; struct qp *p; struct fout a,b; struct fin in; struct rng g1,g2; char *sb=0; uint match=rn(&r,2),sst=0; double *z=g_new(0); if(rpct(&l,10)) n1=n=0;
      p=hmalloc((n+1)*sizeof *p); qps_make(p,&q->m,&l,n); g1.s=g2.s=r64(&l); fout_new(&a,&g1,n,dim,0); fout_new(&b,&g2,n,dim,0); fin_new(&in,&l,p,n,dim);
      if(q->ms){ unsigned st=4*(1+rn(&l,3)); sb=g_new(n?(n-1)*st+4:4); memset(sb,0x55,n?(n-1)*st+4:4); for(i=0;i<n;i++){ uint v=rn(&l,3); memcpy(sb+i*st,&v,4); } g_freeze(sb); in.sid=(uint*)sb; in.sidst=st; in.match=match; sst=st/4; }
      DD(d_find)(q->cd,&a,&in,n); for(k=0;k<5;k++) si[k]=a.st[k]/(k>=3?8:4); for(d=0;d<dim;d++) si[5+d]=in.xst[d]/8; if(dim==2) si[7]=zs;
      if(q->ms) FF(findptsms)(&q->h,(int*)b.f[0],si,(int*)b.f[1],si+1,(int*)b.f[2],si+2,(double*)b.f[3],si+3,(double*)b.f[4],si+4,in.x[0],si+5,in.x[1],si+6,dim==3?in.x[2]:z,si+7,(uint*)sb,&sst,&match,&n1);
      else FF(findpts)(&q->h,(int*)b.f[0],si,(int*)b.f[1],si+1,(int*)b.f[2],si+2,(double*)b.f[3],si+3,(double*)b.f[4],si+4,in.x[0],si+5,in.x[1],si+6,dim==3?in.x[2]:z,si+7,&n1);
      g_check("findpts (Fortran)"); fout_gaps(&b,0x1f,"findpts (Fortran)"); 
      for(i=0;i<n;i++){ struct ans x,y; int same; fo_ans(&a,i,&x); fo_ans(&b,i,&y); same=x.code==y.code&&(x.code==2||(x.proc==y.proc&&x.el==y.el&&x.d2==y.d2)); for(d=0;d<dim&&x.code<2;d++) same&=x.r[d]==y.r[d]; pts++; found+=x.code<2;
        H_CHECK(same,"fort-differs","findpts (Fortran): point %d: code %u process %u element %u r %.17g %.17g dist2 %.17g; through C: code %u process %u element %u r %.17g %.17g dist2 %.17g (dim %d ms %d)",i,y.code,y.proc,y.el,y.r[0],y.r[1],y.d2,x.code,x.proc,x.el,x.r[0],x.r[1],x.d2,dim,q->ms);
        if(!q->ms){ struct ans t=y; ans_check("findpts (Fortran)",&q->m,&q->a,&p[i],&t); } }
      { size_t N=q->m.f.m.ntot; double *u=g_new(8*N*q->lm.nel); unsigned os=1+rn(&l,3); int oi=os; double *o1=g_new(n?((n-1)*os+1)*8:0),*o2=g_new(n?((n-1)*os+1)*8:0); for(i=0;i<(int)(N*q->lm.nel);i++) u[i]=rdr(&l,-1,1); g_freeze(u); for(i=0;n&&i<(int)((n-1)*os+1);i++) o1[i]=o2[i]=-3.25;
        for(k=0;k<a.nb;k++) g_freeze(a.buf[k]),g_freeze(b.buf[k]);
        DD(d_eval)(q->cd,o1,8*os,&a,n,u,q->ms);
        (q->ms?FF(findptsms_eval):FF(findpts_eval))(&q->h,o2,&oi,(int*)b.f[0],si,(int*)b.f[1],si+1,(int*)b.f[2],si+2,(double*)b.f[3],si+3,&n1,u); g_check("findpts_eval (Fortran)");
        for(i=0;n&&i<(int)((n-1)*os+1);i++) H_CHECK(o1[i]==o2[i],"fort-differs","findpts_eval (Fortran): entry %d is %.17g, %.17g through C (stride %u dim %d ms %d)",i,o2[i],o1[i],os,dim,q->ms); vals+=n;
        for(k=0;k<a.nb;k++) g_thaw(a.buf[k]),g_thaw(b.buf[k]); g_free(u); g_free(o1); g_free(o2); }
      fout_free(&a); fout_free(&b); hfree(p); g_free(z); }
    else { /* evaluation on the elements here; not collective */
      int n=loc_nel(q)?(int)rn(&l,30):0,es=1+(int)rn(&l,3),rs=dim+(int)rn(&l,3),os=1+(int)rn(&l,3); size_t N=q->m.f.m.ntot; int *el=g_new(n?4*((n-1)*es+1):0); double *rr=g_new(n?8*((n-1)*rs+dim):0),*o1=g_new(n?8*((n-1)*os+1):0),*o2=g_new(n?8*((n-1)*os+1):0),*u=g_new(8*N*q->lm.nel);
      for(i=0;n&&i<(n-1)*es+1;i++) el[i]=-7; for(i=0;n&&i<(n-1)*rs+dim;i++) rr[i]=99; for(i=0;i<n;i++){ el[i*es]=(int)rn(&l,loc_nel(q)); for(d=0;d<dim;d++) rr[i*rs+d]=rpct(&l,20)?(rpct(&l,50)?1:-1):rdr(&l,-1,1); } for(i=0;n&&i<(n-1)*os+1;i++) o1[i]=o2[i]=-3.25; for(i=0;i<(int)(N*q->lm.nel);i++) u[i]=rdr(&l,-1,1); g_freeze(el); g_freeze(rr); g_freeze(u);
      if(q->lm.nel){ const double *xp[3]; for(d=0;d<dim;d++) xp[d]=q->lm.x[d]; if(!q->ld) q->ld=DD(loc_new)(&q->a,xp,q->m.f.m.n,q->lm.nel); DD(loc_eval)(q->ld,o1,8*os,(uint*)el,4*es,rr,8*rs,n,u); }
      (q->ms&&rpct(&l,50)?FF(findptsms_eval_local):FF(findpts_eval_local))(&q->h,o2,&os,el,&es,rr,&rs,&n,u); g_check("findpts_eval_local (Fortran)");
      for(i=0;n&&i<(n-1)*os+1;i++) H_CHECK(o1[i]==o2[i],"fort-differs","findpts_eval_local (Fortran): entry %d is %.17g, %.17g through C",i,o2[i],o1[i]);
      for(i=0;i<n;i++){ ld t[3],v,ab; for(d=0;d<dim;d++) t[d]=rr[i*rs+d]; v=peval(dim,q->m.f.m.n,u+el[i*es]*N,t,0,&ab); H_CHECK(fabsl(o2[i*os]-v)<=500*EPS*(ab+1)*(q->m.f.m.n[0]+q->m.f.m.n[1]+q->m.f.m.n[2]),"eval-value","findpts_eval_local (Fortran): %.17g instead of %.17Lg",o2[i*os],v); } vals+=n;
      g_free(el); g_free(rr); g_free(o1); g_free(o2); g_free(u); } }
  for(k=nf-1;k>=0;k--) if(f[k].on){ int dim=f[k].dim; if(f[k].ms) FF(findptsms_free)(&f[k].h); else FF(findpts_free)(&f[k].h); DD(d_free)(f[k].cd,f[k].ms); if(f[k].ld) DD(loc_free)(f[k].ld); lmesh_free(&f[k].lm,dim); dmesh_free(&f[k].m); if(f[k].dist) g_free(f[k].dist); }
  h_count("points compared with C",pts); h_count("points found",found); h_count("values compared",vals); vm_sig(hfold(sig,c->seed)); h_sample("np=%d steps=%d points here=%ld found=%ld values=%ld",s.np,steps,pts,found,vals); hfree(f); sess_close(&s); }
