#ifndef SESS_H
#define SESS_H
/* a communicator to work on: the world, a permuted copy, or one of two halves;
   optionally with traffic of the "application" pending on it during the case */
#define SESS_NOISE 6
struct sess { MPI_Comm mc; int own; struct comm c; int np, me, color; uint64_t seed;
  int nmsg; uint64_t nseed; MPI_Request sreq[SESS_NOISE], rreq[SESS_NOISE]; char *sb[SESS_NOISE], *rb[SESS_NOISE]; int posted[SESS_NOISE]; };
static int sess_noise_pct=30;
/* message k of process p goes to process (p+shift) with a fixed tag and length */
static void sess_msg(const struct sess *s,int k,int from,int *to,int *tag,int *len){
  static const int low[]={0,1,2,3,5,7};
  uint64_t h=mix64(s->nseed,k); *to=(from+1+(int)(h%97))%s->np; h=mix64(s->nseed,100+k);
  *tag=h&1?low[(h>>8)%6]:(int)((h>>8)%(2*s->np+4)); *tag+=k<2?0:k*256; *len=1+(int)(mix64(s->nseed,200+k)%40); }
static char sess_byte(const struct sess *s,int from,int k,int i){ return (char)mix64(s->nseed+from*1000+k,i); }
static void sess_noise_begin(struct sess *s){ int k,i; 
  for(k=0;k<s->nmsg;k++){ int to,tag,len,src; sess_msg(s,k,s->me,&to,&tag,&len); s->sb[k]=hmalloc(len); for(i=0;i<len;i++) s->sb[k][i]=sess_byte(s,s->me,k,i);
    s->rb[k]=hmalloc(len); src=(s->me-(int)(1+mix64(s->nseed,k)%97)%s->np+s->np)%s->np; s->posted[k]=0;
    /* a receive posted early can take any of the application's messages, but none of the library's */
    if(k>=2&&(mix64(s->nseed,300+k)&1)){ MPI_Irecv(s->rb[k],len,MPI_BYTE,mix64(s->nseed,400+k)&1?src:MPI_ANY_SOURCE,tag,s->mc,&s->rreq[k]); s->posted[k]=1; }
    MPI_Isend(s->sb[k],len,MPI_BYTE,to,tag,s->mc,&s->sreq[k]); } }
static void sess_noise_end(struct sess *s){ int k,i; 
  for(k=0;k<s->nmsg;k++){ int to,tag,len,src=0; MPI_Status st; sess_msg(s,k,s->me,&to,&tag,&len); src=(s->me-(int)(1+mix64(s->nseed,k)%97)%s->np+s->np)%s->np;
    if(s->posted[k]) MPI_Wait(&s->rreq[k],&st); else MPI_Recv(s->rb[k],len,MPI_BYTE,src,tag,s->mc,&st);
    if(st.MPI_SOURCE!=src) H_FAIL("app-message-disturbed","a message of the application on its own communicator came from process %d instead of %d",st.MPI_SOURCE,src);
    for(i=0;i<len;i++) if(s->rb[k][i]!=sess_byte(s,src,k,i)) H_FAIL("app-message-disturbed","a message of the application on its own communicator arrived with a wrong byte %d",i);
    MPI_Wait(&s->sreq[k],MPI_STATUS_IGNORE); hfree(s->sb[k]); hfree(s->rb[k]); }
  if(s->nmsg) h_count("application messages kept pending during the case",s->nmsg); }
static void sess_open(struct sess *s,struct ctx *c){ int kind=(int)rn(&c->g,10); uint64_t ks=r64(&c->g); int color=0,key;
  s->own=0; s->mc=MPI_COMM_WORLD; s->color=0;
  if(kind>=6){ key=(int)(mix64(ks,c->me)%1000); if(kind>=8) color=(int)(mix64(ks,1000+c->me)&1); s->own=1; MPI_Comm_split(MPI_COMM_WORLD,color,key,&s->mc); s->color=color; }
  comm_init(&s->c,s->mc); s->np=(int)s->c.np; s->me=(int)s->c.id; s->seed=mix64(c->seed,500+color);
  s->nseed=mix64(s->seed,77); s->nmsg=(int)(s->nseed%100)<(sess_noise_pct_all>=0?sess_noise_pct_all:sess_noise_pct)?1+(int)((s->nseed>>20)%SESS_NOISE):0; sess_noise_begin(s); }
static void sess_close(struct sess *s){ sess_noise_end(s); comm_free(&s->c); if(s->own) MPI_Comm_free(&s->mc); }
#endif
