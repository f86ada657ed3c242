/* T03/T04: the Fortran crystal interface.
   op 0 ituple_transfer, 1 tuple_transfer (both with a limit max), 2 ituple_sort, 3 tuple_sort */
#include "common.h"
#define F(n) fgslib_##n##_
void F(crystal_setup)(sint *handle, const MPI_Fint *comm, const sint *np);
void F(crystal_free)(sint *handle);
void F(crystal_ituple_sort)(const sint*,sint A[],const sint*m,const sint*n,const sint keys[],const sint*nkey);
void F(crystal_tuple_sort)(const sint*,const sint*n,sint Ai[],const sint*mi,slong Al[],const sint*ml,double Ad[],const sint*md,const sint keys[],const sint*nkey);
void F(crystal_ituple_transfer)(const sint*,sint A[],const sint*m,sint*n,const sint*nmax,const sint*proc_key);
void F(crystal_tuple_transfer)(const sint*,sint*n,const sint*max,sint Ai[],const sint*mi,slong Al[],const sint*ml,double Ad[],const sint*md,const sint*proc_key);
#define MAXP 8
#define MAXN 8
struct col { int tgt; int d; int64_t l[2]; double r; };
struct sh { int np,op,kp,ml,md,n[MAXP],max[MAXP]; struct col c[MAXP][MAXN]; int got[MAXP][MAXN]; int kept[MAXP],ret[MAXP]; int handles; };
static void rank_main(int id,void *arg){
  struct sh *s=arg; sint h,h2,np=s->np; MPI_Fint w=MPI_Comm_c2f(MPI_COMM_WORLD); int i;
  F(crystal_setup)(&h,&w,&np);
  if(s->handles){ F(crystal_setup)(&h2,&w,&np); sym_assert(h2!=h,"crystal_setup: two live instances share a handle"); F(crystal_free)(&h); h=h2; }
  sint m=4,n=s->n[id],max=s->max[id],kp=s->kp,ml=s->ml,md=s->md; int kk[3],q=0;
  for(i=0;i<4;i++) if(i!=kp-1) kk[q++]=i; /* the three non-target columns hold src, seq, data */
  sint *vi=malloc(max*m*sizeof(sint)); slong *vl=malloc((max*ml?max*ml:1)*sizeof(slong)); double *vr=malloc((max*md?max*md:1)*sizeof(double));
  for(i=0;i<max*m;i++) vi[i]=-7;
  for(i=0;i<max*ml;i++) vl[i]=-7;
  for(i=0;i<max*md;i++) vr[i]=-7;
  for(i=0;i<n;i++){ struct col *c=&s->c[id][i]; vi[i*m+kp-1]=c->tgt; vi[i*m+kk[0]]=id; vi[i*m+kk[1]]=i; vi[i*m+kk[2]]=c->d; for(int j=0;j<ml;j++) vl[i*ml+j]=c->l[j]; for(int j=0;j<md;j++) vr[i*md+j]=c->r; }
  if(s->op==0) F(crystal_ituple_transfer)(&h,vi,&m,&n,&max,&kp); else F(crystal_tuple_transfer)(&h,&n,&max,vi,&m,vl,&ml,vr,&md,&kp);
  s->ret[id]=n; s->kept[id]=n<max?n:max;
  for(i=0;i<s->kept[id];i++){ uint src=vi[i*m+kk[0]],seq=vi[i*m+kk[1]];
    sym_assert(src<(uint)s->np&&seq<(uint)s->n[src<(uint)s->np?src:0],"crystal_tuple_transfer: column corrupted");
    if(src<(uint)s->np&&seq<(uint)s->n[src]){ struct col *c=&s->c[src][seq]; s->got[src][seq]++; int ok=(c->tgt==id)&(vi[i*m+kp-1]==(sint)src)&(vi[i*m+kk[2]]==c->d);
      sym_assert(ok,"crystal_tuple_transfer: integer column wrong, misdelivered, or its source not set");
      if(s->op==1){ ok=1; for(int j=0;j<ml;j++) ok&=(vl[i*ml+j]==c->l[j]); sym_assert(ok,"crystal_tuple_transfer: long column does not travel with its tuple"); 
        ok=1; for(int j=0;j<md;j++) ok&=(vr[i*md+j]==c->r); sym_assert(ok,"crystal_tuple_transfer: real column does not travel with its tuple"); } } }
  free(vi); free(vl); free(vr); F(crystal_free)(&h);
}
static void sort_main(int id,void *arg){
  struct sh *s=arg; sint h,np=1; MPI_Fint w=MPI_Comm_c2f(MPI_COMM_WORLD); int i,j; F(crystal_setup)(&h,&w,&np);
  sint n=s->n[0],m=3,ml=s->ml,md=s->md; sint key[3],nk=s->kp; sint vi[MAXN*3]; slong vl[MAXN*2]; double vr[MAXN*2]; struct col *c=s->c[0];
  int tot= s->op==2?2:2+ml; 
  for(i=0;i<nk;i++){ int k=sym_choice("key",tot); key[i]= k<2?k+1:m+1+(k-2); }
  for(i=0;i<n;i++){ vi[3*i]=c[i].d; vi[3*i+1]=c[i].tgt; vi[3*i+2]=i; for(j=0;j<ml;j++) vl[i*ml+j]=c[i].l[j]; for(j=0;j<md;j++) vr[i*md+j]=c[i].r; }
  if(s->op==2) F(crystal_ituple_sort)(&h,vi,&m,&n,key,&nk); else F(crystal_tuple_sort)(&h,&n,vi,&m,vl,&ml,vr,&md,key,&nk);
  int seen[MAXN]={0},whole=1,perm=1;
  for(i=0;i<n;i++){ int q=sym_concretize(vi[3*i+2]); if(q<0||q>=n){ perm=0; continue; } seen[q]++; whole&=(vi[3*i]==c[q].d)&(vi[3*i+1]==c[q].tgt);
    if(s->op==3){ for(j=0;j<ml;j++) whole&=(vl[i*ml+j]==c[q].l[j]); for(j=0;j<md;j++) whole&=(vr[i*md+j]==c[q].r); } }
  for(i=0;i<n;i++) perm&=seen[i]==1;
  sym_assert(perm,"crystal_tuple_sort: columns lost or duplicated"); sym_assert(whole,"crystal_tuple_sort: tuple torn apart");
  if(perm) for(i=0;i+1<n;i++){ int gt=0,eq=1; for(j=0;j<nk;j++){ int64_t x,y; if(key[j]<=m) x=vi[3*i+key[j]-1],y=vi[3*i+3+key[j]-1]; else x=vl[i*ml+key[j]-1-m],y=vl[(i+1)*ml+key[j]-1-m]; gt|=SYM_AND(eq,y<x); eq=SYM_AND(eq,x==y); }
    sym_assert(!gt,"crystal_tuple_sort: not in lexicographic key order"); sym_assert(SYM_IMP(eq,vi[3*i+2]<vi[3*i+5]),"crystal_tuple_sort: equal tuples reordered"); }
  F(crystal_free)(&h);
}
void harness_main(void){
  struct sh *s=sym_shared(sizeof *s); int p,i,np=sym_param("np",2),n=sym_param("n",2); s->np=np; s->op=sym_param("op",0); s->kp=sym_param("kp",1); s->ml=sym_param("ml",1); s->md=sym_param("md",1); s->handles=sym_param("handles",0);
  if(s->op>=2){ s->n[0]=n; for(i=0;i<n;i++){ struct col *c=&s->c[0][i]; c->d=sym_range("d",0,INT_MAX); c->tgt=sym_range("t",0,INT_MAX); c->l[0]=sym_range64("l",0,sizeof(slong)==4?INT_MAX:INT64_MAX); c->l[1]=sym_range64("l",0,sizeof(slong)==4?INT_MAX:INT64_MAX); c->r=sym_real("r"); } sym_run_ranks(1,sort_main,s); }
  else {
    int lim=sym_param("lim",n);
    for(p=0;p<np;p++){ s->n[p]=sym_choice("n",n+1); s->max[p]=s->n[p]+sym_choice("room",lim+1); if(!s->max[p]) s->max[p]=1;
      for(i=0;i<s->n[p];i++){ struct col *c=&s->c[p][i]; c->tgt=sym_choice("tgt",np); c->d=sym_i32("d"); c->l[0]=(slong)sym_i64("l"); c->l[1]=(slong)sym_i64("l"); c->r=sym_real("r"); } }
    sym_run_ranks(np,rank_main,s);
    for(p=0;p<np;p++){ int want=0,got=0; for(int q=0;q<np;q++) for(i=0;i<s->n[q];i++) if(s->c[q][i].tgt==p){ want++; got+=s->got[q][i]; sym_assert(s->got[q][i]<=1,"crystal_tuple_transfer: column delivered twice"); }
      sym_assert(s->ret[p]==want,"crystal_tuple_transfer: n is not the number of columns sent here");
      sym_assert(got==(want<s->max[p]?want:s->max[p]),"crystal_tuple_transfer: not min(n,max) columns delivered");
      if(want>s->max[p]) sym_cover("truncated"); sym_observe_i("ret",s->ret[p]); }
    if(sym_param("np",2)>1) sym_require_cover("truncated");
  }
  sym_require_cover("end"); sym_cover("end");
}
