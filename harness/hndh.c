/* Fortran handle tables: histories of set-up, use and release of gather-scatter, crystal-router and point-search handles; a live handle always reaches its own object, a stale or impossible one (or another impossible argument) ends the program instead of reaching any.
   params: np, kinds (bit mask: 1 gs, 2 crystal, 4 findpts), pre (handles set up first), ops (further steps), misuse (1: the history may end in one wrong call) */
#include "common.h"
#undef gs_op
#undef gs_free
#undef gs_unique
#undef gs_setup
#undef gs
#undef crystal_free
#undef crystal_setup
#define F(l,U) GS_FORTRAN_NAME(l,U)
void F(gs_setup_pick,GS_SETUP_PICK)(sint*,const slong*,const sint*,const MPI_Fint*,const sint*,const sint*);
void F(gs_op,GS_OP)(const sint*,void*,const sint*,const sint*,const sint*);
void F(gs_op_vec,GS_OP_VEC)(const sint*,void*,const sint*,const sint*,const sint*,const sint*);
void F(gs_op_many,GS_OP_MANY)(const sint*,void*,void*,void*,void*,void*,void*,const sint*,const sint*,const sint*,const sint*);
void F(gs_op_fields,GS_OP_FIELDS)(const sint*,void*,const sint*,const sint*,const sint*,const sint*,const sint*);
void F(igs_op,IGS_OP)(const sint*,void*,const sint*,const sint*,const sint*,int*);
void F(igs_op_vec,IGS_OP_VEC)(const sint*,void*,const sint*,const sint*,const sint*,const sint*,int*);
void F(igs_op_many,IGS_OP_MANY)(const sint*,void*,void*,void*,void*,void*,void*,const sint*,const sint*,const sint*,const sint*,int*);
void F(gs_op_wait,GS_OP_WAIT)(int*);
void F(gs_free,GS_FREE)(const sint*);
void F(crystal_setup,CRYSTAL_SETUP)(sint*,const MPI_Fint*,const sint*);
void F(crystal_free,CRYSTAL_FREE)(sint*);
void F(crystal_ituple_sort,CRYSTAL_ITUPLE_SORT)(const sint*,sint A[],const sint*m,const sint*n,const sint keys[],const sint*nkey);
void F(crystal_tuple_sort,CRYSTAL_TUPLE_SORT)(const sint*,const sint*n,sint Ai[],const sint*mi,slong Al[],const sint*ml,double Ad[],const sint*md,const sint keys[],const sint*nkey);
void F(crystal_ituple_transfer,CRYSTAL_ITUPLE_TRANSFER)(const sint*,sint A[],const sint*m,sint*n,const sint*nmax,const sint*proc_key);
void F(crystal_tuple_transfer,CRYSTAL_TUPLE_TRANSFER)(const sint*,sint*n,const sint*max,sint Ai[],const sint*mi,slong Al[],const sint*ml,double Ad[],const sint*md,const sint*proc_key);
void F(findpts_setup,FINDPTS_SETUP)(sint*,const MPI_Fint*,const sint*,const sint*,const double*,const double*,const double*,const sint*,const sint*,const sint*,const sint*,const sint*,const sint*,const sint*,const double*,const sint*,const sint*,const sint*,const double*);
void F(findpts_free,FINDPTS_FREE)(const sint*);
void F(findpts,FINDPTS)(const sint*,sint*,const sint*,sint*,const sint*,sint*,const sint*,double*,const sint*,double*,const sint*,const double*,const sint*,const double*,const sint*,const double*,const sint*,const sint*);
void F(findpts_eval,FINDPTS_EVAL)(const sint*,double*,const sint*,const sint*,const sint*,const sint*,const sint*,const sint*,const sint*,const double*,const sint*,const sint*,const double*);
void F(findpts_eval_local,FINDPTS_EVAL_LOCAL)(const sint*,double*,const sint*,const sint*,const sint*,const double*,const sint*,const sint*,const double*);
void F(findptsms_setup,FINDPTSMS_SETUP)(sint*,const MPI_Fint*,const sint*,const sint*,const double*,const double*,const double*,const sint*,const sint*,const sint*,const sint*,const sint*,const sint*,const sint*,const double*,const sint*,const sint*,const sint*,const double*,const uint*,const double*);
void F(findptsms_free,FINDPTSMS_FREE)(const sint*);
void F(findptsms,FINDPTSMS)(const sint*,sint*,const sint*,sint*,const sint*,sint*,const sint*,double*,const sint*,double*,const sint*,const double*,const sint*,const double*,const sint*,const double*,const sint*,const uint*,const uint*,const uint*,const sint*);
void F(findptsms_eval,FINDPTSMS_EVAL)(const sint*,double*,const sint*,const sint*,const sint*,const sint*,const sint*,const sint*,const sint*,const double*,const sint*,const sint*,const double*);
void F(findptsms_eval_local,FINDPTSMS_EVAL_LOCAL)(const sint*,double*,const sint*,const sint*,const sint*,const double*,const sint*,const sint*,const double*);
#ifdef GSLIB_USE_USR_EXIT
void F(userexithandler,USEREXITHANDLER)(int st){ sym_assert(st!=0,"fail: exit handler called with status 0"); exit(1); }
#endif
#define MAXO 10
#define MAXP 4
#define MAXS 8
struct obj { int kind,ord,live; };                 /* ord: number among the objects of its kind; decides its shape */
struct sh { int np,no,ns; struct obj ob[MAXO]; struct { int what,o,call; } st[MAXS]; int v[MAXP][3]; double t; };
static int glab(int ord,int id,int i){ return ord%3==0?i+1:ord%3==1?1:10*id+i+1; }
static int ftdim(int ord){ return 2+(ord&1); } static int ftms(int ord){ return (ord>>1)&1; }
static sint H[MAXO]; static double XS[MAXO][3][8],DF[MAXO][8]; static uint SID[MAXO]; static const sint K[]={0,1,2,3,4,5,6};
static void setup(struct sh *s,int id,int o,int bad){ struct obj *b=&s->ob[o]; int j=b->ord,d; sint np=s->np+(bad==1),n=1+j%3; MPI_Fint w=MPI_Comm_c2f(MPI_COMM_WORLD);
  if(b->kind==0){ slong q[3]; int i; sint m=1+j%3; for(i=0;i<n;i++) q[i]=glab(j,id,i); F(gs_setup_pick,GS_SETUP_PICK)(&H[o],q,&n,&w,&np,&m); }
  if(b->kind==1) F(crystal_setup,CRYSTAL_SETUP)(&H[o],&w,&np);
  if(b->kind==2){ sint dim=bad==2?1:bad==3?4:ftdim(j),nel=id==j%s->np,h=8,g=4,pm=2,m=4; uint *sid=&SID[o]; *sid=id; double tol=.1,nt=1e-10,(*x)[8]=XS[o],*df=DF[o]; for(d=0;d<8;d++){ x[0][d]=j+(d&1); x[1][d]=(d>>1)&1; x[2][d]=d>>2; df[d]=1; }
    if(ftms(j)) F(findptsms_setup,FINDPTSMS_SETUP)(&H[o],&w,&np,&dim,x[0],x[1],x[2],K+2,K+2,K+2,&nel,&m,&m,&m,&tol,&h,&g,&pm,&nt,sid,df);
    else F(findpts_setup,FINDPTS_SETUP)(&H[o],&w,&np,&dim,x[0],x[1],x[2],K+2,K+2,K+2,&nel,&m,&m,&m,&tol,&h,&g,&pm,&nt);
  } }
static void use(struct sh *s,int id,int o){ struct obj *b=&s->ob[o]; int j=b->ord,i,k,q,np=s->np; sint n=1+j%3;
  if(b->kind==0){ sint u[3]; int w; sint dom=2; for(i=0;i<n;i++) u[i]=s->v[id][i];
    if(j&1){ F(igs_op,IGS_OP)(&H[o],u,&dom,K+1,K,&w); F(gs_op_wait,GS_OP_WAIT)(&w); } else F(gs_op,GS_OP)(&H[o],u,&dom,K+1,K);
    for(i=0;i<n;i++){ unsigned e=0; for(q=0;q<np;q++) for(k=0;k<n;k++) if(glab(j,q,k)==glab(j,id,i)) e+=(unsigned)s->v[q][k]; sym_assert((unsigned)u[i]==e,"gs handle: not the sum over its own groups"); } }
  if(b->kind==1){ sint A[3*8],m=3,c=2,mx=8; int src=(id+np-1-j%np+np)%np,got=0; for(i=0;i<2;i++){ A[3*i]=i; A[3*i+1]=(id+1+j)%np; A[3*i+2]=s->v[id][i]; }
    F(crystal_ituple_transfer,CRYSTAL_ITUPLE_TRANSFER)(&H[o],A,&m,&c,&mx,K+2); sym_assert(c==2,"crystal handle: wrong number of rows"); if(c!=2) return;
    F(crystal_ituple_sort,CRYSTAL_ITUPLE_SORT)(&H[o],A,&m,&c,K+1,K+1);
    for(i=0;i<2;i++){ sym_assert(A[3*i]==i&&A[3*i+1]==src,"crystal handle: row not delivered"); sym_assert(A[3*i+2]==s->v[src][i],"crystal handle: row changed"); } (void)got; }
  if(b->kind==2){ sint c=7,p=7,e=7; double r[3],d=-1,out=-1,x=j+s->t,y=.5,z=.25,f[8]; uint sb=99,one=1,ma=0; for(i=0;i<8;i++) f[i]=10*j+(i&1);
    if(ftms(j)){ F(findptsms,FINDPTSMS)(&H[o],&c,K+1,&p,K+1,&e,K+1,r,K+3,&d,K+1,&x,K+1,&y,K+1,&z,K+1,&sb,&one,&ma,K+1); F(findptsms_eval,FINDPTSMS_EVAL)(&H[o],&out,K+1,&c,K+1,&p,K+1,&e,K+1,r,K+3,K+1,f); }
    else { F(findpts,FINDPTS)(&H[o],&c,K+1,&p,K+1,&e,K+1,r,K+3,&d,K+1,&x,K+1,&y,K+1,&z,K+1,K+1); F(findpts_eval,FINDPTS_EVAL)(&H[o],&out,K+1,&c,K+1,&p,K+1,&e,K+1,r,K+3,K+1,f); }
    sym_assert(c==0&&p==j%np&&e==0,"findpts handle: point not found in the mesh of the handle"); if(!(c==0&&p==j%np&&e==0)) return;
    sym_assert_small(r[0]-(2*s->t-1),1e-6,"findpts handle: wrong reference coordinate",0,0); sym_assert_small(out-(10*j+s->t),1e-6,"findpts handle: wrong value",0,0);
    if(id==j%np){ out=-1; if(ftms(j)) F(findptsms_eval_local,FINDPTSMS_EVAL_LOCAL)(&H[o],&out,K+1,&e,K+1,r,K+3,K+1,f); else F(findpts_eval_local,FINDPTS_EVAL_LOCAL)(&H[o],&out,K+1,&e,K+1,r,K+3,K+1,f); sym_assert_small(out-(10*j+s->t),1e-6,"findpts handle: wrong value (local)",0,0); } } }
static void release(struct sh *s,int o){ struct obj *b=&s->ob[o]; if(b->kind==0) F(gs_free,GS_FREE)(&H[o]); if(b->kind==1) F(crystal_free,CRYSTAL_FREE)(&H[o]); if(b->kind==2) (ftms(b->ord)?F(findptsms_free,FINDPTSMS_FREE):F(findpts_free,FINDPTS_FREE))(&H[o]); }
static int NC[]={12,6,9};
/* a wrong call: on handle h of the given kind */
static void wrong(struct sh *s,int id,int kind,sint h,int call){ sint u[12]={0},dom=2; int w; (void)id;
  if(kind==0) switch(call){ case 0: F(gs_op,GS_OP)(&h,u,&dom,K+1,K); break; case 1: F(gs_op_vec,GS_OP_VEC)(&h,u,K+1,&dom,K+1,K); break; case 2: F(gs_op_many,GS_OP_MANY)(&h,u,u,u,u,u,u,K+1,&dom,K+1,K); break; case 3: F(gs_op_fields,GS_OP_FIELDS)(&h,u,K+3,K+1,&dom,K+1,K); break;
    case 4: F(igs_op,IGS_OP)(&h,u,&dom,K+1,K,&w); break; case 5: F(igs_op_vec,IGS_OP_VEC)(&h,u,K+1,&dom,K+1,K,&w); break; case 6: F(igs_op_many,IGS_OP_MANY)(&h,u,u,u,u,u,u,K+1,&dom,K+1,K,&w); break; case 7: F(gs_free,GS_FREE)(&h); break;
    case 8: F(gs_op,GS_OP)(&h,u,K+0,K+1,K); break; case 9: F(gs_op,GS_OP)(&h,u,K+4,K+1,K); break; case 10: F(gs_op,GS_OP)(&h,u,&dom,K+0,K); break; case 11: F(gs_op,GS_OP)(&h,u,&dom,K+5,K); break; }
  if(kind==1){ sint one=1,z=0; slong l[2]; double d[2]; switch(call){ case 0: F(crystal_ituple_transfer,CRYSTAL_ITUPLE_TRANSFER)(&h,u,K+2,&z,K+3,K+1); break; case 1: F(crystal_tuple_transfer,CRYSTAL_TUPLE_TRANSFER)(&h,&z,K+3,u,K+2,l,K+1,d,K+1,K+1); break; case 2: F(crystal_ituple_sort,CRYSTAL_ITUPLE_SORT)(&h,u,K+2,&one,K+1,K+1); break; case 3: F(crystal_tuple_sort,CRYSTAL_TUPLE_SORT)(&h,&one,u,K+2,l,K+1,d,K+1,K+1,K+1); break; default: F(crystal_free,CRYSTAL_FREE)(&h); } }
  if(kind==2){ sint c=2,p=0,e=0; double r[3]={0},d=0,x=0,f[8]={0}; uint sb=0; switch(call){ case 0: F(findpts,FINDPTS)(&h,&c,K+1,&p,K+1,&e,K+1,r,K+3,&d,K+1,&x,K+1,&x,K+1,&x,K+1,K+1); break; case 1: F(findpts_eval,FINDPTS_EVAL)(&h,&d,K+1,&c,K+1,&p,K+1,&e,K+1,r,K+3,K+1,f); break; case 2: F(findpts_eval_local,FINDPTS_EVAL_LOCAL)(&h,&d,K+1,&e,K+1,r,K+3,K+1,f); break; case 3: F(findpts_free,FINDPTS_FREE)(&h); break;
    case 4: F(findptsms,FINDPTSMS)(&h,&c,K+1,&p,K+1,&e,K+1,r,K+3,&d,K+1,&x,K+1,&x,K+1,&x,K+1,&sb,(const uint*)K+1,&sb,K+1); break; case 5: F(findptsms_eval,FINDPTSMS_EVAL)(&h,&d,K+1,&c,K+1,&p,K+1,&e,K+1,r,K+3,K+1,f); break; case 6: F(findptsms_eval_local,FINDPTSMS_EVAL_LOCAL)(&h,&d,K+1,&e,K+1,r,K+3,K+1,f); break; default: F(findptsms_free,FINDPTSMS_FREE)(&h); } } }
static void rank(int id,void *arg){ struct sh *s=arg; int i,k,live[MAXO]={0};
  for(i=0;i<s->ns;i++){ int o=s->st[i].o;
    switch(s->st[i].what){
    case 0: H[o]=-77; setup(s,id,o,0); live[o]=1; sym_assert(H[o]>=0,"negative handle"); for(k=0;k<MAXO;k++) if(k!=o&&live[k]&&s->ob[k].kind==s->ob[o].kind) sym_assert(H[k]!=H[o],"one handle for two live objects"); break;
    case 1: release(s,o); live[o]=0; H[o]=H[o]<0?MAXO:H[o]; break;
    case 2: use(s,id,o); break;
    case 3: sym_allow_exit(1); wrong(s,id,s->ob[o].kind,H[o],s->st[i].call); sym_assert(0,s->st[i].call>=8?"impossible type or operation accepted":"stale handle accepted"); break;
    case 4: sym_allow_exit(1); wrong(s,id,s->st[i].o,s->st[i].call&1?-1:50,s->st[i].call/2); sym_assert(0,"impossible handle accepted"); break;
    case 5: sym_allow_exit(1); setup(s,id,o,s->st[i].call); sym_assert(0,"set-up with an impossible process count or dimension accepted"); break; } }
  for(k=0;k<MAXO;k++) if(live[k]) use(s,id,k);
  for(k=0;k<MAXO;k++) if(live[k]) release(s,k);
  sym_assert(sym_live_comms()==0,"communicator left after all handles were freed"); sym_assert(sym_live_reqs()==0,"request left incomplete");
  sym_assert(sym_live_allocs()<=sym_param("perm",5),"memory left after all handles were freed"); }
void harness_main(void){ struct sh *s=sym_shared(sizeof *s); int i,k,p,kinds=sym_param("kinds",1),pre=sym_param("pre",0),steps=sym_param("ops",3),mis=sym_param("misuse",0),cnt[3]={0},dead[MAXO]={0},kl[3],nk=0;
  s->np=sym_param("np",1); for(k=0;k<3;k++) if(kinds>>k&1) kl[nk++]=k;
  for(p=0;p<s->np;p++) for(i=0;i<3;i++) s->v[p][i]=sym_i32("v"); s->t=sym_real_range("t",.1,.9); if(kinds&4) sym_expand(1);
  for(i=0;i<pre+steps;i++){ int c,n=0,opt[40][3],first; struct obj*b; /* what, object, call */
    if(s->no<MAXO) for(k=0;k<nk;k++){ opt[n][0]=0; opt[n][1]=kl[k]; n++; }
    if(i>=pre) for(k=0;k<s->no;k++) if(s->ob[k].live){ opt[n][0]=1; opt[n][1]=k; n++; opt[n][0]=2; opt[n][1]=k; n++; }
    if(mis&&i==pre+steps-1){ opt[n][0]=3; n++; opt[n][0]=4; n++; opt[n][0]=5; n++; }
    c=i<pre?i%nk:sym_choice("op",n); s->st[i].what=opt[c][0]; s->st[i].o=opt[c][1]; first=opt[c][0];
    if(first==0){ b=&s->ob[s->no]; b->kind=opt[c][1]; b->ord=cnt[b->kind]++; b->live=1; s->st[i].o=s->no++; }
    if(first==1) s->ob[opt[c][1]].live=0, dead[opt[c][1]]=1;
    if(first==3){ int o=s->no?sym_choice("stale",s->no):-1; sym_assume(o>=0); b=&s->ob[o]; s->st[i].o=o;
      if(dead[o]){ s->st[i].call=sym_choice("call",8); } else { sym_assume(b->kind==0); s->st[i].call=8+sym_choice("parm",4); } }
    if(first==4){ s->st[i].o=kl[sym_choice("kind",nk)]; s->st[i].call=sym_choice("call",16); }
    if(first==5){ sym_assume(s->no<MAXO); b=&s->ob[s->no]; b->kind=kl[sym_choice("kind",nk)]; b->ord=cnt[b->kind]++; b->live=0; s->st[i].o=s->no++; s->st[i].call=1+(b->kind==2?sym_choice("bad",3):0); }
    s->ns++; if(first>=3) break; }
  sym_run_ranks(s->np,rank,s);
  sym_require_cover("end"); sym_cover("end"); if(mis) sym_require_cover("exit"); }
