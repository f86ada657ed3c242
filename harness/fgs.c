/* Fortran gather-scatter interface against the definition in gs.h.
   params: np, n, K, neg, method; dom 1 double 2 int 3 long long; op 1..4; tr; call 0 gs_op 1 gs_op_vec 2 gs_op_many 3 gs_op_fields 4 igs_op 5 igs_op_vec 6 igs_op_many 7 gs_unique
   vn; stride (fields); two: two handles in flight/alive at once */
#include "common.h"
#define MAXP 4
#define MAXN 4
#define MAXV 6
#undef gs_op
#undef gs_free
#undef gs_unique
#undef gs_setup
#undef gs
#define F(l,U) GS_FORTRAN_NAME(l,U)
void F(gs_setup_pick,GS_SETUP_PICK)(sint*,const slong*,const sint*,const MPI_Fint*,const sint*,const sint*);
void F(gs_setup,GS_SETUP)(sint*,const slong*,const sint*,const MPI_Fint*,const sint*);
void F(gs_op,GS_OP)(const sint*,void*,const sint*,const sint*,const sint*);
void F(gs_op_vec,GS_OP_VEC)(const sint*,void*,const sint*,const sint*,const sint*,const sint*);
void F(gs_op_many,GS_OP_MANY)(const sint*,void*,void*,void*,void*,void*,void*,const sint*,const sint*,const sint*,const sint*);
void F(gs_op_fields,GS_OP_FIELDS)(const sint*,void*,const sint*,const sint*,const sint*,const sint*,const sint*);
void F(igs_op,IGS_OP)(const sint*,void*,const sint*,const sint*,const sint*,int*);
void F(igs_op_vec,IGS_OP_VEC)(const sint*,void*,const sint*,const sint*,const sint*,const sint*,int*);
void F(igs_op_many,IGS_OP_MANY)(const sint*,void*,void*,void*,void*,void*,void*,const sint*,const sint*,const sint*,const sint*,int*);
void F(gs_op_wait,GS_OP_WAIT)(int*);
void F(gs_free,GS_FREE)(const sint*);
void F(gs_unique,GS_UNIQUE)(slong*,const sint*,const MPI_Fint*,const sint*);
typedef union { double d; int i; slong l; } val;
struct sh { int np,n,method,dom,op,tr,call,vn,stride,two,order; slong id[2][MAXP][MAXN]; val v[2][MAXP][MAXN][MAXV],out[2][MAXP][MAXN][MAXV]; };
static const size_t dsz[]={0,sizeof(double),sizeof(sint),sizeof(slong)};
static void put(struct sh *s,void *p,const val *v){ if(s->dom==1) *(double*)p=v->d; else if(s->dom==2) *(sint*)p=v->i; else *(slong*)p=v->l; }
static void get(struct sh *s,val *v,void *p){ if(s->dom==1) v->d=*(double*)p; else if(s->dom==2) v->i=*(sint*)p; else v->l=*(slong*)p; }
static int same(struct sh *s,const val *a,const val *b){ return s->dom==1?a->d==b->d:s->dom==2?a->i==b->i:a->l==b->l; }
static void ident(struct sh *s,val *a){ if(s->dom==1) a->d=s->op==2?1:s->op==3?DBL_MAX:s->op==4?-DBL_MAX:0; else if(s->dom==2) a->i=s->op==2?1:s->op==3?INT_MAX:s->op==4?INT_MIN:0; else a->l=s->op==2?1:s->op==3?LLONG_MAX:s->op==4?LLONG_MIN:0; }
static void acc(struct sh *s,val *a,const val *b){
#define X(m) switch(s->op){ case 1: a->m+=b->m; break; case 2: a->m*=b->m; break; case 3: a->m=b->m<a->m?b->m:a->m; break; default: a->m=b->m>a->m?b->m:a->m; }
  if(s->dom==1){ X(d) } else if(s->dom==2){ X(i) } else { X(l) } }
static char *at(struct sh *s,char *u,int i,int k){ size_t z=dsz[s->dom]; int c=s->call&3; return u+z*(c==1?(size_t)i*s->vn+k:(size_t)k*s->stride+i); }
static void rank_main(int id,void *arg){
  struct sh *s=arg; sint np=s->np,n=s->n,dom=s->dom,op=s->op,tr=s->tr,vn=s->vn,method=s->method,st=s->stride; MPI_Fint w=MPI_Comm_c2f(MPI_COMM_WORLD); sint h[2]; int wt[2],i,k,t,T=1+s->two; char *u[2],*ids;
  if(s->call==7){ slong *q=malloc(n*sizeof(slong)+1); for(i=0;i<n;i++) q[i]=s->id[0][id][i]; F(gs_unique,GS_UNIQUE)(q,&n,&w,&np); for(i=0;i<n;i++) s->out[0][id][i][0].l=q[i]; free(q);
    sym_assert(sym_live_comms()==0,"gs_unique: communicator leaked"); sym_assert(sym_live_allocs()==0,"gs_unique: memory leaked"); return; }
  for(t=0;t<T;t++){ slong *q=malloc(n*sizeof(slong)+1); for(i=0;i<n;i++) q[i]=s->id[t][id][i]; if(method<0) F(gs_setup,GS_SETUP)(&h[t],q,&n,&w,&np); else F(gs_setup_pick,GS_SETUP_PICK)(&h[t],q,&n,&w,&np,&method); free(q);
    u[t]=malloc(dsz[dom]*vn*(s->call%4==1?n:st)+1); for(i=0;i<n;i++) for(k=0;k<vn;k++) put(s,at(s,u[t],i,k),&s->v[t][id][i][k]); }
  sym_assert(T==1||h[0]!=h[1],"gs_setup: one handle given out twice");
  for(t=0;t<T;t++){ char *a[6]; for(k=0;k<6;k++) a[k]=k<vn?at(s,u[t],0,k):0;
    switch(s->call){
    case 0: F(gs_op,GS_OP)(&h[t],u[t],&dom,&op,&tr); break;
    case 1: F(gs_op_vec,GS_OP_VEC)(&h[t],u[t],&vn,&dom,&op,&tr); break;
    case 2: F(gs_op_many,GS_OP_MANY)(&h[t],a[0],a[1],a[2],a[3],a[4],a[5],&vn,&dom,&op,&tr); break;
    case 3: F(gs_op_fields,GS_OP_FIELDS)(&h[t],u[t],&st,&vn,&dom,&op,&tr); break;
    case 4: F(igs_op,IGS_OP)(&h[t],u[t],&dom,&op,&tr,&wt[t]); break;
    case 5: F(igs_op_vec,IGS_OP_VEC)(&h[t],u[t],&vn,&dom,&op,&tr,&wt[t]); break;
    case 6: F(igs_op_many,IGS_OP_MANY)(&h[t],a[0],a[1],a[2],a[3],a[4],a[5],&vn,&dom,&op,&tr,&wt[t]); break; } }
  if(s->call>=4) for(t=0;t<T;t++) F(gs_op_wait,GS_OP_WAIT)(&wt[T>1&&s->order?1-t:t]);
  for(t=0;t<T;t++) for(i=0;i<n;i++) for(k=0;k<vn;k++) get(s,&s->out[t][id][i][k],at(s,u[t],i,k));
  for(t=0;t<T;t++){ free(u[t]); F(gs_free,GS_FREE)(&h[t]); }
  sym_assert(sym_live_comms()==0,"communicator leaked"); sym_assert(sym_live_reqs()==0,"request left incomplete");
}
void harness_main(void){
  struct sh *s=sym_shared(sizeof *s); int p,i,q,j,k,t,np=sym_param("np",2),n=sym_param("n",2),K=sym_param("K",1),neg=sym_param("neg",0),R=sym_param("data",9);
  s->np=np; s->n=n; s->method=sym_param("method",1); s->dom=sym_param("dom",1); s->op=sym_param("op",1); s->tr=sym_param("tr",0); s->call=sym_param("call",0); s->vn=(s->call&3)&&s->call!=7?sym_param("vn",2):1; s->stride=sym_param("stride",n); s->two=sym_param("two",0);
  s->order=s->two?sym_choice("order",2):0;
  for(t=0;t<=s->two;t++) for(p=0;p<np;p++) for(i=0;i<n;i++){
    int c=t?(p+i)%2:neg?sym_choice("id",2*K+1)-K:sym_choice("id",K+1); s->id[t][p][i]=c*(slong)sym_param("mulid",1);
    for(k=0;k<s->vn;k++){ val *v=&s->v[t][p][i][k]; if(s->dom==1) v->d=s->op==2?sym_intreal("v",-R,R):sym_real_range("v",-1e100,1e100); else if(s->dom==2) v->i=sym_i32("v"); else v->l=sym_i64("v"); } }
  sym_run_ranks(np,rank_main,s);
  for(t=0;t<=s->two;t++) for(p=0;p<np;p++) for(i=0;i<n;i++){ slong c=s->id[t][p][i],a=c<0?-c:c;
    if(s->call==7){ int un=0,in=0; slong o=s->out[0][p][i][0].l; sym_assert(o==c||o==-c,"gs_unique: label changed other than in sign"); 
      for(q=0;q<np;q++) for(j=0;j<n;j++) if(s->id[0][q][j]==a||s->id[0][q][j]==-a){ un+=s->out[0][q][j][0].l>0; in+=s->id[0][q][j]>0; }
      if(a) sym_assert(un==(in>0),"gs_unique: not exactly one unflagged member"); continue; }
    for(k=0;k<s->vn;k++){ val *x=&s->out[t][p][i][k],e; ident(s,&e);
      if(!a||(s->tr&&c<0)){ int loc=0,un=0; for(j=0;j<n;j++){ if(s->id[t][p][j]==c) loc++; if(s->id[t][p][j]==-c) un++; }
        sym_assert(same(s,x,&s->v[t][p][i][k]),!a?"gs: entry with id 0 modified":loc>1&&!un?"gs: transpose: flagged entry modified (several flagged, none unflagged on the process)":"gs: transpose: flagged entry modified"); continue; }
      for(q=0;q<np;q++) for(j=0;j<n;j++){ slong d=s->id[t][q][j]; if(d==a||(s->tr&&d==-a)) acc(s,&e,&s->v[t][q][j][k]); }
      sym_assert(same(s,x,&e),"gs: Fortran entry point: not the reduction over the group"); } }
  sym_require_cover("end"); sym_cover("end");
}
