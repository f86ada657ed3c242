/* Gather-scatter against the set-based definition in gs.h.
   params: np, n (entries per rank), nvar (1: each rank picks 0..n), K (labels 1..K), neg (1: negative labels allowed), zero (1: label 0 allowed)
           method 0 auto 1 pairwise 2 crystal 3 allreduce; dom, op; tr; uniq (unique flag of gs_setup)
           mode 0 plain 1 vec 2 many; vn; nb 0 blocking 1 nonblocking; nops operations, handles (1: one, 2: one per op), nullbuf
           lab 0: labels are small numbers 1: large 64-bit numbers; data: magnitude for products; rpt: repeat the operation on the result
           share: 1 = rank 0 entry 0 label 1 on all ranks (forces sharing) */
#include "common.h"
#define MAXP 8
#define MAXN 4
#define MAXV 3
#define MAXO 2
typedef union { double d; float f; int i; long l; long long ll; } val;
struct sh { int np,K,tr,uniq,mode,vn,nb,nops,handles,method,dom,op,nullbuf,order,lab,tst,rpt; int n[MAXP],cid[MAXP][MAXN]; slong id[MAXP][MAXN]; val v[MAXO][MAXP][MAXN][MAXV],out[MAXO][MAXP][MAXN][MAXV]; };
static const size_t dsz[]={sizeof(double),sizeof(float),sizeof(int),sizeof(long),sizeof(long long)};
static const gs_dom gdom[]={gs_double,gs_float,gs_int,gs_long,gs_long_long};
#define ALLDOM(X) switch(s->dom){ case 0: X(double,d); break; case 1: X(float,f); break; case 2: X(int,i); break; case 3: X(long,l); break; case 4: X(long long,ll); break; }
static unsigned bpr1(unsigned a,unsigned b){ if(!b) return a; if(!a) return b; while(a!=b){ if(a<b) b>>=1; else a>>=1; } return a; }
static void acc(struct sh *s,val *a,const val *b){
#define X(T,m) switch(s->op){ case 0: a->m+=b->m; break; case 1: a->m*=b->m; break; case 2: a->m=b->m<a->m?b->m:a->m; break; case 3: a->m=b->m>a->m?b->m:a->m; break; default: a->m=bpr1(a->m,b->m); }
 ALLDOM(X)
#undef X
}
static int same(struct sh *s,const val *a,const val *b){
  switch(s->dom){ case 0: return a->d==b->d; case 1: return a->f==b->f; case 2: return a->i==b->i; case 3: return a->l==b->l; } return a->ll==b->ll; }
static void ident(struct sh *s,val *a){
  switch(s->dom){ case 0: a->d=s->op==1?1:s->op==2?DBL_MAX:s->op==3?-DBL_MAX:0; break; case 1: a->f=s->op==1?1:s->op==2?FLT_MAX:s->op==3?-FLT_MAX:0; break;
    case 2: a->i=s->op==1?1:s->op==2?INT_MAX:s->op==3?INT_MIN:0; break; case 3: a->l=s->op==1?1:s->op==2?LONG_MAX:s->op==3?LONG_MIN:0; break; default: a->ll=s->op==1?1:s->op==2?LLONG_MAX:s->op==3?LLONG_MIN:0; } }
static void *addr(struct sh *s,int mode,void *u,int i,int k){ size_t z=dsz[s->dom]; return mode==2?(char*)((void**)u)[k]+i*z:(char*)u+((size_t)i*s->vn+k)*z; }
static void put(struct sh *s,void *p,const val *v){
#define X(T,m) *(T*)p=v->m
 ALLDOM(X)
#undef X
}
static void get(struct sh *s,val *v,const void *p){
#define X(T,m) v->m=*(const T*)p
 ALLDOM(X)
#undef X
}
static void rank_main(int id,void *arg){
  struct sh *s=arg; struct comm c; int o,i,k,n=s->n[id],vn=s->vn; slong *ids=malloc(n*sizeof(slong)+1);
  struct gs_data *g[MAXO]; void *u[MAXO]; buffer b[MAXO]; int h[MAXO]; int mode=s->mode;
  comm_init(&c,MPI_COMM_WORLD);
  for(i=0;i<n;i++) ids[i]=s->id[id][i];
  for(o=0;o<s->handles;o++) g[o]=gs_setup(ids,n,&c,s->uniq,o?1+s->method%3:s->method,0);
  for(i=0;i<n;i++) sym_assert(ids[i]==s->id[id][i],"gs_setup: id array modified");
  free(ids);
  for(o=0;o<s->nops;o++){ buffer_init(&b[o],0);
    if(mode==2){ u[o]=malloc(vn*sizeof(void*)+1); for(k=0;k<vn;k++) ((void**)u[o])[k]=malloc(n*dsz[s->dom]+1); } else u[o]=malloc(n*vn*dsz[s->dom]+1);
    for(i=0;i<n;i++) for(k=0;k<vn;k++) put(s,addr(s,mode,u[o],i,k),&s->v[o][id][i][k]); }
  for(o=0;o<s->nops;o++){ struct gs_data *q=g[s->handles>1?o:0]; buffer *bb=s->nullbuf?0:&b[o]; gs_dom d=gdom[s->dom]; int r;
    for(r=0;r<=s->rpt;r++){
      if(!s->nb) switch(mode){ case 0: gs(u[o],d,s->op,s->tr,q,bb); break; case 1: gs_vec(u[o],vn,d,s->op,s->tr,q,bb); break; case 2: gs_many((void*const*)u[o],vn,d,s->op,s->tr,q,bb); break; }
      else { switch(mode){ case 0: igs(u[o],d,s->op,s->tr,q,bb,&h[o]); break; case 1: igs_vec(u[o],vn,d,s->op,s->tr,q,bb,&h[o]); break; case 2: igs_many((void*const*)u[o],vn,d,s->op,s->tr,q,bb,&h[o]); break; }
        if(s->rpt>r) gs_wait(h[o]); } } }
  if(s->nb){ if(s->nops==1) gs_wait(h[0]); else { gs_wait(h[s->order]); gs_wait(h[1-s->order]); } }
  for(o=0;o<s->nops;o++){
    for(i=0;i<n;i++) for(k=0;k<vn;k++) get(s,&s->out[o][id][i][k],addr(s,mode,u[o],i,k));
    if(mode==2) for(k=0;k<vn;k++) free(((void**)u[o])[k]);
    free(u[o]); buffer_free(&b[o]); }
  for(o=0;o<s->handles;o++) gs_free(g[o]);
  comm_free(&c);
  sym_assert(sym_live_comms()==0,"communicator leaked"); sym_assert(sym_live_reqs()==0,"request left incomplete"); sym_assert(sym_live_allocs()<=(s->nullbuf!=0),"memory leaked");
}
void harness_main(void){
  struct sh *s=sym_shared(sizeof *s); int p,i,q,k,o,np=sym_param("np",2),n=sym_param("n",2),neg=sym_param("neg",0),zero=sym_param("zero",1),R=sym_param("data",9);
  s->np=np; s->K=sym_param("K",2); s->method=sym_param("method",1); s->dom=sym_param("dom",0); s->op=sym_param("op",0); s->tr=sym_param("tr",0); s->uniq=sym_param("uniq",0);
  s->mode=sym_param("mode",0); s->vn=s->mode?sym_param("vn",2):1; s->nb=sym_param("nb",0); s->nops=sym_param("nops",1); s->handles=sym_param("handles",1); s->nullbuf=sym_param("nullbuf",0); s->lab=sym_param("lab",0); s->rpt=sym_param("rpt",0);
  s->order=s->nops>1?sym_choice("order",2):0;
  static const slong big[]={0,0x7000000000000003ll,0x100000000ll,0x7fffffffffffffffll,0x00ff00000000ff01ll,5};
  int share=sym_param("share",0);
  for(p=0;p<np;p++){ s->n[p]=sym_param("nvar",0)?sym_choice("n",n+1):n;
    for(i=0;i<s->n[p];i++){ int c;
      if(share==1&&i==0) c=neg?(sym_choice("sgn",2)?-1:1):1;
      else if(share==2) c=(p+i)%s->K+1; 
      else c=neg?sym_choice("id",2*s->K+zero)-s->K:sym_choice("id",s->K+zero)+!zero;
      if(neg&&!zero&&c>=0) c++;
      s->cid[p][i]=c; s->id[p][i]=s->lab?(c<0?-big[-c]:big[c]):c;
      for(o=0;o<s->nops;o++) for(k=0;k<s->vn;k++){ val *v=&s->v[o][p][i][k];
        if(s->op==4){ int t=sym_concretize(sym_range("v",0,R)); switch(s->dom){ case 0: v->d=t; break; case 1: v->f=t; break; case 2: v->i=t; break; case 3: v->l=t; break; default: v->ll=t; } }
        else switch(s->dom){ case 0: v->d=s->op==1?sym_intreal("v",-R,R):sym_real_range("v",-1e100,1e100); break; case 1: v->f=(float)sym_intreal("v",-9,9); break; case 2: v->i=sym_i32("v"); break; case 3: v->l=sym_i64("v"); break; default: v->ll=sym_i64("v"); } } } }
  sym_run_ranks(np,rank_main,s);
  /* flags as gs.h defines them; with the unique flag, exactly one member of each group stays unflagged, in an arbitrary way */
  for(o=0;o<s->nops;o++) for(p=0;p<np;p++) for(i=0;i<s->n[p];i++){
    int c=s->cid[p][i],a=c<0?-c:c;
    for(k=0;k<s->vn;k++){ val *x=&s->out[o][p][i][k],e;
      if(a==0){ sym_assert(same(s,x,&s->v[o][p][i][k]),"gs: entry with id 0 modified"); continue; }
      ident(s,&e);
      if(s->uniq){
        int j,any=0,cnt=0,unf=0;
        for(q=0;q<np;q++) for(j=0;j<s->n[q];j++) if(abs(s->cid[q][j])==a) cnt++;
        if(s->tr){ /* the sole unflagged member gets the sum: checked below over the group */ 
          for(q=0;q<np;q++) for(j=0;j<s->n[q];j++) if(abs(s->cid[q][j])==a) acc(s,&e,&s->v[o][q][j][k]);
          for(q=0;q<np;q++) for(j=0;j<s->n[q];j++) if(abs(s->cid[q][j])==a) { int r1=!!same(s,&s->out[o][q][j][k],&e); any|=r1; sym_assert(r1|!!same(s,&s->out[o][q][j][k],&s->v[o][q][j][k]),"gs: unique handle, transpose: entry is neither the sum nor its own value"); }
          sym_assert(any,"gs: unique handle, transpose: no member of the group received the sum");
        } else {
          for(q=0;q<np;q++) for(j=0;j<s->n[q];j++) if(abs(s->cid[q][j])==a) any|=!!same(s,x,&s->v[o][q][j][k]);
          sym_assert(any,"gs: unique handle: result is not the value of one member");
          for(q=0;q<np;q++) for(j=0;j<s->n[q];j++) if(abs(s->cid[q][j])==a) sym_assert(same(s,x,&s->out[o][q][j][k]),"gs: unique handle: members of a group disagree");
        }
        (void)cnt; (void)unf; continue; }
      if(s->tr==0||c>0){ int j;
        for(q=0;q<np;q++) for(j=0;j<s->n[q];j++){ int cq=s->cid[q][j]; if(abs(cq)==a&&(s->tr||cq>0)) acc(s,&e,&s->v[o][q][j][k]); }
        if(s->rpt&&s->op==0){ int r,m; for(r=0;r<s->rpt;r++){ val t=e; ident(s,&e); for(m=0,q=0;q<np;q++) for(j=0;j<s->n[q];j++) if(abs(s->cid[q][j])==a) m++; for(;m;m--) acc(s,&e,&t); } }
        sym_assert(same(s,x,&e),s->tr?"gs: transpose: unflagged entry is not the reduction over the whole group":c<0?"gs: flagged entry is not the reduction over the unflagged members":"gs: entry is not the reduction over its group");
      } else {
        /* flagged and transpose: must keep its value */
        int j,loc=0,un=0; for(j=0;j<s->n[p];j++){ if(s->cid[p][j]==c) loc++; if(s->cid[p][j]==-c) un++; }
        sym_assert(same(s,x,&s->v[o][p][i][k]),loc>1&&!un?"gs: transpose: flagged entry modified (several flagged, none unflagged on the process)":"gs: transpose: flagged entry modified");
      }
      if(s->dom<2) sym_observe_f("o",s->dom?x->f:x->d);
    } }
  sym_require_cover("end"); sym_cover("end");
}
