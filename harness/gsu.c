/* Topology discovery and gs_unique with arbitrary labels.
   params: np, n, mode 0 gs_unique 1 gs_setup with symbolic labels + int add 2 gs_unique vs unique flag; K>0: labels chosen from -K..K instead of arbitrary; neg; method
           bits,sh,low: labels (x<<sh)+low with x of the given number of bits */
#include "common.h"
#define MAXP 8
#define MAXN 5
struct sh { int np,mode,method,K,tr,bits; int n[MAXP]; slong id[MAXP][MAXN],out[MAXP][MAXN]; int v[MAXP][MAXN],r[MAXP][MAXN],r2[MAXP][MAXN]; };
static void rank_main(int id,void *arg){
  struct sh *s=arg; struct comm c; int i,n=s->n[id]; slong *q=malloc(n*sizeof(slong)+1); comm_init(&c,MPI_COMM_WORLD); buffer b; buffer_init(&b,0);
  for(i=0;i<n;i++) q[i]=s->id[id][i];
  if(s->mode!=1){ gs_unique(q,n,&c); for(i=0;i<n;i++) s->out[id][i]=q[i]; }
  if(s->mode){ int *v=malloc(n*sizeof(int)+1); struct gs_data *g; slong *o=malloc(n*sizeof(slong)+1); for(i=0;i<n;i++) o[i]=s->id[id][i];
    g=gs_setup(o,n,&c,s->mode==2,s->method,0); for(i=0;i<n;i++) sym_assert(o[i]==s->id[id][i],"gs_setup: id array modified");
    for(i=0;i<n;i++) v[i]=s->v[id][i];
    gs(v,gs_int,gs_add,s->tr,g,&b); for(i=0;i<n;i++) s->r[id][i]=v[i]; gs_free(g);
    if(s->mode==2){ g=gs_setup(q,n,&c,0,s->method,0); for(i=0;i<n;i++) v[i]=s->v[id][i]; gs(v,gs_int,gs_add,s->tr,g,&b); for(i=0;i<n;i++) s->r2[id][i]=v[i]; gs_free(g); }
    free(v); free(o); }
  free(q); buffer_free(&b); comm_free(&c);
  sym_assert(sym_live_comms()==0,"communicator leaked"); sym_assert(sym_live_allocs()==0,"memory leaked");
}
#define EQA(a,b) SYM_OR((a)==(b),(a)==-(b))
void harness_main(void){
  struct sh *s=sym_shared(sizeof *s); int p,i,q,j,np=sym_param("np",2),n=sym_param("n",1),neg=sym_param("neg",0);
  s->np=np; s->mode=sym_param("mode",0); s->method=sym_param("method",1); s->K=sym_param("K",0); s->tr=sym_param("tr",0);
  for(p=0;p<np;p++){ s->n[p]=sym_param("nvar",0)?sym_choice("n",n+1):n; for(i=0;i<s->n[p];i++){
    if(s->K) s->id[p][i]=neg?sym_choice("id",2*s->K+1)-s->K:1+sym_choice("id",s->K);
    else if(sym_param("bits",0)){ slong x=(sym_range64("id",0,(1ll<<sym_param("bits",0))-1)<<sym_param("sh",0))+sym_param("low",0); if(neg&&sym_choice("sgn",2)) x=-x; s->id[p][i]=x; }
    else { slong x=sizeof(slong)==4?sym_i32("id"):sym_i64("id"); sym_assume(neg?x!=(slong)(sizeof(slong)==4?INT_MIN:LLONG_MIN):x>=0); s->id[p][i]=x; }
    s->v[p][i]=s->mode==2?1<<(p*n+i):sym_i32("v"); } }
  sym_run_ranks(np,rank_main,s);
  for(p=0;p<np;p++) for(i=0;i<s->n[p];i++){ slong c=s->id[p][i],o=s->out[p][i];
    if(s->mode!=1){
      sym_assert(SYM_OR(o==c,o==-c),"gs_unique: label changed other than in sign");
      int un=0,in=0; for(q=0;q<np;q++) for(j=0;j<s->n[q];j++){ slong d=s->id[q][j]; int e=EQA(d,c); un+=SYM_AND(e,s->out[q][j]>0); in|=SYM_AND(e,d>0); }
      sym_assert(SYM_IMP(c!=0,un==in),"gs_unique: not exactly one unflagged member per group");
      sym_assert(SYM_IMP(c<0,o<0),"gs_unique: flagged entry became unflagged");
    }
    if(s->mode==2) sym_assert(s->r[p][i]==s->r2[p][i],"gs_setup with the unique flag differs from gs_unique followed by gs_setup");
    if(s->mode==1){ int e=0; for(q=0;q<np;q++) for(j=0;j<s->n[q];j++){ slong d=s->id[q][j]; if(sym_concretize(SYM_AND(EQA(d,c),s->tr?1:d>0))) e=(int)((unsigned)e+(unsigned)s->v[q][j]); }
      if(sym_concretize(SYM_OR(c==0,SYM_AND(s->tr,c<0)))) e=s->v[p][i]; sym_assert(s->r[p][i]==e,"gs: entry is not the reduction over its group"); }
    sym_observe_i("o",s->mode==1?0:o);
  }
  sym_require_cover("end"); sym_cover("end");
}
