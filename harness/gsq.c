/* Histories of nonblocking gather-scatter operations: starts, waits in any order (each process its own), blocking operations in between and handles set up and freed on the way; every operation gives what it gives alone.
   params: np, n, ops (operations), handles, method, mode (shift), nullbuf, tr (shift), perm (1: each process its own order of waits), blk (1: a blocking operation may come at any point), life (1: the handles are freed and set up again in between), dom */
#include "common.h"
#define MAXP 5
#define MAXN 3
#define MAXO 5
#define VN 2
struct sh { int np,n,ops,hn,method,mode,nullbuf,tr,perm,blk,life,op; signed char sch[MAXP][2*MAXO+4]; int v[MAXO+1][MAXP][MAXN][VN],out[MAXO+1][MAXP][MAXN][VN]; };
static int label(struct sh *s,int g,int p,int i){ if(g==0) return i+1; if(g==1) return p==s->np-1&&i==0?-((p+i)%2+1):(p+i)%2+1; return i==0?1:0; }
static int vn_of(struct sh *s,int o){ return (o+s->mode)%3?VN:1; }
static int trn(struct sh *s,int o){ return (s->tr>>o)&1; }
static int han(struct sh *s,int o){ return o==s->ops?0:o%s->hn; }
static void rank(int id,void *arg){ struct sh *s=arg; struct comm c; struct gs_data *g[3]; buffer b[MAXO+1]; void *u[MAXO+1],*mp[MAXO+1][VN]; int h[MAXO],o,i,k,t,e,n=s->n,next=0; slong ids[MAXN]; const signed char *sc=s->sch[id];
  comm_init(&c,MPI_COMM_WORLD);
  for(e=0;e<s->hn;e++){ for(i=0;i<n;i++) ids[i]=label(s,e,id,i); g[e]=gs_setup(ids,n,&c,0,1+(s->method-1+e)%3,0); }
  for(o=0;o<=s->ops;o++){ int vn=vn_of(s,o),m=(o+s->mode)%3; buffer_init(&b[o],0); u[o]=malloc(n*vn*sizeof(int)+1);
    for(i=0;i<n;i++) for(k=0;k<vn;k++) ((int*)u[o])[m==2?k*n+i:i*vn+k]=s->v[o][id][i][k];
    for(k=0;k<vn;k++) mp[o][k]=(int*)u[o]+k*n; }
  for(t=0;sc[t]!=-1;t++){ int a=sc[t],m,vn,tr;
    if(a>=0&&a<MAXO){ gs_wait(h[a]); continue; }
    o=a==-2?next++:s->ops; m=(o+s->mode)%3; vn=vn_of(s,o); tr=trn(s,o);
    if(a==-3){ switch(m){ case 0: gs(u[o],gs_int,s->op,tr,g[0],s->nullbuf?0:&b[o]); break; case 1: gs_vec(u[o],vn,gs_int,s->op,tr,g[0],s->nullbuf?0:&b[o]); break; default: gs_many(mp[o],vn,gs_int,s->op,tr,g[0],s->nullbuf?0:&b[o]); } continue; }
    if(a==-4){ int z=s->hn-1; for(i=0;i<n;i++) ids[i]=label(s,z,id,i); gs_free(g[z]); g[z]=gs_setup(ids,n,&c,0,s->method,0); continue; }
    e=han(s,o);
    switch(m){ case 0: igs(u[o],gs_int,s->op,tr,g[e],s->nullbuf?0:&b[o],&h[o]); break; case 1: igs_vec(u[o],vn,gs_int,s->op,tr,g[e],s->nullbuf?0:&b[o],&h[o]); break; default: igs_many(mp[o],vn,gs_int,s->op,tr,g[e],s->nullbuf?0:&b[o],&h[o]); }
    for(i=0;i<o;i++){ int j,done=0; for(j=0;j<t;j++) done|=sc[j]==i; if(!done) sym_assert(h[i]!=h[o],"igs: two pending operations share a handle"); } }
  for(o=0;o<=s->ops;o++){ int vn=vn_of(s,o),m=(o+s->mode)%3; for(i=0;i<n;i++) for(k=0;k<vn;k++) s->out[o][id][i][k]=((int*)u[o])[m==2?k*n+i:i*vn+k]; free(u[o]); buffer_free(&b[o]); }
  for(e=0;e<s->hn;e++) gs_free(g[e]);
  comm_free(&c); sym_assert(sym_live_comms()==0,"communicator leaked"); sym_assert(sym_live_reqs()==0,"request left incomplete"); sym_assert(sym_live_allocs()<=(s->nullbuf!=0),"memory leaked"); }
static void plan(struct sh *s,int p){ signed char *sc=s->sch[p]; int st=0,pend[MAXO],np=0,t=0,bl=!s->blk,lf=!s->life,i,col=0;
  while(st<s->ops||np||!bl||!lf){ int c,k=0,opt[MAXO+4]; 
    int nx=0,m=0; /* the collective actions come in the same order on all processes */
    if(p&&!s->perm) { for(t=0;t<2*MAXO+4;t++) sc[t]=s->sch[0][t]; return; }
    if(p) for(i=0;s->sch[0][i]!=-1;i++) if(s->sch[0][i]<-1&&m++==col) nx=s->sch[0][i];
    if(st<s->ops&&(!p||nx==-2)) opt[k++]=-2; for(i=0;i<np;i++) opt[k++]=pend[i]; if(!bl&&(!p||nx==-3)) opt[k++]=-3; if(!lf&&(!p||nx==-4)){ int busy=0; for(i=0;i<np;i++) busy|=han(s,pend[i])==s->hn-1; if(!busy) opt[k++]=-4; }
    c=opt[k>1?sym_choice("step",k):0];
    sc[t++]=c; col+=c<-1;
    if(c==-2) pend[np++]=st++; else if(c==-3) bl=1; else if(c==-4) lf=1; else { for(i=0;i<np;i++) if(pend[i]==c){ for(;i<np-1;i++) pend[i]=pend[i+1]; } np--; } }
  sc[t]=-1; }
void harness_main(void){ struct sh *s=sym_shared(sizeof *s); int p,i,k,o,q,j; s->np=sym_param("np",2); s->n=sym_param("n",2); s->ops=sym_param("ops",3); s->hn=sym_param("handles",1); s->method=sym_param("method",1); s->mode=sym_param("mode",0); s->nullbuf=sym_param("nullbuf",0); s->tr=sym_param("tr",0); s->perm=sym_param("perm",0); s->blk=sym_param("blk",0); s->life=sym_param("life",0); s->op=sym_param("op",0);
  for(p=0;p<s->np;p++) plan(s,p);
  for(o=0;o<=s->ops;o++) for(p=0;p<s->np;p++) for(i=0;i<s->n;i++) for(k=0;k<VN;k++) s->v[o][p][i][k]=sym_i32("v");
  sym_run_ranks(s->np,rank,s);
  for(o=0;o<=s->ops;o++){ if(o==s->ops&&!s->blk) break; for(p=0;p<s->np;p++) for(i=0;i<s->n;i++) for(k=0;k<vn_of(s,o);k++){ int g=han(s,o),c=label(s,g,p,i),a=abs(c),tr=trn(s,o),first=1,e=0,x=s->out[o][p][i][k];
    if(a==0||(tr&&c<0)){ sym_assert(x==s->v[o][p][i][k],"entry that must keep its value modified"); continue; }
    for(q=0;q<s->np;q++) for(j=0;j<s->n;j++){ int cq=label(s,g,q,j),v=s->v[o][q][j][k]; if(abs(cq)==a&&(tr||cq>0)){ if(s->op==0) e+=v; else e=first?v:sym_ite32(v>e,v,e); first=0; } }
    if(first) continue;
    sym_assert(x==e,"operation in flight with others: not the reduction over its group"); sym_observe_i("o",x); } }
  sym_require_cover("end"); sym_cover("end"); }
