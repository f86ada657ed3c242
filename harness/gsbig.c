/* Gather-scatter with many labels, unevenly spread over the processes: values at chosen entries are symbolic, the labels are fixed.
   params: np, n (entries of most processes), few (entries of process "who"), method 0..3, mode 0 plain 1 vec 2 many 3 nonblocking, vn, tr, pat (labels: 0 all shared, 1 chain of neighbours, 2 each process its own part and a common one, 3 flagged copies, 4 all shared and handled by the same process), ownbuf */
#include "common.h"
#define MAXP 8
#define MAXE 3000
#define MAXV 3
struct sh { int np,n[MAXP],method,mode,vn,tr,ownbuf; int id[MAXP][MAXE]; double v[MAXP][MAXE][MAXV],out[MAXP][MAXE][MAXV]; };
static void rank(int id,void *arg){ struct sh *s=arg; struct comm c; struct gs_data *g; buffer b; int i,k,h,n=s->n[id],vn=s->vn; slong *ids=malloc(n*sizeof(slong)+1); double *u=malloc(n*vn*sizeof(double)+1),*p[MAXV];
  comm_init(&c,MPI_COMM_WORLD); for(i=0;i<n;i++) ids[i]=s->id[id][i]; g=gs_setup(ids,n,&c,0,s->method,0); free(ids); buffer_init(&b,0);
  for(i=0;i<n;i++) for(k=0;k<vn;k++) u[s->mode==2?k*n+i:i*vn+k]=s->v[id][i][k]; for(k=0;k<vn;k++) p[k]=u+k*n;
  switch(s->mode){ case 0: gs(u,gs_double,gs_add,s->tr,g,s->ownbuf?&b:0); break; case 1: gs_vec(u,vn,gs_double,gs_add,s->tr,g,s->ownbuf?&b:0); break; case 2: gs_many((void*const*)p,vn,gs_double,gs_add,s->tr,g,s->ownbuf?&b:0); break; default: igs_vec(u,vn,gs_double,gs_add,s->tr,g,s->ownbuf?&b:0,&h); gs_wait(h); }
  for(i=0;i<n;i++) for(k=0;k<vn;k++) s->out[id][i][k]=u[s->mode==2?k*n+i:i*vn+k];
  free(u); buffer_free(&b); gs_free(g); comm_free(&c); sym_assert(sym_live_comms()==0,"communicator leaked"); sym_assert(sym_live_allocs()<=(s->ownbuf==0),"memory leaked"); }
static double sum[MAXP*MAXE+8][MAXV],one; static int fl[MAXP*MAXE+8];
void harness_main(void){ struct sh *s=sym_shared(sizeof *s); int p,i,k,np=sym_param("np",2),n=sym_param("n",300),few=sym_param("few",n),who=sym_param("who",np-1),pat=sym_param("pat",0),st=sym_param("stride",97);
  s->np=np; s->method=sym_param("method",1); s->mode=sym_param("mode",0); s->vn=s->mode?sym_param("vn",2):1; s->tr=sym_param("tr",0); s->ownbuf=sym_param("ownbuf",0);
  for(p=0;p<np;p++){ s->n[p]=p==who?few:n;
    for(i=0;i<s->n[p];i++){ int l=pat==0?i+1:pat==1?p*(n/2)+i+1:pat==4?np*(i+1)+(who+1)%np:pat==2?(i%3==0?i/3+1:p*MAXE+MAXE/3+i+1):(i%2?i+1:i/2+1); if(p==who&&few<n&&pat%4==0) l=np*MAXE-np*i-(pat?np-(who+1)%np:0); if(pat==3&&(i%5==p)) l=-l; if(i%41==40) l=0; s->id[p][i]=l;
      for(k=0;k<s->vn;k++) s->v[p][i][k]= i%st==0||i==s->n[p]-1 ? sym_intreal("v",-1000,1000) : (i*3+p*5+k)%17-8; } }
  sym_run_ranks(np,rank,s);
  for(p=0;p<np;p++) for(i=0;i<s->n[p];i++){ int l=s->id[p][i],a=abs(l); if(l<0) fl[a]|=1; for(k=0;k<s->vn;k++) if(s->tr||l>=0) sum[a][k]+=s->v[p][i][k]; }
  for(p=0;p<np;p++) for(i=0;i<s->n[p];i++){ int l=s->id[p][i],a=abs(l); for(k=0;k<s->vn;k++){ double e=l==0?s->v[p][i][k]:s->tr&&l<0?s->v[p][i][k]:sum[a][k],x=s->out[p][i][k]; sym_assert_id(x==e,l==0?"gs: entry with id 0 modified":"gs: entry is not the reduction over its group",s->mode,0); if(i%st==0) sym_observe_f("o",x); } }
  sym_require_cover("end"); sym_cover("end"); }
