/* Evaluation of a field at located points (findpts_eval): every point gets the interpolant of the element it names, at its own index, whatever the process; repeated and interleaved evaluations do not affect each other. */
#include "common.h"
#define MAXP 6
static int D,n[3],np,nt;
static int nelOf(int q){ int z=sym_param("empty",-1); return q==z?0:1+(q+1)%sym_param("nelm",2); }
static const double RT[]={0,.5,-.25,1,-1,.75,-.5,.125};
struct sh { double fld[2][8][3*27]; double rs[3]; int ce,cp,ck; double out[6][8][MAXP]; };
struct pt { double out; uint proc; int pad; uint code; double r[3]; uint el; uint pad2; };
/* the query of rank q, point k in set s */
static void query(struct sh*S,int s,int q,int k,struct pt*p){ unsigned h=q*7919u+k*104729u+s*15485863u+29; int d; for(d=0;d<3;d++){ h=h*1664525u+1013904223u; p->r[d]=RT[(h>>16)%8]; }
  h=h*1664525u+1013904223u; p->proc=(h>>16)%np; h=h*1664525u+1013904223u; while(!nelOf(p->proc)) p->proc=(p->proc+1)%np; p->el=(h>>16)%nelOf(p->proc); h=h*1664525u+1013904223u; p->code=(h>>16)%5>3?2:(h>>16)%2;
  if(q==S->cp%np&&k==S->ck&&s==0){ int e=S->ce,o; for(o=0;e>=nelOf(o);o++) e-=nelOf(o); p->proc=o; p->el=e; p->code=0; for(d=0;d<3;d++) p->r[d]=S->rs[d]; } }
static int nptOf(int s,int q){ int m=sym_param("npt",2)+(q+s)%3-1; return m<0?0:m>MAXP?MAXP:m; }
static double lagr(const double *z,int m,int i,double x){ double v=1; int j; for(j=0;j<m;j++) if(j!=i) v*=(x-z[j])/(z[i]-z[j]); return v; }
static void cfg(void){ D=sym_param("dim",2); np=sym_param("np",2); n[0]=sym_param("nr",2); n[1]=sym_param("ns",2); n[2]=sym_param("nt",2); nt=n[0]*n[1]*(D==3?n[2]:1); }
/* history of (set, field) pairs */
static const int HIST[][6]={ {0,-1},{0,1,-1},{0,2,1,3,-1},{0,2,0,-1},{2,0,3,1,-1},{4,0,4,1,-1} }; /* code: set*2+field; set 2 is empty on all but one rank */
static void rank(int id,void *arg){ struct sh*S=arg; struct comm w; const int *H; int h,d,e,i,j,k,l,ne; double *el[3],z[3][16]; const double *ce[3]; unsigned nn[3],mm[3]; struct findpts_data_2 *f2=0; struct findpts_data_3 *f3=0; double tol=.125;
  cfg(); H=HIST[sym_param("hist",0)]; ne=nelOf(id);
  comm_init(&w,MPI_COMM_WORLD);
  for(d=0;d<3;d++){ el[d]=malloc(sizeof(double)*(nt*ne+1)); ce[d]=el[d]; nn[d]=n[d]; mm[d]=2*n[d]; lobatto_nodes(z[d],n[d]); }
  for(e=0;e<ne;e++) for(l=0,k=0;k<(D==3?n[2]:1);k++) for(j=0;j<n[1];j++) for(i=0;i<n[0];i++,l++){ el[0][e*nt+l]=4*id+z[0][i]; el[1][e*nt+l]=4*e+z[1][j]; el[2][e*nt+l]=z[2][D==3?k:0]; }
  if(D==2) f2=findpts_setup_2(&w,ce,nn,ne,mm,tol,ne+3,2,sym_param("npm",2),1e-10); else f3=findpts_setup_3(&w,ce,nn,ne,mm,tol,ne+3,2,sym_param("npm",2),1e-10);
  for(h=0;H[h]>=0;h++){ int s=H[h]>>1,f=H[h]&1,m=s==2?(id==np-1):nptOf(s,id); struct pt *P=malloc(sizeof(struct pt)*MAXP); double *fl=malloc(sizeof(double)*(nt*ne+1));
    for(i=0;i<nt*ne;i++) fl[i]=S->fld[f][id][i];
    for(k=0;k<MAXP;k++){ query(S,s,id,k,&P[k]); P[k].out=33; }
    if(D==2) findpts_eval_2(&P->out,sizeof *P,&P->code,sizeof *P,&P->proc,sizeof *P,&P->el,sizeof *P,P->r,sizeof *P,m,fl,f2); else findpts_eval_3(&P->out,sizeof *P,&P->code,sizeof *P,&P->proc,sizeof *P,&P->el,sizeof *P,P->r,sizeof *P,m,fl,f3);
    for(k=0;k<MAXP;k++) S->out[h][id][k]=P[k].out;
    free(P); free(fl); }
  if(D==2) findpts_free_2(f2); else findpts_free_3(f3);
  for(d=0;d<3;d++) free(el[d]); comm_free(&w);
  sym_assert(sym_live_allocs()==0,"memory left after findpts_free"); sym_assert(sym_live_comms()==0,"communicator left after findpts_free"); }
void harness_main(void){ struct sh*S=sym_shared(sizeof *S); int q,i,f,h,k,te=0; const int *H; double z[3][16]; cfg(); H=HIST[sym_param("hist",0)];
  for(q=0;q<np;q++) te+=nelOf(q);
  S->ce=sym_choice("element",te); S->cp=sym_param("who",0); S->ck=0;
  for(i=0;i<3;i++) S->rs[i]=sym_param("rsym",0)>i?sym_real_range("r",-1,1):RT[(i*3+S->ce)%8];
  for(f=0;f<2;f++) for(q=0;q<np;q++) for(i=0;i<nt*nelOf(q);i++) S->fld[f][q][i]=sym_real_range("f",-1,1);
  for(i=0;i<3;i++) lobatto_nodes(z[i],n[i]);
  sym_expand(1); sym_run_ranks(np,rank,S);
  for(h=0;H[h]>=0;h++) for(q=0;q<np;q++){ int s=H[h]>>1,m=s==2?(q==np-1):nptOf(s,q); f=H[h]&1;
    for(k=0;k<MAXP;k++){ struct pt p; double e=0,w[3][16]; int a,b,c,l=0; query(S,s,q,k,&p);
      if(k>=m||p.code==2){ sym_assert_id(S->out[h][q][k]==33,"output of a point that was not found, or beyond the last, changed",h,k); continue; }
      for(a=0;a<D;a++) for(b=0;b<n[a];b++) w[a][b]=lagr(z[a],n[a],b,p.r[a]);
      for(c=0;c<(D==3?n[2]:1);c++) for(b=0;b<n[1];b++) for(a=0;a<n[0];a++,l++) e+=w[0][a]*w[1][b]*(D==3?w[2][c]:1)*S->fld[f][p.proc][p.el*nt+l];
      sym_assert_small(S->out[h][q][k]-e,1e-9,"value is not the interpolant at the point",h,k); sym_observe_f("out",S->out[h][q][k]); } }
  sym_require_cover("end"); sym_cover("end"); }
