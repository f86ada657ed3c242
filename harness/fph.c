/* Distributed point search (findpts, findptsms, their Fortran interface, findpts_local): interior points are found in an element that contains them, points near the mesh get the closest candidate of all processes, others are reported missing; every query is answered at its own index. */
#include "common.h"
#define MAXE 12
#define MAXP 4
static int D,n[3],np,pat,nel_[8],NE; static double q4(int k){ return k/4.; }
/* elements: owner, index on owner, low corner and size in quarters */
static struct el { int own,ix,lo[3],sz[3]; } E[MAXE];
static void add(int own,int a,int b,int c,int p,int q,int r){ struct el*e=&E[NE++]; e->own=own; e->ix=nel_[own]++; e->lo[0]=a; e->lo[1]=b; e->lo[2]=c; e->sz[0]=p; e->sz[1]=q; e->sz[2]=r; }
static void mesh(void){ int i,j; NE=0; memset(nel_,0,sizeof nel_);
  switch(pat){
  case 0: add(0,0,0,0,4,4,4); add(np-1,4,0,0,4,4,4); break;                                                   /* two neighbours */
  case 1: for(i=0;i<2*np;i++) add(i%np,4*i,0,0,4,4,4); break;                                                  /* a row dealt out to the processes */
  case 2: add(0,0,0,0,4,4,4); add(np-1,8,0,0,8,4,4); break;                                                   /* a gap */
  case 3: for(i=0;i<2;i++) for(j=0;j<2;j++) add((i+j)%np,8*i,4*j,0,8,4,4); break;                              /* a grid */
  case 4: add(0,0,0,0,8,8,8); add(np>1?1:0,2,2,2,2,2,2); add(np>2?2:0,6,0,0,8,8,8); break;                        /* overlapping, nested */
  case 5: for(i=0;i<3;i++) add(i%(np>1?np-1:1),12*i,-8*(i&1),0,4,4,4); break;                                 /* scattered; last process has none */
  case 6: add(np-1,-8,-8,-8,4,8,4); add(np-1,-4,-8,-8,4,8,4); break;                                          /* everything on the last process, away from the origin */
  case 7: for(i=0;i<np;i++) add(i,(i&1)+4*(i/2),(i&1),0,(i&1)?5:4,4,4); break;                                    /* two overlapping rows, alternating processes */
  } }
static double ref(int e,int d,double r){ return q4(E[e].lo[d])+q4(E[e].sz[d])*(r+1)/2; }
struct pt { double x0; double r[3]; double pad; double x1; uint code; double d2,x2; uint el,padi,proc; double out; };
static int npts[8],which,whor; static double T_; static const int *LP; static int opt_rep;
static const int LINES[][6]={ {2,2,2,1,0,0},{2,1,3,0,1,0},{4,2,1,1,0,0},{6,2,3,1,2,0},{4,4,4,1,1,1},{3,1,2,0,0,1},{8,5,2,-1,1,1},{2,6,2,1,-1,0},{9,1,1,1,0,1},{0,0,0,1,0,0},{4,0,2,0,1,1},{10,3,-2,2,-1,1} };
static void point(int q,int k,double *x){ int d; if(q==whor&&k==which){ for(d=0;d<3;d++) x[d]=q4(LP[d])+T_*LP[3+d]; return; }
  { unsigned h=q*7919u+k*104729u+13; for(d=0;d<3;d++){ h=h*1664525u+1013904223u; x[d]=((int)(h>>16)%41-8)/8.; } } }
struct res { struct pt p[8][MAXP]; double t,D[4]; int line; };
/* sessions (findptsms): all elements of a process belong to one */
static int api,match; static int ses(int q){ static const int M[4][8]={{0,0,0,0,0,0,0,0},{0,1,0,1,0,1,0,1},{2,0,1,2,0,1,2,0},{1,1,0,0,1,0,1,0}}; return api==3?M[sym_param("smap",1)][q]:0; }
static unsigned psid(int q,int k){ return (ses(q)+k+sym_param("pofs",0))%3; }
#define FN(l,u) GS_FORTRAN_NAME(l,u)
void FN(findpts_setup,FINDPTS_SETUP)(sint*,const MPI_Fint*,const sint*,const sint*,const double*,const double*,const double*,const sint*,const sint*,const sint*,const sint*,const sint*,const sint*,const sint*,const double*,const sint*,const sint*,const sint*,const double*);
void FN(findpts_free,FINDPTS_FREE)(const sint*);
void FN(findpts,FINDPTS)(const sint*,sint*,const sint*,sint*,const sint*,sint*,const sint*,double*,const sint*,double*,const sint*,const double*,const sint*,const double*,const sint*,const double*,const sint*,const sint*);
void FN(findpts_eval,FINDPTS_EVAL)(const sint*,double*,const sint*,const sint*,const sint*,const sint*,const sint*,const sint*,const sint*,const double*,const sint*,const sint*,const double*);
void FN(findpts_eval_local,FINDPTS_EVAL_LOCAL)(const sint*,double*,const sint*,const sint*,const sint*,const double*,const sint*,const sint*,const double*);
void FN(findptsms_setup,FINDPTSMS_SETUP)(sint*,const MPI_Fint*,const sint*,const sint*,const double*,const double*,const double*,const sint*,const sint*,const sint*,const sint*,const sint*,const sint*,const sint*,const double*,const sint*,const sint*,const sint*,const double*,const uint*,const double*);
void FN(findptsms_free,FINDPTSMS_FREE)(const sint*);
void FN(findptsms,FINDPTSMS)(const sint*,sint*,const sint*,sint*,const sint*,sint*,const sint*,double*,const sint*,double*,const sint*,const double*,const sint*,const double*,const sint*,const double*,const sint*,const uint*,const uint*,const uint*,const sint*);
void FN(findptsms_eval,FINDPTSMS_EVAL)(const sint*,double*,const sint*,const sint*,const sint*,const sint*,const sint*,const sint*,const sint*,const double*,const sint*,const sint*,const double*);
static void config(struct res *S){ int q; api=sym_param("api",0); match=sym_param("match",0); D=sym_param("dim",2); np=sym_param("np",1); pat=sym_param("pat",0); n[0]=sym_param("nr",2); n[1]=sym_param("ns",2); n[2]=sym_param("nt",2); opt_rep=sym_param("reps",1);
  mesh(); whor=sym_param("who",0); which=sym_param("which",0); LP=LINES[S->line]; T_=S->t;
  for(q=0;q<np;q++) npts[q]=sym_param("npt",1)-(q!=whor&&q%2); if(npts[whor]<=which) npts[whor]=which+1; }
#define GS2(f,a2,a3) (D==2?GS_PREFIXED_NAME(f##_2) a2:GS_PREFIXED_NAME(f##_3) a3)
static void rank(int id,void *arg){ struct res *S=arg; struct comm w; int e,k,d,i,j,l,rep,nt; double *el[3],z[3][16],*fld; const double *ce[3]; unsigned nn[3],mm[3]; struct findpts_data_2 *f2=0; struct findpts_data_3 *f3=0; struct pt *P=malloc(sizeof(struct pt)*MAXP); struct { uint c[8*MAXP],p[8*MAXP],e[8*MAXP]; double r[8*MAXP],d[8*MAXP],o[8*MAXP],x[8*MAXP]; } q; int sep=sym_param("sep",0);
  uint lh=sym_param("lhash",0),gh=sym_param("ghash",4),pm=sym_param("npm",4); double tol=sym_param("tol8",2)/8.; int ne,m;
  config(S); ne=nel_[id]; m=npts[id]; nt=n[0]*n[1]*(D==3?n[2]:1);
  if(lh==0) lh=ne+2+id*3; else lh+=ne+2;
  double *dfn; uint sid=ses(id),ma=match; sint fh=-1; int ft=sym_param("ft",0); struct findpts_local_data_2 l2; struct findpts_local_data_3 l3; buffer B; uint sb[MAXP];
  if(api==2) buffer_init(&B,10);
  comm_init(&w,MPI_COMM_WORLD);
  for(d=0;d<3;d++){ el[d]=malloc(sizeof(double)*(nt*ne+1)); ce[d]=el[d]; nn[d]=n[d]; mm[d]=2*n[d]; lobatto_nodes(z[d],n[d]); }
  fld=malloc(sizeof(double)*(nt*ne+1)); dfn=malloc(sizeof(double)*(nt*ne+1)); for(k=0;k<MAXP;k++) sb[k]=psid(id,k);
  for(e=0;e<NE;e++) if(E[e].own==id) for(l=0,k=0;k<(D==3?n[2]:1);k++) for(j=0;j<n[1];j++) for(i=0;i<n[0];i++,l++){ int o=E[e].ix*nt+l; el[0][o]=ref(e,0,z[0][i]); el[1][o]=ref(e,1,z[1][j]); el[2][o]=D==3?ref(e,2,z[2][k]):0; fld[o]=el[0][o]-2*el[1][o]+(D==3?.5*el[2][o]:0); }
  for(i=0;i<nt*ne;i++) dfn[i]=S->D[ses(id)];
  if(api==3&&ft){ MPI_Fint fc=MPI_Comm_c2f(w.c); sint v[]={np,D,n[0],n[1],n[2],ne,2*n[0],2*n[1],2*n[2],lh,gh,pm}; double nt_=1e-10; FN(findptsms_setup,FINDPTSMS_SETUP)(&fh,&fc,v,v+1,ce[0],ce[1],ce[2],v+2,v+3,v+4,v+5,v+6,v+7,v+8,&tol,v+9,v+10,v+11,&nt_,&sid,dfn); }
  else if(api==3){ if(D==2) f2=findptsms_setup_2(&w,ce,nn,ne,mm,tol,lh,gh,pm,1e-10,&sid,dfn); else f3=findptsms_setup_3(&w,ce,nn,ne,mm,tol,lh,gh,pm,1e-10,&sid,dfn); }
  else if(api==1){ MPI_Fint fc=MPI_Comm_c2f(w.c); sint v[]={np,D,n[0],n[1],n[2],ne,2*n[0],2*n[1],2*n[2],lh,gh,pm},h0; double nt_=1e-10; FN(findpts_setup,FINDPTS_SETUP)(&h0,&fc,v,v+1,ce[0],ce[1],ce[2],v+2,v+3,v+4,v+5,v+6,v+7,v+8,&tol,v+9,v+10,v+11,&nt_); FN(findpts_setup,FINDPTS_SETUP)(&fh,&fc,v,v+1,ce[0],ce[1],ce[2],v+2,v+3,v+4,v+5,v+6,v+7,v+8,&tol,v+9,v+10,v+11,&nt_); sym_assert(h0!=fh,"handles of two live objects equal"); FN(findpts_free,FINDPTS_FREE)(&h0); }
  else if(api==2){ if(D==2) findpts_local_setup_2(&l2,ce,nn,ne,mm,tol,lh,pm,1e-10); else findpts_local_setup_3(&l3,ce,nn,ne,mm,tol,lh,pm,1e-10); }
  else if(D==2) f2=findpts_setup_2(&w,ce,nn,ne,mm,tol,lh,gh,pm,1e-10); else f3=findpts_setup_3(&w,ce,nn,ne,mm,tol,lh,gh,pm,1e-10);
  for(rep=0;rep<opt_rep;rep++){ const double *xb[3]; unsigned xs[3]; 
    for(k=0;k<MAXP;k++){ double x[3]; point(id,k,x); P[k].x0=x[0]; P[k].x1=x[1]; P[k].x2=x[2]; P[k].code=77; P[k].proc=78; P[k].el=79; P[k].d2=-1; P[k].out=-5; for(d=0;d<3;d++) P[k].r[d]=-7; P[k].pad=3; P[k].padi=9; }
    xb[0]=&P->x0; xb[1]=&P->x1; xb[2]=&P->x2; xs[0]=xs[1]=xs[2]=sizeof(struct pt);
    uint *Bc=&P->code,*Bp=&P->proc,*Be=&P->el; double *Br=P->r,*Bd=&P->d2,*Bo=&P->out; unsigned Sc=sizeof *P,Sp=Sc,Se=Sc,Sr=Sc,Sd=Sc,So=Sc;
    if(sep){ /* each argument in an array of its own, every one with another stride */
      double *X=q.x; for(k=0;k<MAXP;k++){ X[k]=P[k].x0; X[MAXP+2*k]=P[k].x1; X[3*MAXP+3*k]=P[k].x2; } xb[0]=X; xb[1]=X+MAXP; xb[2]=X+3*MAXP; for(d=0;d<3;d++) xs[d]=(d+1)*sizeof(double);
      for(k=0;k<8*MAXP;k++) q.c[k]=q.p[k]=q.e[k]=77, q.r[k]=q.d[k]=q.o[k]=-5;
      Bc=q.c; Bp=q.p; Be=q.e; Br=q.r; Bd=q.d; Bo=q.o; Sc=2*sizeof(uint); Sp=3*sizeof(uint); Se=sizeof(uint); Sr=(D+2)*sizeof(double); Sd=3*sizeof(double); So=2*sizeof(double); }
    if(api==1||(api==3&&ft)){ sint iSc=Sc/sizeof(sint),iSp=Sp/sizeof(sint),iSe=Se/sizeof(sint),dSr=Sr/sizeof(double),dSd=Sd/sizeof(double),dSo=So/sizeof(double),dx0=xs[0]/sizeof(double),dx1=xs[1]/sizeof(double),dx2=xs[2]/sizeof(double),M=m; uint one=1;
      if(api==1) FN(findpts,FINDPTS)(&fh,(sint*)Bc,&iSc,(sint*)Bp,&iSp,(sint*)Be,&iSe,Br,&dSr,Bd,&dSd,xb[0],&dx0,xb[1],&dx1,xb[2],&dx2,&M);
      else FN(findptsms,FINDPTSMS)(&fh,(sint*)Bc,&iSc,(sint*)Bp,&iSp,(sint*)Be,&iSe,Br,&dSr,Bd,&dSd,xb[0],&dx0,xb[1],&dx1,xb[2],&dx2,sb,&one,&ma,&M);
      (api==1?FN(findpts_eval,FINDPTS_EVAL):FN(findptsms_eval,FINDPTSMS_EVAL))(&fh,Bo,&dSo,(sint*)Bc,&iSc,(sint*)Bp,&iSp,(sint*)Be,&iSe,Br,&dSr,&M,fld); goto done; }
    if(api==2){ if(D==2) findpts_local_2(Bc,Sc,Be,Se,Br,Sr,Bd,Sd,xb,xs,m,&l2,&B); else findpts_local_3(Bc,Sc,Be,Se,Br,Sr,Bd,Sd,xb,xs,m,&l3,&B);
      for(k=0;k<m;k++) if(*(uint*)((char*)Bc+k*Sc)!=2){ *(uint*)((char*)Bp+k*Sp)=0; if(D==2) findpts_local_eval_2((double*)((char*)Bo+k*So),So,(uint*)((char*)Be+k*Se),Se,(double*)((char*)Br+k*Sr),Sr,1,fld,&l2); else findpts_local_eval_3((double*)((char*)Bo+k*So),So,(uint*)((char*)Be+k*Se),Se,(double*)((char*)Br+k*Sr),Sr,1,fld,&l3); } goto done; }
    if(api==3){ if(D==2) findptsms_2(Bc,Sc,Bp,Sp,Be,Se,Br,Sr,Bd,Sd,xb,xs,sb,sizeof *sb,&ma,m,f2); else findptsms_3(Bc,Sc,Bp,Sp,Be,Se,Br,Sr,Bd,Sd,xb,xs,sb,sizeof *sb,&ma,m,f3);
      if(D==2) findptsms_eval_2(Bo,So,Bc,Sc,Bp,Sp,Be,Se,Br,Sr,m,fld,f2); else findptsms_eval_3(Bo,So,Bc,Sc,Bp,Sp,Be,Se,Br,Sr,m,fld,f3); goto done; }
    if(D==2) findpts_2(Bc,Sc,Bp,Sp,Be,Se,Br,Sr,Bd,Sd,xb,xs,m,f2); else findpts_3(Bc,Sc,Bp,Sp,Be,Se,Br,Sr,Bd,Sd,xb,xs,m,f3);
    if(D==2) findpts_eval_2(Bo,So,Bc,Sc,Bp,Sp,Be,Se,Br,Sr,m,fld,f2); else findpts_eval_3(Bo,So,Bc,Sc,Bp,Sp,Be,Se,Br,Sr,m,fld,f3); 
   done:
    if(sep) for(k=0;k<m;k++){ P[k].code=q.c[2*k]; P[k].proc=q.p[3*k]; P[k].el=q.e[k]; for(d=0;d<D;d++) P[k].r[d]=q.r[(D+2)*k+d]; P[k].d2=q.d[3*k]; P[k].out=q.o[2*k]; }
    if(sep){ int ok=1; for(k=0;k<8*MAXP;k++){ ok&=(k%2==0&&k/2<m)|(q.c[k]==77&q.o[k]==-5); ok&=(k%3==0&&k/3<m)|(q.p[k]==77&q.d[k]==-5); ok&=(k<m)|(q.e[k]==77); ok&=(k%(D+2)<D&&k/(D+2)<m)|(q.r[k]==-5); } sym_assert_id(ok,"data between the fields touched",id,0); } }

  for(k=m;k<MAXP;k++) sym_assert_id((P[k].code==77)&(P[k].proc==78)&(P[k].el==79)&(P[k].d2==-1)&(P[k].out==-5),"data beyond the last point touched",id,k);
  for(k=0;k<m;k++) sym_assert_id((P[k].pad==3)&(P[k].padi==9),"data between the fields touched",id,k);
  for(k=0;k<m;k++) S->p[id][k]=P[k];
  if(api==1) FN(findpts_free,FINDPTS_FREE)(&fh); else if(api==3&&ft) FN(findptsms_free,FINDPTSMS_FREE)(&fh); else if(api==3){ if(D==2) findptsms_free_2(f2); else findptsms_free_3(f3); }
  else if(api==2){ if(D==2) findpts_local_free_2(&l2); else findpts_local_free_3(&l3); buffer_free(&B); } else if(D==2) findpts_free_2(f2); else findpts_free_3(f3);
  for(d=0;d<3;d++) free(el[d]); free(fld); free(dfn); free(P); comm_free(&w);
  sym_assert(sym_live_allocs()==(api==1||(api==3&&ft)),"memory left after findpts_free"); sym_assert(sym_live_comms()==0,"communicator left after findpts_free"); }
void harness_main(void){ int q,k,e,d; struct res *S; double tol=sym_param("tol8",2)/8.,eps=1e-8,mg=1e-6;
  S=sym_shared(sizeof *S); D=sym_param("dim",2);
  { int l=sym_param("line",-1); S->line=l>=0?l:sym_choice("line",sizeof LINES/sizeof LINES[0]-(D==2?2:0)); }
  S->t=sym_real_range("t",-sym_param("len4",12)/4.,sym_param("len4",12)/4.);
  config(S); for(k=0;k<4;k++) S->D[k]=api==3?sym_real_range("D",-1,1):0; sym_expand(1);
  sym_run_ranks(np,rank,S);
  for(q=0;q<np;q++) for(k=0;k<npts[q];k++){ struct pt *p=&S->p[q][k]; double x[3],best=1e300; int inany=0,near=0,far=1,code,rs,elig=0; x[0]=p->x0; x[1]=p->x1; x[2]=p->x2; code=p->code;
    sym_assert_id((p->code<=2),"code",q,k);
    rs=code==2?-1:p->proc<(uint)np?ses(p->proc):-2;
    for(e=0;e<NE;e++){ double d2=0; int es=ses(E[e].own); if(api==3&&(match!=1?es==(int)psid(q,k):es!=(int)psid(q,k))) continue; elig|=es==rs; int in=1,inb=1,out=0; for(d=0;d<D;d++){ double lo=q4(E[e].lo[d]),s=q4(E[e].sz[d]),o=s*tol/2; if(x[d]<lo){ in=0; d2+=(lo-x[d])*(lo-x[d]); } else if(x[d]>lo+s){ in=0; d2+=(x[d]-lo-s)*(x[d]-lo-s); }
        inb&=(x[d]>=lo-o+mg)&(x[d]<=lo+s+o-mg); out|=(x[d]<lo-o-mg)|(x[d]>lo+s+o+mg); }
      inb=sym_concretize(inb); inany|=in&(es==rs||rs<0); near|=inb; far&=out; if(inb&&es!=rs&&rs>=0) sym_assert_id(S->D[es]<=S->D[rs]+eps,"a session with a larger distance found the point",q,k);
      if(inb&&es==rs) sym_assert_id(p->d2<=d2+eps,"a closer candidate exists",q,k); }
    if(inany&&(tol>0||near)) sym_assert_id((code==0)|((code==1)&(p->d2<=eps)),"point inside an element not found there",q,k);
    if(near) sym_assert_id(code!=2,"point within a bounding box reported as not found",q,k);
    sym_assert_id(SYM_IMP(far,code==2),"point outside all bounding boxes reported as found",q,k);
    sym_assert_id(code==2||elig,"point found in an element of a session that is excluded",q,k);
    if(code==2) { sym_assert_id(p->out==-5,"evaluation wrote to a point that was not found",q,k); continue; }
    { double y[3],r2=0,f; int own=p->proc,ix=p->el; sym_assert_id((p->proc<(uint)np),"process",q,k); for(e=0;e<NE;e++) if(E[e].own==own&&E[e].ix==ix) break; sym_assert_id(e<NE,"element",q,k); if(e==NE) continue;
      for(d=0;d<D;d++){ sym_assert_id((p->r[d]<=1+eps)&(p->r[d]>=-1-eps),"reference coordinates outside the element",q,k); y[d]=ref(e,d,p->r[d]); r2+=(y[d]-x[d])*(y[d]-x[d]); }
      sym_assert_small(r2-p->d2,eps,"dist2 is not the distance to the point returned",q,k);
      if(code==0) for(d=0;d<D;d++) sym_assert_small(y[d]-x[d],1e-4,"interior point does not map to the target",q,k);
      f=y[0]-2*y[1]+(D==3?.5*y[2]:0); sym_assert_small(p->out-f,eps,"evaluation at the point found",q,k); }
    sym_observe_i("code",code); sym_observe_f("d2",p->d2); }
  sym_require_cover("end"); sym_cover("end"); }
