/* Bounding boxes (obbox_calc): the axis-aligned and the oriented box contain the whole element. */
#include "common.h"
static int D,n[3],geo; 
/* polynomial element maps; terms of a degree the element cannot represent are left out */
static void map(int e,const double *r,double *x){ int i,j; static const double A[3][3]={{1,.25,-.125},{-.375,.75,.25},{.125,-.25,1.25}};
  double s=e&1?-1:1,q[3]; for(i=0;i<3;i++) q[i]=i<D?r[i]:0;
  for(i=0;i<D;i++){ x[i]=3*e+i; for(j=0;j<D;j++) x[i]+=(geo==0?(i==j?(i==0?.5:2):0):A[i][(j+e)%D])*q[j]; }
  if(geo==1){ x[0]+=.125*s*q[0]*q[1]; x[D-1]-=.1875*q[0]*q[D-1]; }
  if(geo==2){ if(n[0]>2) x[1]+=.25*s*q[0]*q[0]; if(n[1]>2) x[0]+=.125*q[1]*q[1]; if(D==3&&n[2]>2) x[2]-=.125*s*q[2]*q[2]; if(D==3) x[2]+=.0625*q[0]*q[1]; }
  if(geo==3){ if(n[0]>3) x[0]+=.125*q[0]*q[0]*q[0]-.0625*q[0]*q[0]; if(n[1]>3) x[1]+=s*.125*(q[1]*q[1]*q[1]-q[1]*q[1]*q[1]*q[0]); if(n[0]>4) x[1]+=.25*q[0]*q[0]*q[0]*q[0]-.125*q[0]*q[0]*q[0]; if(D==3&&n[2]>2) x[0]+=.125*q[2]*q[2]; }
  if(geo==4){ if(n[0]>2) x[1]+=.5*q[0]*q[0]*(1+.25*q[1]); if(n[0]>3) x[0]-=.125*q[0]*q[0]*q[0]; if(D==3) x[2]+=.125*q[0]*q[1]*q[2]; } }
/* segments covering the boundary and the inside */
static const double LN[][6]={ {0,-1,-1,1,0,0},{0,1,-1,1,0,0},{-1,0,-1,0,1,0},{1,0,-1,0,1,0},{0,0,0,1,1,1},{0,0,0,1,-1,.5},{.25,-.5,1,.75,.5,0},{-.5,.125,-1,.5,.875,0},{0,-1,0,.5,0,1},{1,0,0,0,.25,1},{-1,.5,.5,0,-.5,.5},{.75,1,.25,-.25,0,.75},{-1,-1,0,0,0,1},{1,1,0,0,0,1},{0,1,1,1,0,0},{1,0,1,0,1,0} };
void harness_main(void){ int i,j,k,e,nel=sym_param("nel",2),nt,ln,mf=sym_param("mf",2),me=sym_param("me",0); double *el[3],z[3][16],tol=sym_param("tol8",0)/8.,t,r[3],x[3],eps=1e-9; const double *ce[3]; unsigned nn[3],mm[3]; struct obbox_2 *b2; struct obbox_3 *b3;
  D=sym_param("dim",2); geo=sym_param("geo",1); n[0]=sym_param("nr",3); n[1]=sym_param("ns",3); n[2]=sym_param("nt",3); nt=n[0]*n[1]*(D==3?n[2]:1);
  for(i=0;i<3;i++){ el[i]=malloc(sizeof(double)*nt*nel); ce[i]=el[i]; nn[i]=n[i]; mm[i]=mf*n[i]+me*(i+1); lobatto_nodes(z[i],n[i]); }
  for(e=0;e<nel;e++) for(k=0;k<nt;k++){ r[0]=z[0][k%n[0]]; r[1]=z[1][k/n[0]%n[1]]; r[2]=D==3?z[2][k/n[0]/n[1]]:0; map(e,r,x); for(i=0;i<D;i++) el[i][e*nt+k]=x[i]; }
  b2=malloc(nel*sizeof *b2); b3=malloc(nel*sizeof *b3);
  if(D==2) obbox_calc_2(b2,ce,nn,nel,mm,tol); else obbox_calc_3(b3,ce,nn,nel,mm,tol);
  e=sym_choice("element",nel); ln=sym_choice("line",D==2?8:16); t=sym_real_range("t",-1,1); sym_expand(1);
  for(i=0;i<3;i++) r[i]=LN[ln][i]+t*LN[ln][3+i];
  map(e,r,x);
  for(i=0;i<D;i++){ double lo=D==2?b2[e].x[i].min:b3[e].x[i].min,hi=D==2?b2[e].x[i].max:b3[e].x[i].max,v=0;
    sym_assert_nonneg(x[i]-lo,eps,"element below its axis-aligned box",D,i); sym_assert_nonneg(hi-x[i],eps,"element above its axis-aligned box",D,i);
    for(j=0;j<D;j++) v+=(D==2?b2[e].A[i*2+j]:b3[e].A[i*3+j])*(x[j]-(D==2?b2[e].c0[j]:b3[e].c0[j]));
    sym_assert_nonneg(1-v,eps,"element above its oriented box",D,i); sym_assert_nonneg(1+v,eps,"element below its oriented box",D,i);
    if(geo==0&&nel>0){ double l=3*e+i-(i==0?.5:2)*(1+tol),h=3*e+i+(i==0?.5:2)*(1+tol); sym_assert_id((lo-l<=eps)&(l-lo<=eps)&(hi-h<=eps)&(h-hi<=eps),"box of a straight element is not its hull expanded by the tolerance",D,i); } }
  if(tol>0) for(i=0;i<D;i++){ double lo=D==2?b2[e].x[i].min:b3[e].x[i].min,hi=D==2?b2[e].x[i].max:b3[e].x[i].max,g=(hi-lo)*tol/(1+tol)/2; sym_assert_nonneg(x[i]-lo-g,eps,"tolerance not added below",D,i); sym_assert_nonneg(hi-x[i]-g,eps,"tolerance not added above",D,i); }
  { double y[3]; unsigned q=1; for(q=0;q<4;q++){ double w; for(i=0;i<D;i++) r[i]=(int)((q*7+i*5+e*3)%9-4)/4.; map(e,r,y); w=D==2?obbox_test_2(&b2[e],y):obbox_test_3(&b3[e],y); sym_assert(w>=-eps,"point of the element rejected by obbox_test"); y[q%D]+=100; w=D==2?obbox_test_2(&b2[e],y):obbox_test_3(&b3[e],y); sym_assert(w<0,"far point accepted by obbox_test"); } }
  free(b2); free(b3); for(i=0;i<3;i++) free(el[i]); sym_assert(sym_live_allocs()==0,"memory left by obbox_calc");
  sym_observe_f("x",x[0]); sym_require_cover("end"); sym_cover("end"); }
