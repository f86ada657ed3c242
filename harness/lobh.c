/* lob_bnd: the piecewise (multi)linear bounds enclose the polynomial. */
#include "common.h"
#define PI_ 3.1415926535897932384626433832795028841971693993751
#define NP 3
static double *un(int n){ return malloc((n?n:1)*sizeof(double)); }
static double lagr(const double *z,int n,int i,double x){ int j; double v=1,den=1; for(j=0;j<n;j++) if(j!=i){ v*=x-z[j]; den*=z[i]-z[j]; } return v/den; }
static double hn(int j,int m){ return j==0?-1:j==m-1?1:cos((m-1-j)*PI_/(m-1)); }
static double pat(int s,int k){ unsigned h=(s+1)*2654435761u+k*40503u; h^=h>>13; h*=2246822519u; h^=h>>16; return (int)(h%17)/8.-1; }
static double *setup(int n,int m){ double *d=un(lob_bnd_size(n,m)); long a=sym_live_allocs(); lob_bnd_setup(d,n,m); sym_assert(sym_live_allocs()==a,"lob_bnd_setup leaks memory"); return d; }
static int d,nn[3],mm[3],N=1,M=1; static double z[3][32],*dat[3],tol=1e-9;
/* the point: x, and the segment/weight it has among the bound nodes; compare with the bounds */
static void at(const double *x,const int *g,const double *w,const double *u,int un_,const double *b,int uni){
  int i,k,c; double L[3][32];
  for(i=0;i<d;i++) for(k=0;k<nn[i];k++) L[i][k]=lagr(z[i],nn[i],k,x[i]);
  for(c=0;c<un_;c++){ double v=0,lo=0,hi=0; const double *uc=u+c*N,*bc=b+c*2*M;
    for(k=0;k<N;k++){ double t=L[0][k%nn[0]]; if(d>1) t*=L[1][k/nn[0]%nn[1]]; if(d>2) t*=L[2][k/nn[0]/nn[1]]; v+=uc[k]*t; }
    for(k=0;k<(1<<d);k++){ double t=1; int id=0; for(i=0;i<d;i++){ /* last direction fastest */ int up=k>>i&1; t*=up?w[i]:1-w[i]; id=id*mm[i]+(g[i]+up<mm[i]?g[i]+up:g[i]); } lo+=t*bc[2*id]; hi+=t*bc[2*id+1]; }
    if(uni){ sym_assert_nonneg(v-lo,tol,"polynomial below its lower bound",d,c); sym_assert_nonneg(hi-v,tol,"polynomial above its upper bound",d,c); }
    else { sym_assert_id(lo<=v+tol,"polynomial below its lower bound",d,c); sym_assert_id(v<=hi+tol,"polynomial above its upper bound",d,c); } }
}
void harness_main(void){
  int mode=sym_param("mode",0),i,k,un_=sym_param("un",1),c; double *u,*b,*wk=0,x[3]={0},w[3]={0}; int g[3]={0}; struct dbl_range R[4];
  d=sym_param("dim",1); nn[0]=sym_param("nr",3); nn[1]=sym_param("ns",2); nn[2]=sym_param("nt",2); mm[0]=sym_param("mr",2*nn[0]); mm[1]=sym_param("ms",2*nn[1]); mm[2]=sym_param("mt",2*nn[2]);
  for(i=0;i<d;i++) N*=nn[i],M*=mm[i];
  u=un(N*un_);
  if(mode==0){ int e=sym_choice("basis",2*N*un_); for(i=0;i<N*un_;i++) u[i]=i==e/2?(e&1?-1:1):0; }
  else if(mode==1) for(i=0;i<N*un_;i++) u[i]=sym_real_range("u",-1,1);
  else { double t=sym_real_range("t",-1,1),t2=sym_param("two",0)?sym_real_range("t2",-1,1):0; int s=sym_choice("pat",sym_param("pats",3)),s0=sym_param("s0",0); for(i=0;i<N*un_;i++) u[i]=pat(s+s0,i)+t*pat(s+s0+50,i)+t2*pat(s+s0+90,i); }
  for(i=0;i<d;i++){ dat[i]=setup(nn[i],mm[i]); lobatto_nodes(z[i],nn[i]); }
  sym_expand(1);
  b=un(2*M*un_);
  if(d==1) lob_bnd_lin_1(b,dat[0],nn[0],mm[0],u,un_);
  if(d==2) wk=un(2*mm[0]+2*nn[1]*mm[0]), lob_bnd_lin_2(b,dat[0],nn[0],mm[0],dat[1],nn[1],mm[1],u,un_,wk);
  if(d==3) wk=un(2*mm[0]*mm[1]+2*nn[2]*mm[1]*mm[0]), lob_bnd_lin_3(b,dat[0],nn[0],mm[0],dat[1],nn[1],mm[1],dat[2],nn[2],mm[2],u,un_,wk);
  for(c=0;c<un_&&!sym_param("lin",0);c++){ double *uc=u+c*N,*wc=0;
    if(d==1) R[c]=lob_bnd_1(dat[0],nn[0],mm[0],uc,wc=un(2*mm[0]));
    if(d==2) R[c]=lob_bnd_2(dat[0],nn[0],mm[0],dat[1],nn[1],mm[1],uc,wc=un(2*mm[0]*(nn[1]+mm[1]+1)));
    if(d==3) R[c]=lob_bnd_3(dat[0],nn[0],mm[0],dat[1],nn[1],mm[1],dat[2],nn[2],mm[2],uc,wc=un(2*mm[0]*mm[1]*(nn[2]+mm[2]+1)));
    free(wc); sym_observe_f("min",R[c].min); sym_observe_f("max",R[c].max); }
  if(!sym_param("lin",0)) for(c=0;c<un_;c++) for(i=0;i<M;i++){ sym_assert_id(R[c].min<=b[2*(c*M+i)]+tol,"returned minimum above a lower bound",d,c); sym_assert_id(R[c].max>=b[2*(c*M+i)+1]-tol,"returned maximum below an upper bound",d,c); }
  for(i=0;i<2*M*un_;i++) sym_observe_f("b",b[i]);
  if(mode==0){ /* x anywhere in a (part of a) segment in one direction, at a grid point in the others */
    int dir=sym_param("dir",0),ns=sym_param("sub",1),sg; double h,a,e;
    for(i=0;i<d;i++) if(i!=dir){ k=sym_choice("y",2*(mm[i]-1)); g[i]=k/2; w[i]=k%2?.5:.125; x[i]=(1-w[i])*hn(g[i],mm[i])+w[i]*hn(g[i]+1,mm[i]); }
    h=sym_real_range("xi",-1,1);
    for(sg=0;sg<(mm[dir]-1)*ns;sg++){ double lo=(sg%ns)/(double)ns,hi=(sg%ns+1)/(double)ns; g[dir]=sg/ns; a=hn(g[dir],mm[dir]); e=hn(g[dir]+1,mm[dir]); w[dir]=lo+(hi-lo)*((h+1)*.5); x[dir]=a+(e-a)*w[dir]; at(x,g,w,u,un_,b,mode==0); } }
  else { int n[3]={1,1,1},q[3]; for(i=0;i<d;i++) n[i]=(mm[i]-1)*NP+1;
    for(q[0]=0;q[0]<n[0];q[0]++) for(q[1]=0;q[1]<n[1];q[1]++) for(q[2]=0;q[2]<n[2];q[2]++){
      for(i=0;i<d;i++){ g[i]=q[i]/NP; w[i]=q[i]%NP/(double)NP; if(g[i]==mm[i]-1) g[i]--,w[i]=1; x[i]=(1-w[i])*hn(g[i],mm[i])+w[i]*hn(g[i]+1,mm[i]); }
      at(x,g,w,u,un_,b,mode==0); } }
  sym_require_cover("end"); sym_cover("end");
}
