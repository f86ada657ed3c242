/* Point search inside one element (findpts_el): the point returned is the closest one, and is flagged as interior exactly when the element contains the target. */
#include "common.h"
static double *un(int n){ return malloc((n?n:1)*sizeof(double)); }
static int D,n[3],geo,ax; static double hh[3]={1,.5,2},cc[3]={.25,-1,.5};
static const double A2[2][2]={{1,.5},{-.5,.75}},A3[3][3]={{1,.5,0},{.5,1.25,.25},{0,-.5,.875}};
/* geo 6: strongly sheared elements, for which Newton's iteration holds a point on a face or an edge and lets it go again */
static int mat; static const double B3[6][3][3]={{{0,-.5,.875},{.5,-1,1},{0,-.5,.5}},{{.25,1,1},{.25,1,.875},{.875,.5,1}},{{1,0,.25},{.5,1,-.5},{1,.25,0}},{{.25,.25,-.5},{-1,-.5,-.5},{0,.5,-.5}},{{-.5,.25,0},{-1,.25,-1},{.5,.5,-.5}},{{.5,-1,-1},{-.5,.875,.875},{-1,1,.5}}};
static const double B2[4][2][2]={{{1,.875},{.5,.5}},{{.25,1},{-.25,-.75}},{{-.5,1},{.25,-.75}},{{1,-.75},{.875,-.5}}};
static double A2_(int i,int j){ return geo>=6?B2[mat][i][j]:A2[i][j]; }
static double A3_(int i,int j){ return geo>=6?B3[mat][i][j]:A3[i][j]; }
/* the element map; exact in binary arithmetic at the nodes used */
static void map(const double *r,double *x){ int i,j;
  for(i=0;i<D;i++){ if(geo==0||geo==8) x[i]=cc[i]+hh[i]*r[i]; else { x[i]=cc[i]; for(j=0;j<D;j++) x[i]+=(D==2?A2_(i,j):A3_(i,j))*r[j]; } }
  if(geo==2) x[D-1]+=.25*r[0]*r[0];
  if(geo==3) x[0]+=.125*r[D-1]*r[D-1];
  if(geo==4) for(i=0;i<D;i++){ double t=r[i]; x[i]=cc[i]+hh[i]*t; } /* axis aligned, curved along one direction */
  if(geo==4) x[D-1]+=.25*r[0]*r[0]-(D==3?.125*r[1]*r[1]:0);
  if(geo==8){ double p=r[(ax+1)%D],q=D==3?r[(ax+2)%D]:0; x[ax]+=.25*p*p-.125*q*q+.125*p*q; } /* axis aligned; one coordinate is a general quadratic of the other two */
  if(geo==7) x[D-1]+=.125*r[0]*r[0]-(D==3?.125*r[1]*r[1]:0),x[0]+=.125*r[D-1]*r[D-1]; /* sheared and curved */
}
static void grad(const double *r,double J[3][3]){ int i,j;
  for(i=0;i<D;i++) for(j=0;j<D;j++) J[i][j]=geo==0||geo==4||geo==8?(i==j?hh[i]:0):(D==2?A2_(i,j):A3_(i,j));
  if(geo==2||geo==4) J[D-1][0]+=.5*r[0];
  if(geo==3) J[0][D-1]+=.25*r[D-1];
  if(geo==4&&D==3) J[2][1]-=.25*r[1];
  if(geo==8){ int o=(ax+1)%D,o2=(ax+2)%D; double p=r[o],q=D==3?r[o2]:0; J[ax][o]+=.5*p+.125*q; if(D==3) J[ax][o2]+=-.25*q+.125*p; }
  if(geo==7){ J[D-1][0]+=.25*r[0]; if(D==3) J[2][1]-=.25*r[1]; J[0][D-1]+=.25*r[D-1]; } }
/* lines in reference space */
static const double LN[][6]={ {0,0,0,1,0,0},{0,0,0,0,1,0},{.25,-.5,.125,1,.5,-.25},{-.5,.25,-.25,-.25,1,.5},{0,1,0,1,0,.5},{-1,0,.5,0,1,-.5},{.125,.25,-.375,1,-1,1},{.5,.5,-1,.5,1,0},{-.25,-.75,.625,.125,.25,1},{1,1,1,1,1,1} };
void harness_main(void){
  int i,j,k,npt=sym_param("npt",1),npm=sym_param("npm",npt),ln,sh=sym_param("line",-1),rep; double L=sym_param("len4",8)/(double)sym_param("lden",4),*el[3],t,z[3][32],tol=1e-8,gtol; unsigned nn[3]; const double *ce[3];
  double x[8][3],r0[8][3]; int l6[9],seg; struct findpts_el_data_2 f2; struct findpts_el_data_3 f3;
  D=sym_param("dim",2); geo=sym_param("geo",0); n[0]=sym_param("nr",2); n[1]=sym_param("ns",2); n[2]=sym_param("nt",2);
  mat=sym_param("mat",0); ax=sym_param("ax",0); gtol=geo<2||geo==6?tol:1e-6; /* the squared distance is flat at the minimum: the search stops when it no longer decreases */ seg=geo==6||sym_param("seg",0); ln=seg?0:sh>=0?sh:sym_choice("line",sizeof LN/sizeof LN[0]);
  k=n[0]*n[1]*(D==3?n[2]:1); for(i=0;i<D;i++) el[i]=un(k),nn[i]=n[i],lobatto_nodes(z[i],n[i]);
  for(j=0;j<k;j++){ double r[3],y[3]; r[0]=z[0][j%n[0]]; r[1]=z[1][j/n[0]%n[1]]; if(D==3) r[2]=z[2][j/n[0]/n[1]]; map(r,y); for(i=0;i<D;i++) el[i][j]=y[i]; }
  for(i=0;i<3;i++) ce[i]=el[i];
  t=sym_real_range("t",-L,L);
  sym_expand(1);
  { static const char *const N6[]={"b0","b1","b2","d0","d1","d2","e0","e1","e2"}; for(i=0;i<9;i++) l6[i]=sym_param(N6[i],i<6?i==3:l6[i-6]); }
  for(k=0;k<npt;k++){ const double *l=LN[(ln+3*k)%(int)(sizeof LN/sizeof LN[0])]; double s=k==sym_param("which",0)?t:(k%4-1.5)*.5*sym_param("len4",8)/8; for(i=0;i<D;i++) r0[k][i]=seg?k==sym_param("which",0)?l6[i]/8.+t*l6[3+i]:l6[6+i]/8.+(k%4-1)*.125*l6[3+i]:l[i]+s*l[3+i]; map(r0[k],x[k]); }
  if(D==2){ findpts_el_setup_2(&f2,nn,npm); } else findpts_el_setup_3(&f3,nn,npm);
  for(rep=0;rep<sym_param("reps",1);rep++){
    if(D==2){ findpts_el_start_2(&f2,ce); for(k=0;k<npt;k++) for(i=0;i<2;i++) findpts_el_points_2(&f2)[k].x[i]=x[k][i]; findpts_el_2(&f2,npt,1e-10); }
    else { findpts_el_start_3(&f3,ce); for(k=0;k<npt;k++) for(i=0;i<3;i++) findpts_el_points_3(&f3)[k].x[i]=x[k][i]; findpts_el_3(&f3,npt,1e-10); }
    for(k=0;k<npt;k++){ double r[3]={0},y[3],res[3],J[3][3],d2,e=0; unsigned fl; int in=1,conv,uncon;
      for(i=0;i<D;i++) r[i]=D==2?findpts_el_points_2(&f2)[k].r[i]:findpts_el_points_3(&f3)[k].r[i];
      d2=D==2?findpts_el_points_2(&f2)[k].dist2:findpts_el_points_3(&f3)[k].dist2; fl=D==2?findpts_el_points_2(&f2)[k].flags:findpts_el_points_3(&f3)[k].flags;
      for(i=0;i<D;i++) in=in&(r0[k][i]<=1)&(r0[k][i]>=-1);
      conv=fl>>(2*D)&1; uncon=fl==(1u<<(2*D));
      sym_assert_id(conv,"search did not converge",D,k);
      map(r,y); grad(r,J); for(i=0;i<D;i++) res[i]=x[k][i]-y[i],e+=res[i]*res[i];
      for(i=0;i<D;i++) sym_assert_id((r[i]<=1+tol)&(r[i]>=-1-tol),"point returned outside the element",D,k);
      if(uncon){ for(i=0;i<D;i++) sym_assert_small(res[i],tol,"interior point does not map to the target",D,k); }
      else sym_assert_id(SYM_OR(!in,e<=tol),"target inside the element not found as interior",D,k);
      sym_assert_small(d2-e,tol,"dist2 is not the squared distance of the point returned",D,k);
      for(j=0;j<D;j++){ double g=0; int c=fl>>(2*j)&3; for(i=0;i<D;i++) g+=res[i]*J[i][j];
        if(c==0) sym_assert_small(g,gtol,"not the closest point",D,k); else if(c==1) { sym_assert_small(r[j]+1,tol,"constrained direction not at its limit",D,k); sym_assert_nonneg(-g,gtol,"not the closest point",D,k); } else { sym_assert_small(r[j]-1,tol,"constrained direction not at its limit",D,k); sym_assert_nonneg(g,gtol,"not the closest point",D,k); } }
      for(i=0;i<D;i++) sym_observe_f("r",r[i]); sym_observe_f("d2",d2); } }
  if(D==2) findpts_el_free_2(&f2); else findpts_el_free_3(&f3);
  for(i=0;i<D;i++) free(el[i]); sym_assert(sym_live_allocs()==0,"memory left after findpts_el_free");
  sym_require_cover("end"); sym_cover("end");
}
