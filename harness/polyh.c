/* Lagrange bases, Gauss / Gauss-Lobatto nodes and weights (poly.h). */
#include "common.h"
#define MAXN 40
static int near_(double a,double b,double tol){ double d=a-b; return (d<=tol)&(d>=-tol); }
/* reference: i-th Lagrange polynomial on z and its first two derivatives at x, factor by factor */
static void ref(const double *z,int n,int i,double x,double v[3]){
  int j; double den=1; v[0]=1; v[1]=v[2]=0;
  for(j=0;j<n;j++) if(j!=i){ double t=x-z[j]; den*=z[i]-z[j]; v[2]=v[2]*t+2*v[1]; v[1]=v[1]*t+v[0]; v[0]=v[0]*t; }
  for(j=0;j<3;j++) v[j]=v[j]/den;
}
static double *un(int n){ return malloc((n?n:1)*sizeof(double)); }
static double leg(int n,double x){ double a=1,b=x,t; int k; if(!n) return a; for(k=1;k<n;k++){ t=((2*k+1)*x*b-k*a)/(k+1); a=b; b=t; } return b; }
static double ipow(double x,int k){ double r=1; while(k--) r*=x; return r; }
void harness_main(void){
  int op=sym_param("op",0),n=sym_param("n",3),i,j,k,d; double z[MAXN],w[MAXN],x;
  if(op<=2){
    double *data=un(op==2?gll_lag_size(n):lagrange_size(n)),*p; lagrange_fun *lag; long a0;
    if(op==0) for(i=0;i<n;i++){ z[i]=sym_real("z"); if(i) sym_assume(z[i]>z[i-1]); }
    if(op==1){ int m=sym_choice("set",3); for(i=0;i<n;i++) z[i]=m==0?i-n/2:m==1?cos((i+.5)/n*3.14159):(i*i*.125-1); }
    if(op==2) lobatto_nodes(z,n);
    a0=sym_live_allocs();
    lag=op==2?gll_lag_setup(data,n):lagrange_setup(data,z,n);
    sym_assert(sym_live_allocs()==a0,"setup of a Lagrange basis leaks memory");
    d=sym_param("eval",2); p=un((d+1)*n);
    x=op==0?sym_real("x"):sym_param("grid",0)?-1+sym_choice("g",2*sym_param("grid",0)+1)/(double)sym_param("grid",0):sym_real_range("x",-1,1);
    sym_expand(op!=0);
    lag(p,data,n,d,x);
    { double sc=1,sum[3]={0,0,0}; if(op==1) for(j=0,sc=1;j<n;j++) sc*=fabs(z[j])+2;
    for(i=0;i<n;i++){ double r[3],tol=1e-10*sc; ref(z,n,i,x,r);
      for(k=0;k<=d;k++,tol*=n*n*(op==1?sc:1)){ sum[k]+=p[k*n+i];
        if(op==0) sym_assert_id(p[k*n+i]==r[k],"Lagrange basis: wrong value or derivative",k,i);
        else sym_assert_small(p[k*n+i]-r[k],tol,op==2?"GLL basis: wrong value or derivative":"Lagrange basis: wrong value or derivative",k,i); } }
    if(op==2){ double tol=1e-9; sum[0]-=1; for(k=0;k<=d;k++,tol*=n*n) sym_assert_small(sum[k],tol,"GLL basis does not sum to one",k,0); } }
    for(i=0;i<(d+1)*n;i++) sym_observe_f("p",p[i]);
  }
  if(op==3||op==4){ int deg=op==3?2*n-1:2*n-3; double *zz=un(n),*ww=un(n),*z2=un(n),s=0,e=0;
    if(op==3){ gauss_quad(zz,ww,n); gauss_nodes(z2,n); } else { lobatto_quad(zz,ww,n); lobatto_nodes(z2,n); }
    for(i=0;i<n;i++){ double q; sym_assert(zz[i]==z2[i],"quadrature nodes and nodes differ"); sym_assert(i==0||zz[i]>zz[i-1],"nodes not increasing"); sym_assert(zz[i]>=-1&&zz[i]<=1,"node outside [-1,1]"); sym_assert(zz[i]==-zz[n-1-i],"nodes not symmetric"); sym_assert(ww[i]>0,"weight not positive");
      if(op==3) q=leg(n,zz[i]); else if(i==0||i==n-1) q=fabs(zz[i])-1; else q=leg(n,zz[i])-leg(n-2,zz[i]);
      sym_assert(near_(q,0,1e-11),"node is not a root"); sym_observe_f("z",zz[i]); sym_observe_f("w",ww[i]); }
    for(k=0;k<=deg;k++){ double a=sym_real_range("a",-1,1),t=0; for(i=0;i<n;i++) t+=ww[i]*ipow(zz[i],k); s+=a*t; if(k%2==0) e+=a*(2./(k+1)); }
    sym_assert(near_(s,e,1e-9),"quadrature not exact for polynomials of its degree");
  }
  sym_require_cover("end"); sym_cover("end");
}
