/* tensor.h kernels against their definitions, over all real inputs. */
#include "common.h"
#define MX 600
static double *sy(const char *nm, int n){ int i; double *p = malloc((n?n:1)*sizeof(double)); for(i=0;i<n;i++) p[i]=sym_real(nm); return p; }
static double *un(int n){ return malloc((n?n:1)*sizeof(double)); }  /* exact size: writes beyond are caught */
static int keep(const double *a,const double *b,int n){ int i,ok=1; for(i=0;i<n;i++) ok&=a[i]==b[i]; return ok; }
static double *dupd(const double*a,int n){ double*p=un(n); memcpy(p,a,n*sizeof(double)); return p; }
void harness_main(void){
  int op=sym_param("op",0),nr=sym_param("nr",2),ns=sym_param("ns",2),nt=sym_param("nt",2),mr=sym_param("mr",2),ms=sym_param("ms",3),mt=sym_param("mt",2),i,j,k,a,b,c;
  double v,e,g[3],ge[3];
  if(op==0){ double *x=sy("a",nr),*y=sy("b",nr); v=tensor_dot(x,y,nr); e=0; for(i=0;i<nr;i++) e+=x[i]*y[i]; sym_assert(v==e,"dot: not the inner product"); sym_observe_f("v",v); }
  if(op==1||op==2){ double *A=sy("A",nr*ns),*x=sy("x",ns),*y=un(nr),*A0=dupd(A,nr*ns),*x0=dupd(x,ns);
    if(op==1) tensor_mxv(y,nr,A,x,ns); else tensor_mtxv(y,nr,A,x,ns);
    for(i=0;i<nr;i++){ e=0; for(j=0;j<ns;j++) e+=(op==1?A0[i+nr*j]:A0[j+ns*i])*x0[j]; sym_assert(y[i]==e,op==1?"mxv: not A x":"mtxv: not A^T x"); sym_observe_f("y",y[i]); }
    sym_assert(keep(A,A0,nr*ns)&keep(x,x0,ns),"matrix-vector product changed its inputs"); }
  if(op==3||op==4){ double *A=sy("A",nr*ns),*B=sy("B",ns*nt),*C=un(nr*nt);
    if(op==3) tensor_mxm(C,nr,A,ns,B,nt); else tensor_mtxm(C,nr,A,ns,B,nt);
    for(i=0;i<nr;i++) for(k=0;k<nt;k++){ e=0; for(j=0;j<ns;j++) e+=(op==3?A[i+nr*j]:A[j+ns*i])*B[j+ns*k]; sym_assert(C[i+nr*k]==e,op==3?"mxm: not A B":"mtxm: not A^T B"); sym_observe_f("c",C[i+nr*k]); } }
  if(op==5){ double *u=sy("u",nr*ns*nt),*R=sy("Jr",nr),*S=sy("Js",ns),*T=sy("Jt",nt);
    if(ns==0) v=tensor_i1(R,nr,u); 
    else if(sym_param("d",3)==1) v=tensor_i1(R,nr,u);
    else if(sym_param("d",3)==2) v=tensor_i2(R,nr,S,ns,u,un(ns));
    else v=tensor_i3(R,nr,S,ns,T,nt,u,un(ns*nt+nt));
    e=0; for(k=0;k<(sym_param("d",3)>2?nt:1);k++) for(j=0;j<(sym_param("d",3)>1?ns:1);j++) for(i=0;i<nr;i++) e+=R[i]*(sym_param("d",3)>1?S[j]:1)*(sym_param("d",3)>2?T[k]:1)*u[i+nr*(j+ns*k)];
    sym_assert(v==e,"interpolation: not the tensor contraction"); sym_observe_f("v",v); }
  if(op==6){ int d=sym_param("d",3),n=0; double *u=sy("u",nr*(d>1?ns:1)*(d>2?nt:1)),*R=sy("wr",2*nr),*S=sy("ws",2*ns),*T=sy("wt",2*nt);
    if(d==1) v=tensor_ig1(g,R,nr,u); else if(d==2) v=tensor_ig2(g,R,nr,S,ns,u,un(2*nr)); else v=tensor_ig3(g,R,nr,S,ns,T,nt,u,un(2*nr*ns+3*nr));
    e=ge[0]=ge[1]=ge[2]=0;
    for(k=0;k<(d>2?nt:1);k++) for(j=0;j<(d>1?ns:1);j++) for(i=0;i<nr;i++,n++){ double s0=d>1?S[j]:1,s1=d>1?S[ns+j]:0,t0=d>2?T[k]:1,t1=d>2?T[nt+k]:0; e+=R[i]*s0*t0*u[n]; ge[0]+=R[nr+i]*s0*t0*u[n]; ge[1]+=R[i]*s1*t0*u[n]; ge[2]+=R[i]*s0*t1*u[n]; }
    sym_assert(v==e,"interpolation with gradient: wrong value"); sym_observe_f("v",v);
    for(i=0;i<d;i++){ sym_assert_id(g[i]==ge[i],"interpolation with gradient: wrong derivative",i,0); sym_observe_f("g",g[i]); } }
  if(op==7){ double *u=sy("u",mr*ms),*J=sy("J",mr*nr),*K=sy("K",ms*ns),*o=un(nr*ns),*w=un(nr*ms);
    tensor_2t(o,J,nr,mr,K,ns,ms,u,w);
    for(j=0;j<ns;j++) for(i=0;i<nr;i++){ e=0; for(b=0;b<ms;b++) for(a=0;a<mr;a++) e+=J[a+mr*i]*K[b+ms*j]*u[a+mr*b]; sym_assert(o[i+nr*j]==e,"2-d tensor product: wrong entry"); } }
  if(op==8){ double *u=sy("u",mr*ms*mt),*J=sy("J",mr*nr),*K=sy("K",ms*ns),*L=sy("L",mt*nt),*o=un(nr*ns*nt),*w=un(nr*(ms+ns)*mt);
    tensor_3t(o,J,nr,mr,K,ns,ms,L,nt,mt,u,w);
    for(k=0;k<nt;k++) for(j=0;j<ns;j++) for(i=0;i<nr;i++){ e=0; for(c=0;c<mt;c++) for(b=0;b<ms;b++) for(a=0;a<mr;a++) e+=J[a+mr*i]*K[b+ms*j]*L[c+mt*k]*u[a+mr*(b+ms*c)]; sym_assert(o[i+nr*(j+ns*k)]==e,"3-d tensor product: wrong entry"); } }
  sym_require_cover("end"); sym_cover("end");
}
