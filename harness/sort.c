/* S01: sortv / sortp of every element type.
   params: type 0 uint 1 ulong(long long) 2 double 3 float
           op   0 sortv  1 sortv in place  2 sortp  3 sortp from a start permutation
           n, k (number of symbolic elements, the others are fixed), pad (extra stride bytes),
           rad=1: symbolic elements differ from the fixed ones only in one bit per digit (n>=256) */
#include "common.h"
#define MAXN 400
#define OI(n,v) sym_observe_i(n,(int64_t)(v))
#define OF(n,v) sym_observe_f(n,(double)(v))
static unsigned pseudo(unsigned i){ i=i*2654435761u+12345u; i^=i>>15; i*=2246822519u; i^=i>>13; return i; }
#define GEN(NAME,T,SV,SP,SYM,BASE,RADSYM,OBS)                                       \
static void NAME(int op,int n,int k,int pad,int rad,int bufpre){                   \
  static T val[MAXN], out[MAXN]; int i,j; buffer b=null_buffer;                    \
  const unsigned stride=op==1?sizeof(T):sizeof(T)+pad*sizeof(T);                   \
  char *A=malloc(stride*(n?n:1));                                                  \
  for(i=0;i<n;i++){ int s = k>=n || (i*k)/n!=((i+1)*k)/n;                          \
    val[i]= s ? (rad?RADSYM:SYM) : BASE;                                           \
    memset(A+i*stride,0x5a,stride); memcpy(A+i*stride,&val[i],sizeof(T)); }        \
  if(bufpre) buffer_init(&b,bufpre);                                               \
  if(op==0||op==1){                                                                \
    T *o = op==1 ? (T*)A : out;                                                    \
    if(op==0) for(i=0;i<n;i++) out[i]=0;                                           \
    SV(o,(const T*)A,n,stride,&b);                                                 \
    int ok=1; for(i=0;i+1<n;i++) ok&=(o[i]<=o[i+1]);                               \
    sym_assert(ok,"sortv: output not in nondecreasing order");                     \
    /* permutation: every input value occurs equally often in the output */        \
    ok=1; for(i=0;i<n;i++){ int c1=0,c2=0; if(n>12&&!(k>=n||(i*k)/n!=((i+1)*k)/n)&&i%29) continue; \
      for(j=0;j<n;j++) c1+=(val[j]==val[i]), c2+=(o[j]==val[i]);                   \
      ok&=(c1==c2); }                                                              \
    sym_assert(ok,"sortv: output is not a permutation of the input");              \
    for(i=0;i<n;i++) OBS("o",o[i]);                              \
  } else {                                                                         \
    static uint sp[MAXN]; static int pos[MAXN]; int seen[MAXN]; uint *p;           \
    for(i=0;i<n;i++) sp[i]=i;                                                      \
    if(op==3){ buffer_reserve(&b,n*sizeof(uint));                                  \
      if(n<=5){ for(i=n-1;i>0;i--){ int c=sym_choice("perm",i+1); uint t=sp[i]; sp[i]=sp[c]; sp[c]=t; } } \
      else for(i=n-1;i>0;i--){ int c=pseudo(i)%(i+1); uint t=sp[i]; sp[i]=sp[c]; sp[c]=t; } \
      if(n) memcpy(b.ptr,sp,n*sizeof(uint)); }                                           \
    p=SP(&b,op==3,(const T*)A,n,stride);                                           \
    sym_assert((void*)p==b.ptr,"sortp: permutation not at the start of the buffer"); \
    for(i=0;i<n;i++) pos[sp[i]]=i, seen[i]=0;                                      \
    for(i=0;i<n;i++){ uint q=sym_concretize(p[i]); if(q<(uint)n) seen[q]++; }      \
    int ok=1; for(i=0;i<n;i++) ok&=seen[i]==1;                                     \
    sym_assert(ok,"sortp: result is not a permutation of 0..n-1");                 \
    if(ok){ int so=1,st=1; for(i=0;i+1<n;i++){ T x=val[p[i]],y=val[p[i+1]];        \
      so&=(x<=y); st&=SYM_IMP(x==y,pos[p[i]]<pos[p[i+1]]); }                       \
      sym_assert(so,"sortp: permutation does not sort the input");                 \
      sym_assert(st,"sortp: equal keys not kept in their initial order"); }        \
    int same=1; for(i=0;i<n;i++){ T v; memcpy(&v,A+i*stride,sizeof(T)); same&=(v==val[i]); } \
    sym_assert(same,"sortp: input modified");                                      \
    for(i=0;i<n;i++) sym_observe_i("p",p[i]);                                      \
  }                                                                                \
  if(op!=1){ int pad_ok=1; for(i=0;i<n;i++) for(j=sizeof(T);j<(int)stride;j++) pad_ok&=(A[i*stride+j]==0x5a); \
    sym_assert(pad_ok,"sort wrote between the strided elements"); }                \
  free(A); buffer_free(&b);                                                        \
}
/* symbolic bits inside each 8-bit digit: bits selected by the low byte "bits" in every digit */
static int radbits;
static uint rad32(void){ uint m=0; int d; for(d=0;d<4;d++) m|=(uint)radbits<<(8*d); return (uint)sym_i32("a")&m; }
static unsigned long long rad64(void){ unsigned long long m=0; int d; for(d=0;d<8;d++) m|=(unsigned long long)radbits<<(8*d); return (unsigned long long)sym_i64("a")&m; }
/* radmode: which digits the fixed elements populate (bit mask) */
static int radmask;
static uint base32(int i,int rad){ uint v=pseudo(i),m=0; int d; if(!rad) return v%64; for(d=0;d<4;d++) if(radmask>>d&1) m|=0xffu<<(8*d); return v&m; }
static unsigned long long base64_(int i,int rad){ unsigned long long v=pseudo(i)|(unsigned long long)pseudo(i+7777)<<32,m=0; int d; if(!rad) return v%64; for(d=0;d<8;d++) if(radmask>>d&1) m|=0xffull<<(8*d); return v&m; }
static uint rsym32(void){ uint m=0; int d; for(d=0;d<4;d++) if(radmask>>d&1) m|=0xffu<<(8*d); return rad32()&m; }
static unsigned long long rsym64(void){ unsigned long long m=0; int d; for(d=0;d<8;d++) if(radmask>>d&1) m|=0xffull<<(8*d); return rad64()&m; }
GEN(run_ui,uint,sortv,sortp,(uint)sym_i32("a"),base32(i,rad),rsym32(),OI)
GEN(run_ull,ulong,sortv_long,sortp_long,(ulong)sym_i64("a"),base64_(i,rad),rsym64(),OI)
GEN(run_d,double,sortv_double,sortp_double,sym_real("a"),(double)(int)(pseudo(i)%64)-32,sym_real("a"),OF)
GEN(run_f,float,sortv_float,sortp_float,sym_realf("a"),(float)(int)(pseudo(i)%64)-32,sym_realf("a"),OF)
void harness_main(void){
  int type=sym_param("type",0),op=sym_param("op",0),n=sym_param("n",4),k=sym_param("k",n),pad=sym_param("pad",0),rad=sym_param("rad",0);
  int bufpre=sym_param("buf",0);
  radbits=sym_param("bits",8);
  radmask=sym_param("mask",15);
  if(n>MAXN) n=MAXN;
  sym_allow_exit(0);
  switch(type){ case 0: run_ui(op,n,k,pad,rad,bufpre); break; case 1: run_ull(op,n,k,pad,rad,bufpre); break; case 2: run_d(op,n,k,pad,rad,bufpre); break; case 3: run_f(op,n,k,pad,rad,bufpre); break; }
  sym_assert(sym_live_allocs()==0,"sort leaks memory");
  sym_require_cover("end"); sym_cover("end");
}
