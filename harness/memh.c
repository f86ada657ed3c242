/* M01: struct array / buffer: growth keeps contents, capacity covers requests.
   A history of k operations chosen symbolically; shadow model compared. */
#include "common.h"
typedef struct { ulong a; unsigned char b; } E;
#define CAP 64
void harness_main(void){
  int k=sym_param("k",3),m=sym_param("m",5),init=sym_param("init",0),i,s; 
  struct array a=null_array; E sh[CAP]; size_t n=0; 
  if(init){ array_init(E,&a,init-1); sym_assert(a.n==0&&a.max==(size_t)init-1,"array_init: wrong size"); }
  for(s=0;s<k;s++){
    int op=sym_choice("op",4), c=sym_choice("c",m);
    size_t oldmax=a.max;
    if(op==0){ void *p=array_reserve(E,&a,c); sym_assert(p==a.ptr,"array_reserve: does not return the storage"); sym_assert(a.max>=(size_t)c,"array_reserve: capacity below request"); sym_assert(a.max>=oldmax,"array_reserve: shrank"); }
    else if(op==1){ E src[CAP]; for(i=0;i<c;i++){ src[i].a=sym_i64("v"); src[i].b=(unsigned char)sym_i32("w"); sh[n+i]=src[i]; } array_cat(E,&a,src,c); n+=c; }
    else if(op==2){ /* reserve one past the end and append in place */ E *p=array_reserve(E,&a,a.n+1); p[a.n].a=sh[n].a=s; p[a.n].b=sh[n].b=7; a.n++; n++; }
    else { size_t t=a.n+c; array_resize(E,&a,t); sym_assert(a.max==t,"array_resize: wrong capacity"); }
    sym_assert(a.n==n,"array: wrong element count"); sym_assert(a.max>=a.n,"array: capacity below element count");
    { int ok=1; const E *p=a.ptr; for(i=0;i<(int)n;i++) ok&=(p[i].a==sh[i].a)&(p[i].b==sh[i].b); sym_assert(ok,"array: contents changed by growth"); }
    /* the whole capacity is usable */
    { E *p=a.ptr; size_t q; for(q=a.n;q<a.max;q++) p[q].a=q,p[q].b=1; }
  }
  sym_observe_i("n",a.n); sym_observe_i("max",a.max);
  array_free(&a);
  /* alignment helpers, symbolic offset */
  if(sym_param("align",0)){ uint off=(uint)sym_range("off",0,1<<20); size_t x=align_as(double,off); sym_assert((x>=off)&(x<off+sizeof(double))&(x%sizeof(double)==0),"align_as");
    size_t y=align_as(E,off); sym_assert((y>=off)&(y-off<ALIGNOF(E))&(y%ALIGNOF(E)==0),"align_as struct"); }
  sym_assert(sym_live_allocs()==0,"array leaks memory");
  sym_require_cover("end"); sym_cover("end");
}
