/* S02: sarray_sort{,_2,_3,_4} and sarray_permute move whole records, order them
   lexicographically by the listed keys, stably.
   params: keys = number of keys 1..4, rot = rotation of the key/field assignment, n
           op 0 sort, 1 sarray_permute with an arbitrary permutation, 2 sarray_permute_buf, 3 perm_invert */
#include "common.h"
typedef struct { unsigned char tag[3]; uint a; unsigned char t2; ulong b; double c; float d; unsigned char tail; uint idx; } R;
#define MAXN 12
static void rel(const R *x,const R *y,int f,int *lt,int *eq){
  switch(f){
    case 0: *lt=x->a<y->a; *eq=x->a==y->a; break;
    case 1: *lt=x->b<y->b; *eq=x->b==y->b; break;
    case 2: *lt=x->d<y->d; *eq=x->d==y->d; break;
    default: *lt=x->c<y->c; *eq=x->c==y->c; break;
  }
}
/* field f (0..3) is of type is_long==f */
void harness_main(void){
  int n=sym_param("n",3),keys=sym_param("keys",1),rot=sym_param("rot",0),op=sym_param("op",0),small=sym_param("small",0),i,j;
  R A[MAXN],O[MAXN]; buffer b=null_buffer; memset(A,0,sizeof A); memset(O,0,sizeof O);
  for(i=0;i<n;i++){ R *r=&A[i]; memset(r,0,sizeof *r);
    r->tag[0]=(unsigned char)sym_i32("tag"); r->tag[2]=i; r->t2=(unsigned char)sym_i32("t2"); r->tail=0x77-i;
    r->a= small?(uint)sym_choice("a",2):(uint)sym_i32("a"); r->b=small?(ulong)sym_choice("b",2)<<40:(ulong)sym_i64("b");
    r->c=sym_real("c"); r->d=sym_realf("d"); r->idx=i; O[i]=*r; }
  if(op==0){
    static int F[4];
    for(i=0;i<4;i++) F[i]=(i+rot)%4;
#define S1(f1,k1) sarray_sort(R,A,n,f1,k1,&b)
    switch(keys*10+rot){
      case 10: sarray_sort(R,A,n,a,0,&b); break;
      case 11: sarray_sort(R,A,n,b,1,&b); break;
      case 12: sarray_sort(R,A,n,d,2,&b); break;
      case 13: sarray_sort(R,A,n,c,3,&b); break;
      case 20: sarray_sort_2(R,A,n,a,0,b,1,&b); break;
      case 21: sarray_sort_2(R,A,n,b,1,d,2,&b); break;
      case 22: sarray_sort_2(R,A,n,d,2,c,3,&b); break;
      case 23: sarray_sort_2(R,A,n,c,3,a,0,&b); break;
      case 30: sarray_sort_3(R,A,n,a,0,b,1,d,2,&b); break;
      case 31: sarray_sort_3(R,A,n,b,1,d,2,c,3,&b); break;
      case 32: sarray_sort_3(R,A,n,d,2,c,3,a,0,&b); break;
      case 33: sarray_sort_3(R,A,n,c,3,a,0,b,1,&b); break;
      case 40: sarray_sort_4(R,A,n,a,0,b,1,d,2,c,3,&b); break;
      case 41: sarray_sort_4(R,A,n,b,1,d,2,c,3,a,0,&b); break;
      case 42: sarray_sort_4(R,A,n,d,2,c,3,a,0,b,1,&b); break;
      case 43: sarray_sort_4(R,A,n,c,3,a,0,b,1,d,2,&b); break;
    }
    /* records intact: idx values are a permutation and the record at idx is bitwise the original */
    int seen[MAXN]={0},whole=1,perm=1;
    for(i=0;i<n;i++){ uint q=sym_concretize(A[i].idx); if(q>=(uint)n){ perm=0; continue; } seen[q]++; 
      R *x=&A[i],*y=&O[q];
      whole&=(x->tag[0]==y->tag[0])&(x->tag[2]==y->tag[2])&(x->t2==y->t2)&(x->tail==y->tail)&(x->a==y->a)&(x->b==y->b)&(x->c==y->c)&(x->d==y->d); }
    for(i=0;i<n;i++) perm&=seen[i]==1;
    sym_assert(perm,"sarray_sort: records lost or duplicated");
    sym_assert(whole,"sarray_sort: record torn apart");
    for(i=0;i+1<n;i++){ int gt=0,eq=1; for(j=0;j<keys;j++){ int lt,e; rel(&A[i+1],&A[i],F[j],&lt,&e); gt|=SYM_AND(eq,lt); eq=SYM_AND(eq,e); }
      sym_assert(!gt,"sarray_sort: not in lexicographic key order"); sym_assert(SYM_IMP(eq,A[i].idx<A[i+1].idx),"sarray_sort: equal records reordered"); }

  } else {
    uint p[MAXN+1]; 
    for(i=0;i<n;i++) p[i]=i;
    for(i=n-1;i>0;i--){ int c=sym_choice("perm",i+1); uint t=p[i]; p[i]=p[c]; p[c]=t; }
    uint p0[MAXN]; memcpy(p0,p,sizeof p0);
    if(op==1){ R w; sarray_permute(R,A,n,p,&w); }
    else if(op==2){ buffer_reserve(&b,n*sizeof(uint)); if(n) memcpy(b.ptr,p,n*sizeof(uint)); sarray_permute_buf(R,A,n,&b); }
    else { uint inv[MAXN]; sarray_perm_invert(inv,p,n); for(i=0;i<n;i++) sym_assert(inv[p[i]]==(uint)i,"sarray_perm_invert"); }
    if(op<3) for(i=0;i<n;i++){ R *x=&A[i],*y=&O[p0[i]];
      sym_assert((x->tag[0]==y->tag[0])&(x->tag[2]==y->tag[2])&(x->t2==y->t2)&(x->tail==y->tail)&(x->a==y->a)&(x->b==y->b)&(x->c==y->c)&(x->d==y->d)&(x->idx==y->idx),"sarray_permute: A[i] is not the old A[perm[i]]"); }
  }
  for(i=0;i<n;i++) sym_observe_i("idx",A[i].idx);
  buffer_free(&b);
  sym_assert(sym_live_allocs()==0,"sarray_sort leaks memory");
  sym_require_cover("end"); sym_cover("end");
}
