/* C01/T01/T02: crystal_router, sarray_transfer and friends deliver every record
   exactly once, intact, to the process it names.
   params: np, op (see below), pat 0: every rank has 0..n records with arbitrary targets
           pat 1: one rank (any) has n records with arbitrary targets, the others a fixed pattern
           big: extra words in each router message; cap: spare capacity (many: bit per array); rep: each chosen record stands for rep records
           pat 2: all-to-all, n records per pair;  pat 3: everything to one (any) rank */
#include "common.h"
#define MAXP 10
#define MAXR 600
struct rec { int tgt,len; uint data[4]; double val; };
struct sh { int np,op,big,ext,set_src,n[MAXP],lay,cap; struct rec r[MAXP][MAXR]; int got[MAXP][MAXR]; int bad[8]; int total[MAXP]; int back[MAXP][MAXR]; };
/* three struct layouts: proc first, middle, last */
struct A0 { uint proc; uint src,seq; uint d[4]; double v; };
struct A1 { double v; uint src; uint proc; uint seq; unsigned char pad; uint d[4]; };
struct A2 { uint d[4]; uint src; uint seq; double v; uint x; uint proc; };
struct A3 { unsigned char c[6]; uint proc; unsigned char e[3]; }; /* odd sizes: src=c[0] seq=c[1] d=e[0..2] */
struct only { uint proc; };

static void router(int id,struct sh *s,const struct comm *c){
  struct crystal cr; int i,k; uint *p; crystal_init(&cr,c);
  size_t tot=0; for(i=0;i<s->n[id];i++) tot+=3+s->r[id][i].len+s->big;
  cr.data.n=tot; p=buffer_reserve(&cr.data,tot*sizeof(uint));
  for(i=0;i<s->n[id];i++){ struct rec *r=&s->r[id][i]; *p++=r->tgt; *p++=id; *p++=r->len+s->big; if(r->len) *p++=i; for(k=1;k<r->len;k++) *p++=r->data[k-1]; for(k=0;k<s->big;k++) *p++=id*1000+i*400+k; }
  crystal_router(&cr);
  { const uint *q=cr.data.ptr,*e=q+cr.data.n; int cnt=0;
    while(q<e){ uint t=q[0],src=q[1],len=q[2]; const uint *w=q+3; q+=3+len; cnt++;
      sym_assert(q<=e,"crystal_router: malformed message list"); if(q>e) break;
      sym_assert(len>=(uint)s->big,"crystal_router: message length changed"); if(len<(uint)s->big) break; len-=s->big;
      sym_assert(t==(uint)id,"crystal_router: message delivered to the wrong process");
      sym_assert(src<(uint)s->np,"crystal_router: source changed"); if(src>=(uint)s->np) break;
      if(len==0){ s->got[src][MAXR-1]++; continue; }
      uint seq=w[0]; sym_assert(seq<(uint)s->n[src],"crystal_router: payload changed"); if(seq>=(uint)s->n[src]) break;
      struct rec *r=&s->r[src][seq]; s->got[src][seq]++;
      sym_assert(r->tgt==id,"crystal_router: message delivered to the wrong process");
      sym_assert(r->len==(int)len,"crystal_router: message length changed");
      int ok=1; for(k=1;k<(int)len&&k<r->len;k++) ok&=(w[k]==r->data[k-1]); for(k=0;k<s->big;k++) ok&=w[len+k]==src*1000+seq*400+k; sym_assert(ok,"crystal_router: payload changed"); }
    s->total[id]=cnt; }
  crystal_free(&cr);
}
#define CHECK(SRC,SEQ,OK) do{ uint src_=(SRC),seq_=(SEQ); \
   sym_assert(src_<(uint)s->np&&seq_<(uint)s->n[src_<(uint)s->np?src_:0],"sarray_transfer: record corrupted"); \
   if(src_<(uint)s->np&&seq_<(uint)s->n[src_]){ struct rec *r=&s->r[src_][seq_]; s->got[src_][seq_]++; \
     sym_assert(r->tgt==id,"sarray_transfer: record delivered to the wrong process"); \
     sym_assert(OK,"sarray_transfer: record contents changed"); } }while(0)
#define DOK(E) (((E)->d[0]==r->data[0])&((E)->d[1]==r->data[1])&((E)->d[2]==r->data[2])&((E)->d[3]==r->data[3])&((E)->v==r->val))
#define TRANSFER(TY,FILL,SRC,SEQ,OK) do{ \
  struct array A=null_array; TY *e; uint *proc=0; int i; \
  array_init(TY,&A,s->n[id]+s->cap*5); A.n=s->n[id]; e=A.ptr; proc=malloc(3*sizeof(uint)*(A.n+1)); \
  for(i=0;i<(int)A.n;i++,e++){ struct rec *r=&s->r[id][i]; memset(e,0,sizeof *e); e->proc=s->ext?12345u+i:(uint)r->tgt; proc[3*i]=r->tgt; proc[3*i+1]=77; proc[3*i+2]=99; FILL; } \
  if(s->ext) sarray_transfer_ext(TY,&A,proc,3*sizeof(uint),&cr); \
  else sarray_transfer(TY,&A,proc,s->set_src,&cr); \
  s->total[id]=A.n; sym_assert(A.max>=A.n,"sarray_transfer: capacity below count"); \
  for(i=0,e=A.ptr;i<(int)A.n;i++,e++){ CHECK(SRC,SEQ,OK); \
    if(s->ext) sym_assert(e->proc==12345u+(SEQ),"sarray_transfer_ext: record contents changed"); \
    else sym_assert(e->proc==(s->set_src?(uint)(SRC):(uint)id),"sarray_transfer: proc field not the source (set_src) / this process"); } \
  if(!s->ext&&s->set_src){ sarray_transfer(TY,&A,proc,1,&cr); \
    sym_assert((int)A.n==s->n[id],"sarray_transfer: two transfers do not return every record"); \
    for(i=0,e=A.ptr;i<(int)A.n;i++,e++){ uint sq=(SEQ); sym_assert((SRC)==(uint)id&&sq<(uint)s->n[id],"sarray_transfer: second transfer does not return to the origin"); \
      if((SRC)==(uint)id&&sq<(uint)s->n[id]){ struct rec *r=&s->r[id][sq]; s->back[id][sq]++; sym_assert(OK,"sarray_transfer: record contents changed by round trip"); sym_assert(e->proc==(uint)r->tgt,"sarray_transfer: round trip does not restore the target"); } } } \
  array_free(&A); free(proc); }while(0)

static void many(int id,struct sh *s,struct crystal *cr){
  /* three parallel arrays: ints (with proc unless ext), longs, doubles */
  struct { uint a,proc,src,seq; } *x; ulong (*y)[2]; double *z; int i; uint n;
  struct array A[3]={null_array,null_array,null_array}; struct array *Ap[3]={&A[0],&A[1],&A[2]};
  unsigned size[3]={4*sizeof(uint),2*sizeof(ulong),sizeof(double)}; uint *proc=malloc(sizeof(uint)*(s->n[id]+1));
  if(s->lay==1) size[1]=0; 
  array_init_(&A[0],s->n[id]+(s->cap>>0&1)*60,4*sizeof(uint),"",0); array_init_(&A[1],s->n[id]+(s->cap>>1&1)*60,2*sizeof(ulong),"",0); array_init_(&A[2],s->n[id]+(s->cap>>2&1)*60,sizeof(double),"",0);
  A[0].n=A[1].n=A[2].n=s->n[id];
  x=A[0].ptr; y=A[1].ptr; z=A[2].ptr;
  for(i=0;i<s->n[id];i++){ struct rec *r=&s->r[id][i]; x[i].a=r->data[0]; x[i].proc=s->ext?555:r->tgt; x[i].src=id; x[i].seq=i; y[i][0]=r->data[1]; y[i][1]=(((ulong)r->data[2]<<16)<<16)|r->data[3]; z[i]=r->val; proc[i]=r->tgt; }
  n= s->ext? sarray_transfer_many(Ap,size,3,0,1,0,0,proc,sizeof(uint),cr)
           : sarray_transfer_many(Ap,size,3,0,0,s->set_src,sizeof(uint),&x[0].proc,4*sizeof(uint),cr);
  sym_assert(A[0].n==n&&A[1].n==n&&A[2].n==n,"sarray_transfer_many: arrays disagree on the count");
  s->total[id]=n; x=A[0].ptr; y=A[1].ptr; z=A[2].ptr;
  for(i=0;i<(int)n;i++) CHECK(x[i].src,x[i].seq,(x[i].a==r->data[0])&(s->lay==1||((y[i][0]==r->data[1])&(y[i][1]==((((ulong)r->data[2]<<16)<<16)|r->data[3]))))&(z[i]==r->val)&(x[i].proc==(s->ext?555u:s->set_src?x[i].src:(uint)id)));
  free(proc); for(i=0;i<3;i++) array_free(&A[i]);
}
static void rank_main(int id,void *arg){
  struct sh *s=arg; struct comm c; comm_init(&c,MPI_COMM_WORLD);
  if(s->op==0) router(id,s,&c);
  else { struct crystal cr; crystal_init(&cr,&c);
    if(s->op==1) switch(s->lay){
      case 0: TRANSFER(struct A0,(e->src=id,e->seq=i,memcpy(e->d,r->data,sizeof e->d),e->v=r->val),e->src,e->seq,DOK(e)); break;
      case 1: TRANSFER(struct A1,(e->src=id,e->seq=i,memcpy(e->d,r->data,sizeof e->d),e->v=r->val),e->src,e->seq,DOK(e)); break;
      case 2: TRANSFER(struct A2,(e->src=id,e->seq=i,memcpy(e->d,r->data,sizeof e->d),e->v=r->val),e->src,e->seq,DOK(e)); break;
      case 3: TRANSFER(struct A3,(e->c[0]=id,e->c[1]=i,e->c[2]=0xab,e->e[0]=(unsigned char)r->data[0],e->e[2]=(unsigned char)r->data[1]),(uint)e->c[0],(uint)e->c[1],((e->e[0]==(unsigned char)r->data[0])&(e->e[2]==(unsigned char)r->data[1])&(e->c[2]==0xab))); break;
    } else if(s->op==2) many(id,s,&cr);
    else if(s->op==3){ /* only the target field: counts per source */
      struct array A=null_array; struct only *e; int i; array_init(struct only,&A,s->n[id]); A.n=s->n[id]; e=A.ptr; for(i=0;i<s->n[id];i++) e[i].proc=s->r[id][i].tgt;
      sarray_transfer(struct only,&A,proc,1,&cr); s->total[id]=A.n; e=A.ptr;
      for(i=0;i<(int)A.n;i++){ sym_assert(e[i].proc<(uint)s->np,"sarray_transfer: bad source"); if(e[i].proc<(uint)s->np) s->back[e[i].proc][id]++; }
      array_free(&A); }
    crystal_free(&cr); }
  comm_free(&c);
  sym_assert(sym_live_allocs()==0,"transfer leaks memory"); sym_assert(sym_live_comms()==0,"transfer leaks a communicator");
}
void harness_main(void){
  struct sh *s=sym_shared(sizeof *s); int p,i,k; int np=sym_param("np",2),n=sym_param("n",1),pat=sym_param("pat",0),lens=sym_param("lens",0);
  s->np=np; s->op=sym_param("op",0); s->big=sym_param("big",0); s->ext=sym_param("ext",0); s->set_src=sym_param("src",1); s->lay=sym_param("lay",0); s->cap=sym_param("cap",0);
  int f= pat==1||pat==3 ? sym_choice("focus",np) : -1;
  int rep=sym_param("rep",1);
  for(p=0;p<np;p++){
    s->n[p]= pat==0 ? sym_choice("n",n+1) : pat==1 ? (p==f?n:(p*5+1)%3) : pat==2 ? n*np : n;
    if(s->big&&pat!=0&&s->n[p]>2) s->n[p]=2;
    s->n[p]*=rep;
    for(i=0;i<s->n[p];i++){ struct rec *r=&s->r[p][i]; if(i%rep){ *r=r[-1]; for(k=0;k<4;k++) r->data[k]=i*17+k; r->val=i; continue; }
      r->tgt= pat==0||(pat==1&&p==f) ? sym_choice("tgt",np) : pat==1 ? (p*3+i+1)%np : pat==2 ? i%np : f;
      r->len= s->op?4: s->big?3: lens? (pat==0||p==f? sym_choice("len",lens): (p+i)%5) : (p*2+i+1)%5;
      for(k=0;k<4;k++) r->data[k]=sym_i32("d"); r->val=sym_real("v"); } }
  sym_run_ranks(np,rank_main,s);
  if(s->op==3){ for(p=0;p<np;p++) for(k=0;k<np;k++){ int w=0; for(i=0;i<s->n[p];i++) w+=s->r[p][i].tgt==k; sym_assert(s->back[p][k]==w,"sarray_transfer: record lost or duplicated"); } }
  else for(p=0;p<np;p++){ int zero=0; for(i=0;i<s->n[p];i++){ if(s->op==0&&s->r[p][i].len==0){ zero++; continue; }
      sym_assert(s->got[p][i]==1,"record not delivered exactly once");
      if(s->op==1&&!s->ext&&s->set_src) sym_assert(s->back[p][i]==1,"record not returned exactly once"); }
    if(s->op==0) sym_assert(s->got[p][MAXR-1]==zero,"empty message not delivered exactly once"); }
  for(p=0;p<np;p++){ int w=0; for(k=0;k<np;k++) for(i=0;i<s->n[k];i++) w+=s->r[k][i].tgt==p; sym_assert(s->total[p]==w,"received count differs from the number of records sent here"); sym_observe_i("total",s->total[p]); }
  sym_require_cover("end"); sym_cover("end");
}
