/* Native counterpart of the executor: runs the same harness against natively
   compiled gslib sources with inputs taken from a witness file (replay) or
   drawn at random (validation of the executor).  Ranks are forked processes;
   MPI_* is implemented over shared memory.
   env: SYM_WITNESS file, SYM_RANDOM seed (then SYM_WRITE file records inputs),
        SYM_PARAMS "a=1,b=2", SYM_LATE=1 (sends read their buffer at the last
        moment MPI allows), SYM_OBSERVE file */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <math.h>
#include <pthread.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include "mpi.h"
#include "sym.h"
void harness_main(void);
#ifndef HARNESS_ENTRY
#define HARNESS_ENTRY harness_main
#endif
void HARNESS_ENTRY(void);

/* ---- allocation accounting (link with --wrap) */
static long live_allocs;
void *__real_malloc(size_t); void *__real_calloc(size_t,size_t); void *__real_realloc(void*,size_t); void __real_free(void*);
static int counting=0;
void *__wrap_malloc(size_t n){ void*p=__real_malloc(n); if(p&&counting) live_allocs++; return p; }
void *__wrap_calloc(size_t a,size_t b){ void*p=__real_calloc(a,b); if(p&&counting) live_allocs++; return p; }
void *__wrap_realloc(void*q,size_t n){ if(q&&n==0){ __real_free(q); if(counting) live_allocs--; return 0; } void*p=__real_realloc(q,n); if(p&&!q&&counting) live_allocs++; return p; }
void __wrap_free(void*p){ if(p&&counting) live_allocs--; __real_free(p); }

/* ---- shared arena */
typedef struct Msg { struct Msg *next; int comm,src,dst,tag; size_t n; int taken; unsigned char d[]; } Msg;
typedef struct Rec { struct Rec *next; int comm; unsigned long seq; int kind,count; int newbase; void *blob[64]; size_t n[64]; } Rec;
typedef struct { pthread_mutex_t mu; pthread_cond_t cv; char *top,*end; Msg *msgs; Rec *recs; int nextcomm; int abortflag; int np; volatile int blocked; } Sh;
static Sh *S; static size_t ARENA=(size_t)1<<31;
static void lock_(void){ pthread_mutex_lock(&S->mu); } static void unlock_(void){ pthread_mutex_unlock(&S->mu); }
static void *aalloc(size_t n){ n=(n+15)/16*16; char*p=S->top; if(p+n>S->end){ fprintf(stderr,"native: arena exhausted\n"); _exit(90);} S->top+=n; return p; }
static void init_shared(void){ if(S) return; char*m=mmap(0,ARENA,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(m==MAP_FAILED){ perror("mmap"); _exit(90);} S=(Sh*)m; S->top=m+4096; S->end=m+ARENA;
  pthread_mutexattr_t a; pthread_mutexattr_init(&a); pthread_mutexattr_setpshared(&a,PTHREAD_PROCESS_SHARED); pthread_mutex_init(&S->mu,&a); pthread_condattr_t c; pthread_condattr_init(&c); pthread_condattr_setpshared(&c,PTHREAD_PROCESS_SHARED); pthread_cond_init(&S->cv,&c); S->nextcomm=100; }
static int myrank=-1,worldnp=1,late=0;
static void die_(int code,const char*fmt,...){ va_list ap; va_start(ap,fmt); fprintf(stderr,"NATIVE rank %d: ",myrank); vfprintf(stderr,fmt,ap); fprintf(stderr,"\n"); va_end(ap); fflush(stderr); _exit(code); }

/* ---- communicators (private tables) */
typedef struct { int id,np,rank,freed; int mem[64]; unsigned long seq; } Comm;
static Comm ctab[4096]; static int nct; static long live_comms,live_reqs;
static Comm *getc_(MPI_Comm h){ int i; for(i=0;i<nct;i++) if(ctab[i].id==h){ if(ctab[i].freed) die_(77,"MPI call on freed communicator"); return &ctab[i]; } die_(77,"invalid communicator %d",h); return 0; }
static void comm_world(int np,int rank){ nct=0; Comm*c=&ctab[nct++]; memset(c,0,sizeof*c); c->id=1; c->np=np; c->rank=rank; for(int i=0;i<np;i++) c->mem[i]=i; c=&ctab[nct++]; memset(c,0,sizeof*c); c->id=2; c->np=1; c->mem[0]=rank; live_comms=live_reqs=0; }
/* ---- requests */
enum { R_SEND=1,R_RECV,R_COLL };
typedef struct { int kind,comm,peer,tag,done,active,op,dt,cnt; const void *sb; void *rb; size_t n; unsigned long seq; Rec *rec; } Req;
static Req rq[1<<16]; static int nrq;
static Rec *rec_get(int comm,unsigned long seq,int kind){ Rec*r; for(r=S->recs;r;r=r->next) if(r->comm==comm&&r->seq==seq) break; if(!r){ r=aalloc(sizeof*r); memset(r,0,sizeof*r); r->comm=comm; r->seq=seq; r->kind=kind; r->newbase=S->nextcomm; S->nextcomm+=64; r->next=S->recs; S->recs=r; } if(r->kind!=kind) die_(77,"collective mismatch (%d vs %d)",r->kind,kind); return r; }
/* SELF communicators share id 2 between ranks: make the key unique */
static int ckey(Comm*c){ return c->id==2?1000000+myrank:c->id; }
static void post_blob(Rec*r,int rank,const void*p,size_t n){ r->blob[rank]=aalloc(n+1); if(n) memcpy(r->blob[rank],p,n); r->n[rank]=n; r->count++; pthread_cond_broadcast(&S->cv); }
static void flush_sends(void){ for(int i=0;i<nrq;i++){ Req*q=&rq[i]; if(!q->active||q->done) continue; if(q->kind==R_SEND){ Comm*c=getc_(q->comm); Msg*m=aalloc(sizeof*m+q->n); m->comm=ckey(c); m->src=c->mem[c->rank]; m->dst=c->mem[q->peer]; m->tag=q->tag; m->n=q->n; m->taken=0; if(q->n) memcpy(m->d,q->sb,q->n); m->next=0; Msg**t=&S->msgs; while(*t) t=&(*t)->next; *t=m; q->done=1; pthread_cond_broadcast(&S->cv); } else if(q->kind==R_COLL&&!q->rec){ Comm*c=getc_(q->comm); Rec*r=rec_get(ckey(c),q->seq,11); post_blob(r,c->rank,q->sb,q->n); q->rec=r; } } }
static int try_recv(Req*q){ Comm*c=getc_(q->comm); Msg*m; for(m=S->msgs;m;m=m->next) if(!m->taken&&m->comm==ckey(c)&&m->src==c->mem[q->peer]&&m->dst==c->mem[c->rank]&&m->tag==q->tag) break; if(!m) return 0; if(m->n>q->n) die_(77,"message truncation %zu > %zu",m->n,q->n); if(m->n) memcpy(q->rb,m->d,m->n); m->taken=1; q->done=1; pthread_cond_broadcast(&S->cv); return 1; }
/* receives on the same (src,tag) complete in posting order */
static void progress_recvs(void){ for(int i=0;i<nrq;i++) if(rq[i].active&&!rq[i].done&&rq[i].kind==R_RECV) try_recv(&rq[i]); }
static int newreq(int kind,Comm*c,int peer,int tag,const void*sb,void*rb,size_t n){ if(nrq>=(1<<16)) die_(90,"too many requests"); Req*q=&rq[nrq]; memset(q,0,sizeof*q); q->kind=kind; q->comm=c->id; q->peer=peer; q->tag=tag; q->sb=sb; q->rb=rb; q->n=n; q->active=1; live_reqs++; if(peer<0||peer>=c->np) die_(77,"peer %d out of range",peer); return nrq++; }
static size_t dts(int dt){ return dt&0xff; }
static void wait_(void){ pthread_cond_wait(&S->cv,&S->mu); }
static void redacc(int op,int dt,void*a,const void*b,int n){ int i;
#define RED(T) do{ T*x=a; const T*y=b; for(i=0;i<n;i++) switch(op){ case 1:x[i]=x[i]+y[i];break; case 2:x[i]=x[i]*y[i];break; case 3:if(y[i]<x[i])x[i]=y[i];break; case 4:if(y[i]>x[i])x[i]=y[i];break; default: die_(90,"op"); } }while(0)
  switch(dt){ case MPI_DOUBLE: RED(double); break; case MPI_FLOAT: RED(float); break; case MPI_INT: RED(int); break; case MPI_LONG: RED(long); break; case MPI_LONG_LONG: RED(long long); break; case MPI_UNSIGNED: RED(unsigned); break; case MPI_UNSIGNED_LONG: RED(unsigned long); break; case MPI_UNSIGNED_LONG_LONG: RED(unsigned long long); break; case MPI_UNSIGNED_CHAR: RED(unsigned char); break; default: die_(90,"datatype %x",dt); } }
static void finish_coll(Req*q){ Comm*c=getc_(q->comm); while(q->rec->count<c->np) wait_(); if(q->rec->n[0]) memcpy(q->rb,q->rec->blob[0],q->n); for(int i=1;i<c->np;i++){ if(q->rec->n[i]!=q->n) die_(77,"collective size mismatch"); redacc(q->op,q->dt,q->rb,q->rec->blob[i],q->cnt); } q->done=1; }
static Rec *xchg(MPI_Comm h,int kind,const void*p,size_t n){ Comm*c=getc_(h); lock_(); flush_sends(); Rec*r=rec_get(ckey(c),c->seq++,kind); post_blob(r,c->rank,p,n); while(r->count<c->np) wait_(); unlock_(); return r; }
int MPI_Init(int*a,char***b){ return 0; } int MPI_Finalize(void){ return 0; } int MPI_Initialized(int*f){ *f=1; return 0; }
int MPI_Abort(MPI_Comm c,int e){ die_(78,"MPI_Abort"); return 0; }
double sym_real_range(const char*,double,double); int sym_param(const char*,int);
double MPI_Wtime(void){ if(sym_param("wtime",0)) return sym_real_range("wtime",0,1000); static double t; return t+=1e-3; }
MPI_Comm MPI_Comm_f2c(MPI_Fint f){ return f; } MPI_Fint MPI_Comm_c2f(MPI_Comm c){ return c; }
int MPI_Comm_rank(MPI_Comm h,int*r){ *r=getc_(h)->rank; return 0; } int MPI_Comm_size(MPI_Comm h,int*r){ *r=getc_(h)->np; return 0; }
int MPI_Comm_dup(MPI_Comm h,MPI_Comm*o){ Rec*r=xchg(h,9,0,0); Comm*c=getc_(h); Comm*d=&ctab[nct++]; *d=*c; d->id=r->newbase+(c->id==2?0:0); d->seq=0; d->freed=0; *o=d->id; live_comms++; return 0; }
int MPI_Comm_split(MPI_Comm h,int color,int key,MPI_Comm*o){ int ck[2]={color,key}; Rec*r=xchg(h,10,ck,sizeof ck); Comm*c=getc_(h); if(color==MPI_UNDEFINED){ *o=0; return 0; } int idx=0,i,j; int colors[64],nc=0; for(i=0;i<c->np;i++){ int*b=r->blob[i]; int k; for(k=0;k<nc;k++) if(colors[k]==b[0]) break; if(k==nc) colors[nc++]=b[0]; } for(idx=0;idx<nc;idx++) if(colors[idx]==color) break; Comm*d=&ctab[nct++]; memset(d,0,sizeof*d); d->id=r->newbase+idx; int mem[64],ks[64],m=0; for(i=0;i<c->np;i++){ int*b=r->blob[i]; if(b[0]==color){ mem[m]=c->mem[i]; ks[m]=b[1]; m++; } } for(i=1;i<m;i++) for(j=i;j>0&&ks[j-1]>ks[j];j--){ int t=ks[j];ks[j]=ks[j-1];ks[j-1]=t; t=mem[j];mem[j]=mem[j-1];mem[j-1]=t; } d->np=m; for(i=0;i<m;i++){ d->mem[i]=mem[i]; if(mem[i]==myrank) d->rank=i; } *o=d->id; live_comms++; return 0; }
int MPI_Comm_free(MPI_Comm*h){ Comm*c=getc_(*h); if(c->id<=2) die_(77,"freeing predefined communicator"); c->freed=1; *h=0; live_comms--; return 0; }
int MPI_Barrier(MPI_Comm h){ xchg(h,1,0,0); return 0; }
int MPI_Isend(const void*p,int n,MPI_Datatype dt,int dst,int tag,MPI_Comm h,MPI_Request*r){ Comm*c=getc_(h); if(n<0) die_(77,"negative count"); lock_(); int k=newreq(R_SEND,c,dst,tag,p,0,n*dts(dt)); if(!late) flush_sends(); unlock_(); *r=k+1; return 0; }
int MPI_Irecv(void*p,int n,MPI_Datatype dt,int src,int tag,MPI_Comm h,MPI_Request*r){ Comm*c=getc_(h); if(n<0) die_(77,"negative count"); lock_(); int k=newreq(R_RECV,c,src,tag,0,p,n*dts(dt)); if(!late) progress_recvs(); unlock_(); *r=k+1; return 0; }
static void waitreq(int k){ Req*q=&rq[k]; if(q->kind==R_COLL) finish_coll(q); while(!q->done){ progress_recvs(); if(!q->done) wait_(); } q->active=0; live_reqs--; }
int MPI_Waitall(int n,MPI_Request*r,MPI_Status*s){ lock_(); flush_sends(); for(int i=0;i<n;i++){ int k=r[i]-1; if(k==-1) continue; if(k<0||k>=nrq||!rq[k].active) die_(77,"wait on invalid request %d",r[i]); waitreq(k); r[i]=0; } unlock_(); return 0; }
int MPI_Wait(MPI_Request*r,MPI_Status*s){ return MPI_Waitall(1,r,s); }
int MPI_Send(const void*p,int n,MPI_Datatype dt,int dst,int tag,MPI_Comm h){ MPI_Request r; MPI_Isend(p,n,dt,dst,tag,h,&r); lock_(); flush_sends(); Comm*c=getc_(h); /* rendezvous: wait until taken */ Msg*m,*mine=0; for(m=S->msgs;m;m=m->next) if(m->comm==ckey(c)&&m->src==c->mem[c->rank]&&m->dst==c->mem[dst]&&m->tag==tag) mine=m; while(mine&&!mine->taken) wait_(); unlock_(); return MPI_Wait(&r,0); }
int MPI_Ssend(const void*p,int n,MPI_Datatype dt,int dst,int tag,MPI_Comm h){ return MPI_Send(p,n,dt,dst,tag,h); }
int MPI_Recv(void*p,int n,MPI_Datatype dt,int src,int tag,MPI_Comm h,MPI_Status*s){ MPI_Request r; MPI_Irecv(p,n,dt,src,tag,h,&r); return MPI_Wait(&r,s); }
int MPI_Bcast(void*p,int n,MPI_Datatype dt,int root,MPI_Comm h){ Comm*c=getc_(h); Rec*r=xchg(h,2,p,n*dts(dt)); if(c->rank!=root&&n) memcpy(p,r->blob[root],n*dts(dt)); return 0; }
int MPI_Gather(const void*s,int n,MPI_Datatype dt,void*o,int n2,MPI_Datatype dt2,int root,MPI_Comm h){ Comm*c=getc_(h); Rec*r=xchg(h,3,s,n*dts(dt)); if(c->rank==root) for(int i=0;i<c->np;i++) memcpy((char*)o+i*n2*dts(dt2),r->blob[i],n*dts(dt)); return 0; }
int MPI_Allgather(const void*s,int n,MPI_Datatype dt,void*o,int n2,MPI_Datatype dt2,MPI_Comm h){ Comm*c=getc_(h); Rec*r=xchg(h,4,s,n*dts(dt)); for(int i=0;i<c->np;i++) memcpy((char*)o+i*n2*dts(dt2),r->blob[i],n*dts(dt)); return 0; }
int MPI_Allreduce(const void*s,void*o,int n,MPI_Datatype dt,MPI_Op op,MPI_Comm h){ Comm*c=getc_(h); if(s==MPI_IN_PLACE) s=o; else if(n&&(const char*)s<(char*)o+n*dts(dt)&&(char*)o<(const char*)s+n*dts(dt)) die_(77,"aliased reduction buffers"); Rec*r=xchg(h,6,s,n*dts(dt)); for(int i=0;i<c->np;i++) if(r->n[i]!=r->n[0]) die_(77,"collective size mismatch"); if(n) memcpy(o,r->blob[0],n*dts(dt)); for(int i=1;i<c->np;i++) redacc(op,dt,o,r->blob[i],n); return 0; }
int MPI_Reduce(const void*s,void*o,int n,MPI_Datatype dt,MPI_Op op,int root,MPI_Comm h){ Comm*c=getc_(h); Rec*r=xchg(h,5,s,n*dts(dt)); if(c->rank==root){ memcpy(o,r->blob[0],n*dts(dt)); for(int i=1;i<c->np;i++) redacc(op,dt,o,r->blob[i],n);} return 0; }
int MPI_Scan(const void*s,void*o,int n,MPI_Datatype dt,MPI_Op op,MPI_Comm h){ Comm*c=getc_(h); if(s==MPI_IN_PLACE) s=o; Rec*r=xchg(h,7,s,n*dts(dt)); memcpy(o,r->blob[0],n*dts(dt)); for(int i=1;i<=c->rank;i++) redacc(op,dt,o,r->blob[i],n); return 0; }
int MPI_Exscan(const void*s,void*o,int n,MPI_Datatype dt,MPI_Op op,MPI_Comm h){ Comm*c=getc_(h); Rec*r=xchg(h,8,s,n*dts(dt)); if(c->rank){ memcpy(o,r->blob[0],n*dts(dt)); for(int i=1;i<c->rank;i++) redacc(op,dt,o,r->blob[i],n);} return 0; }
int MPI_Iallreduce(const void*s,void*o,int n,MPI_Datatype dt,MPI_Op op,MPI_Comm h,MPI_Request*r){ Comm*c=getc_(h); lock_(); int k=newreq(R_COLL,c,0,0,s,o,n*dts(dt)); rq[k].op=op; rq[k].dt=dt; rq[k].cnt=n; rq[k].seq=c->seq++; if(!late) flush_sends(); unlock_(); *r=k+1; return 0; }
int MPI_Get_count(const MPI_Status*s,MPI_Datatype d,int*n){ *n=0; return 0; }
int MPI_Ibarrier(MPI_Comm c,MPI_Request*r){ die_(90,"Ibarrier"); return 0; } int MPI_Test(MPI_Request*r,int*f,MPI_Status*s){ die_(90,"Test"); return 0; } int MPI_Testall(int n,MPI_Request*r,int*f,MPI_Status*s){ die_(90,"Testall"); return 0; }
int MPI_Sendrecv(const void*a,int b,MPI_Datatype c,int d,int e,void*f,int g,MPI_Datatype i,int j,int k,MPI_Comm l,MPI_Status*m){ MPI_Request r[2]; MPI_Irecv(f,g,i,j,k,l,&r[0]); MPI_Isend(a,b,c,d,e,l,&r[1]); return MPI_Waitall(2,r,0); }

/* ---- symbolic inputs */
static struct { char n[128],v[64]; char k; } *W; static int nW;
static uint64_t rs; static int randmode; static FILE *wout,*obs;
static uint64_t rnd(void){ rs^=rs<<13; rs^=rs>>7; rs^=rs<<17; return rs*0x2545F4914F6CDD1DULL; }
static struct { char n[96]; int c; } cnt[1024]; static int ncnt;
static const char *uname(const char*nm){ static char b[160]; int i; for(i=0;i<ncnt;i++) if(!strcmp(cnt[i].n,nm)) break; if(i==ncnt){ snprintf(cnt[i].n,96,"%s",nm); cnt[i].c=0; ncnt++; } if(myrank<0) snprintf(b,160,"m:%s#%d",nm,cnt[i].c++); else snprintf(b,160,"r%d:%s#%d",myrank,nm,cnt[i].c++); return b; }
static void loadw(void){ const char*f=getenv("SYM_WITNESS"); if(getenv("SYM_RANDOM")){ randmode=1; rs=strtoull(getenv("SYM_RANDOM"),0,10)*0x9E3779B97F4A7C15ULL+1; if(getenv("SYM_WRITE")){ wout=fopen(getenv("SYM_WRITE"),"w"); setvbuf(wout,0,_IOLBF,0);} } if(getenv("SYM_OBSERVE")){ int fd=open(getenv("SYM_OBSERVE"),O_CREAT|O_TRUNC|O_WRONLY|O_APPEND,0644); obs=fdopen(fd,"a"); setvbuf(obs,0,_IOLBF,0);} late=getenv("SYM_LATE")!=0; if(!f) return; FILE*i=fopen(f,"r"); if(!i){ perror(f); exit(91);} W=calloc(200000,sizeof*W); char k[8]; while(nW<200000&&fscanf(i,"%127s %7s %63s",W[nW].n,k,W[nW].v)==3) W[nW].k=k[0],nW++; fclose(i); }
static int find(const char*n){ static int last=0; int i,j; for(j=0;j<nW;j++){ i=(last+j)%nW; if(!strcmp(W[i].n,n)){ last=i; return i; } } return -1; }
static uint64_t getbits(const char*nm,int w,int hasr,int64_t lo,int64_t hi){ const char*u=uname(nm); uint64_t v; if(randmode){ uint64_t r=rnd(); if(hasr) v=(uint64_t)(lo+(int64_t)(rnd()%((uint64_t)(hi-lo)+1))); else { v=rnd(); if(r%3==0) v%=8; else if(r%5==0) v=(uint64_t)(int64_t)-(int64_t)(v%4); } if(w<64) v&=((uint64_t)1<<w)-1; if(wout) fprintf(wout,"%s c %llu\n",u,(unsigned long long)v); return v; } int i=find(u); if(i<0) return hasr&&(lo>0||hi<0)?(uint64_t)lo:0; if(W[i].k=='d'){ double d=strtod(W[i].v,0); memcpy(&v,&d,8); return v; } return strtoull(W[i].v,0,10); }
static double getdbl(const char*nm,int isint,int has,double lo,double hi){ const char*u=uname(nm); double d; if(randmode){ double t=(rnd()>>11)/9007199254740992.0; if(!has) lo=-8,hi=8; d=lo+t*(hi-lo); d=isint?floor(d+.5):floor(d*1024)/1024; if(d<lo) d=lo; if(d>hi) d=hi; if(wout) fprintf(wout,"%s d %.17g\n",u,d); return d; } int i=find(u); if(i<0) return has&&(lo>0||hi<0)?lo:0; if(W[i].k=='d') return strtod(W[i].v,0); return (double)(int64_t)strtoull(W[i].v,0,10); }
int32_t sym_i32(const char*n){ return (int32_t)getbits(n,32,0,0,0); } int64_t sym_i64(const char*n){ return (int64_t)getbits(n,64,0,0,0); }
int32_t sym_range(const char*n,int lo,int hi){ return (int32_t)getbits(n,32,1,lo,hi); } int64_t sym_range64(const char*n,int64_t lo,int64_t hi){ return (int64_t)getbits(n,64,1,lo,hi); }
int sym_choice(const char*n,int k){ return (int)getbits(n,32,1,0,k-1); }
double sym_real(const char*n){ return getdbl(n,0,0,0,0); } double sym_real_range(const char*n,double lo,double hi){ return getdbl(n,0,1,lo,hi); } float sym_realf(const char*n){ return (float)getdbl(n,0,0,0,0); } double sym_intreal(const char*n,int lo,int hi){ return getdbl(n,1,1,lo,hi); }
double sym_f64bits(const char*n){ uint64_t v=getbits(n,64,0,0,0); double d; memcpy(&d,&v,8); return d; } float sym_f32bits(const char*n){ uint32_t v=(uint32_t)getbits(n,32,0,0,0); float d; memcpy(&d,&v,4); return d; }
void sym_bytes(void*p,size_t n,const char*nm){ size_t i=0; while(i<n){ size_t k=n-i<8?n-i:8; uint64_t v=getbits(nm,8*(int)k,0,0,0); memcpy((char*)p+i,&v,k); i+=k; } }
int sym_param(const char*n,int d){ const char*e=getenv("SYM_PARAMS"); if(!e) return d; char k[128]; snprintf(k,128,"%s=",n); size_t l=strlen(k); while(e&&*e){ if(!strncmp(e,k,l)) return atoi(e+l); e=strchr(e,','); if(e) e++; } return d; }
void sym_assume(int c){ if(!c){ printf("NATIVE: assumption does not hold\n"); fflush(stdout); _exit(randmode?79:76); } }
void sym_assert(int c,const char*m){ if(!c){ printf("NATIVE: assertion failed: %s (rank %d)\n",m,myrank); fflush(stdout); _exit(77); } }
void sym_assert_id(int c,const char*m,int a,int b){ char t[256]; snprintf(t,256,"%s:%d:%d",m,a,b); sym_assert(c,t); }
void sym_assert_small(double e,double tol,const char*m,int a,int b){ sym_assert_id(fabs(e)<=tol,m,a,b); } void sym_assert_nonneg(double e,double tol,const char*m,int a,int b){ sym_assert_id(e>=-tol,m,a,b); } void sym_expand(int on){}
int sym_concretize(int v){ return v; } void sym_cover(const char*n){} void sym_require_cover(const char*n){} void sym_note(const char*w,long v){}
void sym_observe_i(const char*n,int64_t v){ if(obs) fprintf(obs,"r%d:%s %lld\n",myrank,n,(long long)v); } void sym_observe_f(const char*n,double v){ if(obs) fprintf(obs,"r%d:%s %.17g\n",myrank,n,v); }
int sym_is_symbolic(void){ return 0; }
void *sym_shared(size_t n){ init_shared(); lock_(); void*p=aalloc(n); memset(p,0,n); unlock_(); return p; }
long sym_live_allocs(void){ return live_allocs; } long sym_live_comms(void){ return live_comms; } long sym_live_reqs(void){ return live_reqs; }
static int allowexit; void sym_allow_exit(int on){ allowexit=on; }
int32_t sym_ite32(int c,int32_t a,int32_t b){ return c?a:b; } int64_t sym_ite64(int c,int64_t a,int64_t b){ return c?a:b; } double sym_itef(int c,double a,double b){ return c?a:b; }
void exit(int) __attribute__((noreturn));
void __wrap_exit(int st){ fflush(0); if(allowexit) _exit(0); fprintf(stderr,"NATIVE rank %d: exit(%d) called by the library\n",myrank,st); _exit(78); }
void sym_run_ranks(int np,void (*fn)(int,void*),void*arg){
  init_shared(); S->np=np; S->msgs=0; S->recs=0; fflush(0); pid_t pid[64]; worldnp=np;
  for(int i=0;i<np;i++){ pid[i]=fork(); if(pid[i]==0){ myrank=i; ncnt=0; nrq=0; rs+=i*77777; comm_world(np,i); live_allocs=0; counting=1; fn(i,arg); counting=0; if(live_reqs) die_(77,"nonblocking operation never waited for"); fflush(0); _exit(0); } }
  int bad=0; time_t t0=time(0); int left=np; while(left){ int st; pid_t p=waitpid(-1,&st,WNOHANG); if(p>0){ left--; int code=WIFEXITED(st)?WEXITSTATUS(st):128+WTERMSIG(st); if(code&&!bad) bad=code; if(bad){ for(int i=0;i<np;i++) kill(pid[i],SIGKILL); while(waitpid(-1,0,0)>0); left=0; } } else { usleep(500); if(time(0)-t0>20){ for(int i=0;i<np;i++) kill(pid[i],SIGKILL); while(waitpid(-1,0,0)>0); printf("NATIVE: ranks hang (deadlock)\n"); fflush(stdout); _exit(75); } } }
  if(bad){ fflush(0); _exit(bad); }
  for(Msg*m=S->msgs;m;m=m->next) if(!m->taken){ printf("NATIVE: message never received\n"); fflush(stdout); _exit(77); }
}
int main(void){ loadw(); comm_world(1,0); alarm(60); counting=1; HARNESS_ENTRY(); fflush(0); printf("NATIVE: completed\n"); fflush(stdout); _exit(0); }
