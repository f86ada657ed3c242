/* K01/K02: reductions, scans and the other collective helpers of comm.h on any process count.
   params: what 0 allreduce 1 scan 2 reduce 3 dot 4 split/bcast/gather/dup 5 iallreduce 6 messages between two processes
           dom 0 double 1 float 2 int 3 long 4 long long; op 0 add 1 mul 2 min 3 max 4 bpr; np, vn */
#include "common.h"
#define MAXP 10
#define MAXV 4
typedef union { double d; float f; int i; long l; long long ll; } val;
struct sh { int np,vn,dom,op,what,msgs; val v[MAXP][MAXV], w[MAXP][MAXV], out[MAXP][MAXV], red[MAXP][MAXV]; int n[MAXP]; int color[MAXP],key[MAXP]; };
static const size_t dsz[]={sizeof(double),sizeof(float),sizeof(int),sizeof(long),sizeof(long long)};
#define ALLDOM(X) switch(s->dom){ case 0: X(double,d); break; case 1: X(float,f); break; case 2: X(int,i); break; case 3: X(long,l); break; case 4: X(long long,ll); break; }
static void pack(struct sh *s,void *p,const val *v,int n){ int i; 
#define X(T,m) for(i=0;i<n;i++) ((T*)p)[i]=v[i].m
 ALLDOM(X)
#undef X
}
static void unpack(struct sh *s,val *v,const void *p,int n){ int i;
#define X(T,m) for(i=0;i<n;i++) v[i].m=((const T*)p)[i]
 ALLDOM(X)
#undef X
}
static unsigned bpr1(unsigned a,unsigned b){ if(!b) return a; if(!a) return b; while(a!=b){ if(a<b) b>>=1; else a>>=1; } return a; }
static void acc(struct sh *s,val *a,const val *b){
#define X(T,m) switch(s->op){ case 0: a->m+=b->m; break; case 1: a->m*=b->m; break; case 2: a->m=b->m<a->m?b->m:a->m; break; case 3: a->m=b->m>a->m?b->m:a->m; break; default: a->m=bpr1(a->m,b->m); }
 ALLDOM(X)
#undef X
}
static int same(struct sh *s,const val *a,const val *b){
  switch(s->dom){ case 0: return a->d==b->d; case 1: return a->f==b->f; case 2: return a->i==b->i; case 3: return a->l==b->l; } return a->ll==b->ll; }
static void ident(struct sh *s,val *a){
  switch(s->dom){ case 0: a->d=s->op==1?1:s->op==2?DBL_MAX:s->op==3?-DBL_MAX:0; break; case 1: a->f=s->op==1?1:s->op==2?FLT_MAX:s->op==3?-FLT_MAX:0; break;
    case 2: a->i=s->op==1?1:s->op==2?INT_MAX:s->op==3?INT_MIN:0; break; case 3: a->l=s->op==1?1:s->op==2?LONG_MAX:s->op==3?LONG_MIN:0; break; default: a->ll=s->op==1?1:s->op==2?LLONG_MAX:s->op==3?LLONG_MIN:0; } }
static void rank_main(int id,void *arg){
  struct sh *s=arg; struct comm c; comm_init(&c,MPI_COMM_WORLD); int vn=s->vn; size_t sz=dsz[s->dom]; int i;
  sym_assert(c.id==(uint)id&&c.np==(uint)s->np,"comm_init: wrong id or np");
  char *v=malloc(vn*sz+8),*buf=malloc(2*vn*sz+8),*scan=malloc(2*vn*sz+8);
  pack(s,v,s->v[id],vn);
  switch(s->what){
    case 0: comm_allreduce(&c,s->dom,s->op,v,vn,buf); unpack(s,s->out[id],v,vn); break;
    case 1: comm_scan(scan,&c,s->dom,s->op,v,vn,buf); unpack(s,s->out[id],scan,vn); unpack(s,s->red[id],scan+vn*sz,vn); 
            { val t[MAXV]; unpack(s,t,v,vn); for(i=0;i<vn;i++) sym_assert(same(s,&t[i],&s->v[id][i]),"comm_scan: input modified"); } break;
    case 2: { int n=s->n[id]; switch(s->dom){ case 0: s->out[id][0].d=comm_reduce_double(&c,s->op,(double*)v,n); break; case 1: s->out[id][0].f=comm_reduce_float(&c,s->op,(float*)v,n); break;
              case 2: s->out[id][0].i=comm_reduce_int(&c,s->op,(int*)v,n); break; case 3: s->out[id][0].l=comm_reduce_long(&c,s->op,(long*)v,n); break; case 4: s->out[id][0].ll=comm_reduce_long_long(&c,s->op,(long long*)v,n); break; } } break;
    case 3: { double *w=malloc(vn*8+8); pack(s,w,s->w[id],vn); s->out[id][0].d=comm_dot(&c,(double*)v,w,s->n[id]); free(w); } break;
    case 4: { struct comm d,e; int k; comm_dup(&d,&c); sym_assert(d.id==c.id&&d.np==c.np,"comm_dup: id or np differ");
      comm_split(&d,s->color[id],s->key[id],&e);
      int rank=0,size=0,root=id; for(k=0;k<s->np;k++) if(s->color[k]==s->color[id]){ size++; if(s->key[k]<s->key[id]||(s->key[k]==s->key[id]&&k<id)) rank++; }
      sym_assert(e.id==(uint)rank&&e.np==(uint)size,"comm_split: wrong id or np");
      for(k=0;k<s->np;k++){ int r=0,q; if(s->color[k]!=s->color[id]) continue; for(q=0;q<s->np;q++) if(s->color[q]==s->color[k]&&(s->key[q]<s->key[k]||(s->key[q]==s->key[k]&&q<k))) r++; if(r==size-1) root=k; }
      int x=s->v[id][0].i; comm_bcast(&e,&x,sizeof x,size-1); sym_assert(x==s->v[root][0].i,"comm_bcast: value of the root not received");
      int *g=malloc(size*sizeof(int)); x=s->v[id][0].i; comm_gather(&e,&x,sizeof x,g,sizeof x,0);
      if(rank==0) for(k=0;k<s->np;k++){ int r=0,q; if(s->color[k]!=s->color[id]) continue; for(q=0;q<s->np;q++) if(s->color[q]==s->color[k]&&(s->key[q]<s->key[k]||(s->key[q]==s->key[k]&&q<k))) r++; sym_assert(g[r]==s->v[k][0].i,"comm_gather: wrong value"); }
      free(g); comm_barrier(&e); comm_free(&e); comm_free(&d); comm_barrier(&c); break; }
    case 5: { comm_req r; comm_iallreduce(&r,&c,s->dom,s->op,v,vn,buf); comm_wait(&r,1); unpack(s,s->out[id],buf,vn); break; }
    case 6: { int m=s->msgs,k,np=s->np; comm_req *r=malloc((2*m+1)*sizeof *r); char *in=malloc(m*vn*sz+1);
      for(k=0;k<m;k++) comm_irecv(&r[m-1-k],&c,in+k*vn*sz,vn*sz,(uint)(((id-k-1)%np+np)%np),100+k);
      for(k=0;k<m;k++) comm_isend(&r[m+k],&c,v,vn*sz,(uint)((id+k+1)%np),100+k);
      comm_wait(r,2*m); comm_wait(r,0); sym_assert(sym_live_reqs()==0,"comm_wait: a request is left incomplete");
      for(k=0;k<m;k++){ val t[MAXV]; unpack(s,t,in+k*vn*sz,vn); for(i=0;i<vn;i++) sym_assert(same(s,&t[i],&s->v[((id-k-1)%np+np)%np][i]),"comm_irecv: message changed or mixed up"); }
      if(np>1){ int nx=(id+1)%np,pv=(id+np-1)%np; val t[MAXV]; if(id==0) comm_send(&c,v,vn*sz,nx,7),comm_recv(&c,in,vn*sz,pv,7); else comm_recv(&c,in,vn*sz,pv,7),comm_send(&c,v,vn*sz,nx,7);
        unpack(s,t,in,vn); for(i=0;i<vn;i++) sym_assert(same(s,&t[i],&s->v[pv][i]),"comm_recv: message changed"); }
      free(in); free(r); break; }
  }
  free(v); free(buf); free(scan); comm_free(&c);
  sym_assert(sym_live_comms()==0,"communicator leaked"); sym_assert(sym_live_allocs()==0,"memory leaked");
}
void harness_main(void){
  struct sh *s=sym_shared(sizeof *s); int p,i,q,np=sym_param("np",2); s->np=np; s->vn=sym_param("vn",1); s->dom=sym_param("dom",0); s->op=sym_param("op",0); s->what=sym_param("what",1); s->msgs=sym_param("msgs",5);
  int R=sym_param("range",0);
  for(p=0;p<np;p++){ s->n[p]= s->what==2||s->what==3 ? sym_choice("n",s->vn+1) : s->vn; if(s->what==4){ s->color[p]=sym_choice("color",2); s->key[p]=sym_choice("key",sym_param("keys",2)); }
    for(i=0;i<s->vn;i++){ val *v=&s->v[p][i];
      if(s->what==4) v->i=sym_i32("v");
      else if(s->op==4){ int t=sym_concretize(sym_range("v",0,R)); switch(s->dom){ case 0: v->d=t; break; case 1: v->f=t; break; case 2: v->i=t; break; case 3: v->l=t; break; default: v->ll=t; } }
      else switch(s->dom){ case 0: v->d=R?sym_intreal("v",-R,R):sym_real_range("v",-1e100,1e100); if(s->what==3) s->w[p][i].d=sym_intreal("w",-8,8); break; case 1: v->f=(float)sym_intreal("v",-9,9); break; case 2: v->i=sym_i32("v"); break; case 3: v->l=sym_i64("v"); break; default: v->ll=sym_i64("v"); } } }
  sym_run_ranks(np,rank_main,s);
  if(s->what!=4&&s->what!=6) for(p=0;p<np;p++){
    int vn=s->what==2||s->what==3?1:s->vn;
    for(i=0;i<vn;i++){ val e,x; ident(s,&e); ident(s,&x); 
      for(q=0;q<np;q++){ int j; if(s->what==2) for(j=0;j<s->n[q];j++) acc(s,&e,&s->v[q][j]);
        else if(s->what==3) for(j=0;j<s->n[q];j++) e.d+=s->v[q][j].d*s->w[q][j].d;
        else { if(q<p) acc(s,&x,&s->v[q][i]); acc(s,&e,&s->v[q][i]); } }
      if(s->what==1){ sym_assert(same(s,&s->out[p][i],&x),"comm_scan: not the exclusive prefix reduction"); sym_assert(same(s,&s->red[p][i],&e),"comm_scan: total differs from the reduction over all processes"); }
      else sym_assert(same(s,&s->out[p][i],&e),s->what==0?"comm_allreduce: not the reduction over all processes":s->what==2?"comm_reduce: not the reduction over all entries":s->what==3?"comm_dot: not the global dot product":"comm_iallreduce: result differs from the blocking reduction");
      if(s->dom<2) sym_observe_f("o",s->dom?s->out[p][i].f:s->out[p][i].d); else if(s->dom==2) sym_observe_i("o",s->out[p][i].i); else sym_observe_i("o",s->out[p][i].l);
    } }
  sym_require_cover("end"); sym_cover("end");
}
