// ---------------------------------------------------------------- MPI model
// Point-to-point: matched by (communicator, source, tag) in posting order.
// A send completes only when matched (rendezvous), so a program that needs
// buffering is reported as a deadlock.  The data is copied at match time; a
// buffer owned by a pending operation may not be touched until it completes.
struct CommS { vector<int> mem; vector<bool> freed; vector<u64> seq; };
struct CollArg { bool posted=false; u64 sbuf=0,rbuf=0; i64 n=0,n2=0; int dt=0,dt2=0,op=0,root=0,color=0,key=0; u64 out=0; int req=-1; };
struct Coll { int kind=0; vector<CollArg> a; int nposted=0; bool done=false; vector<int> newc; };
struct Req { int kind; int ctx,comm,peer,tag; u64 addr,n; bool done,active,matched; u32 obj; };
enum { RQ_SEND=1,RQ_RECV=2,RQ_COLL=3 };
static vector<CommS> comms; static map<std::pair<int,u64>,Coll> colls; static vector<Req> reqs;
static u64 progress=0;
static void mpiReset(int np,int base){
  comms.clear(); colls.clear(); reqs.clear(); comms.resize(3+np);
  CommS w; for(int i=0;i<np;i++) w.mem.push_back(base+i); w.freed.assign(np,false); w.seq.assign(np,0); comms[1]=w;
  for(int i=0;i<np;i++){ CommS s; s.mem={base+i}; s.freed={false}; s.seq={0}; comms[3+i]=s; } }
static int commIdx(const Val&v){ u64 h=concI(v,32,"communicator"); int ci=(int)(u32)h; 
  if(ci==2) ci=3+std::max(0,ctxs[cur].rank);
  if(ci<=0||ci>=(int)comms.size()||comms[ci].mem.empty()) violation("bad-communicator","MPI call on invalid communicator %d",ci);
  return ci; }
static int commRank(int ci){ for(size_t i=0;i<comms[ci].mem.size();i++) if(comms[ci].mem[i]==cur){ if(comms[ci].freed[i]) violation("freed-communicator","MPI call on a freed communicator"); return i; } violation("bad-communicator","communicator does not contain the caller"); return -1; }
static u64 rawOff(u64 addr,Obj*&o){ o=&objs[(addr>>32)-1]; return (u32)addr-ABASE; }
static void rawCopy(u64 dst,u64 src,u64 n){ if(!n) return; Obj*s,*d; u64 so=rawOff(src,s),d0=rawOff(dst,d);
  if(s->sb){ needSB(d); memmove(d->sb+d0,s->sb+so,n*sizeof(SB)); } memmove(d->d+d0,s->d+so,n); memmove(d->sh+d0,s->sh+so,n); }
static void addFlight(u64 addr,u64 n,bool wr,int req){ if(!n) return; u64 off; Obj*o=resolve(addr,n,wr,off,wr?"MPI receive":"MPI send"); if(!o->fl) o->fl=new vector<Flight>; o->fl->push_back({off,off+n,wr,req}); }
static void delFlights(int req,u64 addr,u64 n){ if(!n) return; Obj*o; rawOff(addr,o); if(!o->fl) return; auto&v=*o->fl; v.erase(std::remove_if(v.begin(),v.end(),[&](const Flight&f){return f.req==req;}),v.end()); if(v.empty()){ delete o->fl; o->fl=0; } }
static void matchAll(int r){
  Req&q=reqs[r]; if(q.kind==RQ_COLL) return;
  for(size_t i=0;i<reqs.size();i++){ Req&p=reqs[i]; if(!p.active||p.matched||(int)i==r||p.comm!=q.comm||p.kind==q.kind||p.kind==RQ_COLL) continue;
    // p's peer must be q's rank and vice versa
    CommS&c=comms[q.comm]; if(c.mem[p.peer]!=q.ctx||c.mem[q.peer]!=p.ctx||p.tag!=q.tag) continue;
    Req&s=q.kind==RQ_SEND?q:p,&d=q.kind==RQ_SEND?p:q;
    if(s.n>d.n) violation("mpi-truncation","message of %llu bytes received into %llu bytes",(unsigned long long)s.n,(unsigned long long)d.n);
    if(s.n!=d.n) sh->excluded+=0;
    rawCopy(d.addr,s.addr,s.n); s.matched=d.matched=true; s.done=d.done=true; progress++; return; } }
static int postReq(int kind,int comm,int peer,int tag,u64 addr,u64 n){
  if(peer<0||peer>=(int)comms[comm].mem.size()) violation("bad-rank","point-to-point peer %d outside communicator of size %d",peer,(int)comms[comm].mem.size());
  if(tag<0) violation("bad-tag","negative MPI tag %d",tag);
  int r=reqs.size(); Req q{kind,cur,comm,peer,tag,addr,n,false,true,false,0}; reqs.push_back(q); addFlight(addr,n,kind==RQ_RECV,r); ctxs[cur].reqs++; progress++; matchAll(r); return r; }
static void retireReq(int r){ Req&q=reqs[r]; if(q.kind!=RQ_COLL) delFlights(r,q.addr,q.n); q.active=false; ctxs[cur].reqs--; }
static u64 dtSize(int dt){ return dt&0xff; }
static Val redOp(int op,int dt,const Val&a,const Val&b){
  unsigned w=8*dtSize(dt); int kd=(dt>>8)&0xf; using I=llvm::Instruction; using P=llvm::CmpInst;
  if(kd==2){ TyInfo ty{w==32?TF:TD,w,-1};
    switch(op){ case 1:return fbin(I::FAdd,w,a,b); case 2:return fbin(I::FMul,w,a,b); case 3:return selectV(fcmp(P::FCMP_OLT,w,b,a),b,a,ty); case 4:return selectV(fcmp(P::FCMP_OGT,w,b,a),b,a,ty); default: violation("mpi-op","MPI_Op %d on floating point",op);} }
  TyInfo ty{TI,w,-1};
  switch(op){ case 1:return binop(I::Add,w,a,b); case 2:return binop(I::Mul,w,a,b); case 3:return selectV(icmp(kd?P::ICMP_SLT:P::ICMP_ULT,w,b,a),b,a,ty); case 4:return selectV(icmp(kd?P::ICMP_SGT:P::ICMP_UGT,w,b,a),b,a,ty); case 6:return binop(I::And,w,a,b); case 8:return binop(I::Or,w,a,b); case 9:return binop(I::Xor,w,a,b);
    case 5: return castV(I::ZExt,TyInfo{TI,1,-1},ty,binop(I::And,1,icmp(P::ICMP_NE,w,a,VC(0)),icmp(P::ICMP_NE,w,b,VC(0)))); case 7: return castV(I::ZExt,TyInfo{TI,1,-1},ty,binop(I::Or,1,icmp(P::ICMP_NE,w,a,VC(0)),icmp(P::ICMP_NE,w,b,VC(0)))); }
  unsupported("MPI_Op %d",op); }
static Val rawLoad(u64 addr,int dt){ Obj*o; u64 off=rawOff(addr,o); unsigned w=8*dtSize(dt); TyInfo ty{((dt>>8)&0xf)==2?(w==32?TF:TD):TI,w,-1}; return loadScalar(o,off,ty); }
static void rawStore(u64 addr,int dt,const Val&v){ Obj*o; u64 off=rawOff(addr,o); unsigned w=8*dtSize(dt); TyInfo ty{((dt>>8)&0xf)==2?(w==32?TF:TD):TI,w,-1}; storeScalar(o,off,ty,v); }
enum CK { CK_BARRIER=1,CK_BCAST,CK_GATHER,CK_ALLGATHER,CK_REDUCE,CK_ALLREDUCE,CK_SCAN,CK_EXSCAN,CK_DUP,CK_SPLIT,CK_IALLREDUCE,CK_IBARRIER };
static void completeColl(int ci,Coll&k){
  CommS&c=comms[ci]; int np=c.mem.size(); CollArg&a0=k.a[0];
  for(int i=1;i<np;i++){ CollArg&a=k.a[i];
    if(k.kind==CK_BCAST||k.kind==CK_GATHER||k.kind==CK_REDUCE) if(a.root!=a0.root) violation("collective-mismatch","collective called with different roots %d and %d",a0.root,a.root);
    if(k.kind==CK_BCAST||k.kind==CK_ALLREDUCE||k.kind==CK_IALLREDUCE||k.kind==CK_SCAN||k.kind==CK_EXSCAN||k.kind==CK_REDUCE||k.kind==CK_GATHER||k.kind==CK_ALLGATHER) if(a.n*dtSize(a.dt)!=a0.n*dtSize(a0.dt)) violation("collective-mismatch","collective called with different sizes %lld and %lld",(long long)(a0.n*dtSize(a0.dt)),(long long)(a.n*dtSize(a.dt)));
    if(k.kind==CK_ALLREDUCE||k.kind==CK_IALLREDUCE||k.kind==CK_SCAN||k.kind==CK_EXSCAN||k.kind==CK_REDUCE) if(a.op!=a0.op||a.dt!=a0.dt) violation("collective-mismatch","reduction called with different op or datatype"); }
  switch(k.kind){
  case CK_BARRIER: case CK_IBARRIER: break;
  case CK_BCAST: for(int i=0;i<np;i++) if(i!=a0.root) rawCopy(k.a[i].rbuf,k.a[a0.root].sbuf,a0.n*dtSize(a0.dt)); break;
  case CK_GATHER: for(int i=0;i<np;i++) rawCopy(k.a[a0.root].rbuf+i*k.a[a0.root].n2*dtSize(k.a[a0.root].dt2),k.a[i].sbuf,k.a[i].n*dtSize(k.a[i].dt)); break;
  case CK_ALLGATHER: for(int j=0;j<np;j++) for(int i=0;i<np;i++) rawCopy(k.a[j].rbuf+i*k.a[j].n2*dtSize(k.a[j].dt2),k.a[i].sbuf,k.a[i].n*dtSize(k.a[i].dt)); break;
  case CK_ALLREDUCE: case CK_IALLREDUCE: case CK_REDUCE: { u64 es=dtSize(a0.dt); vector<Val> r(a0.n); for(i64 e=0;e<a0.n;e++){ Val v=rawLoad(k.a[0].sbuf+e*es,a0.dt); for(int i=1;i<np;i++) v=redOp(a0.op,a0.dt,v,rawLoad(k.a[i].sbuf+e*es,a0.dt)); r[e]=v; }
      for(int i=0;i<np;i++) if(k.kind!=CK_REDUCE||i==a0.root) for(i64 e=0;e<a0.n;e++) rawStore(k.a[i].rbuf+e*es,a0.dt,r[e]); break; }
  case CK_SCAN: case CK_EXSCAN: { u64 es=dtSize(a0.dt); vector<vector<Val>> r(np,vector<Val>(a0.n)); for(i64 e=0;e<a0.n;e++){ Val v; for(int i=0;i<np;i++){ Val x=rawLoad(k.a[i].sbuf+e*es,a0.dt); if(k.kind==CK_EXSCAN) r[i][e]=i?v:VU(); v=i?redOp(a0.op,a0.dt,v,x):x; if(k.kind==CK_SCAN) r[i][e]=v; } }
      for(int i=0;i<np;i++) if(k.kind==CK_SCAN||i) for(i64 e=0;e<a0.n;e++) rawStore(k.a[i].rbuf+e*es,a0.dt,r[i][e]); break; }
  case CK_DUP: { CommS n; n.mem=c.mem; n.freed.assign(np,false); n.seq.assign(np,0); k.newc.assign(np,(int)comms.size()); comms.push_back(n); for(int m:comms.back().mem) ctxs[m].comms++; break; }
  case CK_SPLIT: { k.newc.assign(np,0); std::set<int> cols; for(int i=0;i<np;i++) cols.insert(k.a[i].color); for(int col:cols){ if(col==-32766) continue; vector<std::pair<std::pair<int,int>,int>> v; for(int i=0;i<np;i++) if(k.a[i].color==col) v.push_back({{k.a[i].key,i},c.mem[i]}); std::sort(v.begin(),v.end()); CommS n; for(auto&x:v) n.mem.push_back(x.second); n.freed.assign(v.size(),false); n.seq.assign(v.size(),0); int id=comms.size(); vector<int> mem=n.mem; comms.push_back(n); for(auto&x:v) k.newc[x.first.second]=id; for(int m:mem) ctxs[m].comms++; } break; }
  }
  k.done=true; for(int i=0;i<np;i++) if(k.a[i].req>=0) reqs[k.a[i].req].done=true; progress++;
}
static void postColl(int kind,int ci,CollArg a,u64&seq){
  int r=commRank(ci); CommS&c=comms[ci]; seq=c.seq[r]++; Coll&k=colls[{ci,seq}]; if(k.a.empty()) k.a.resize(c.mem.size()),k.kind=kind;
  if(k.kind!=kind) violation("collective-mismatch","ranks call different collectives (%d vs %d) on the same communicator",k.kind,kind);
  // validate buffers
  u64 off; auto chk=[&](u64 p,u64 n,bool wr){ if(n) resolve(p,n,wr,off,wr?"MPI collective output":"MPI collective input"); };
  u64 np=c.mem.size();
  switch(kind){ case CK_BCAST: chk(a.rbuf,a.n*dtSize(a.dt),r!=a.root); if(a.root<0||a.root>=(int)np) violation("bad-rank","bcast root"); break;
    case CK_GATHER: chk(a.sbuf,a.n*dtSize(a.dt),false); if(r==a.root) chk(a.rbuf,np*a.n2*dtSize(a.dt2),true); break; case CK_ALLGATHER: chk(a.sbuf,a.n*dtSize(a.dt),false); chk(a.rbuf,np*a.n2*dtSize(a.dt2),true); break;
    case CK_REDUCE: chk(a.sbuf,a.n*dtSize(a.dt),false); if(r==a.root) chk(a.rbuf,a.n*dtSize(a.dt),true); break;
    case CK_ALLREDUCE: case CK_IALLREDUCE: case CK_SCAN: case CK_EXSCAN: chk(a.sbuf,a.n*dtSize(a.dt),false); chk(a.rbuf,a.n*dtSize(a.dt),true);
      if(a.n && a.sbuf<a.rbuf+a.n*dtSize(a.dt) && a.rbuf<a.sbuf+a.n*dtSize(a.dt)) violation("mpi-alias","reduction with aliased send and receive buffers"); break; }
  a.posted=true; k.a[r]=a; k.nposted++; progress++;
  if(k.nposted==(int)c.mem.size()) completeColl(ci,k);
}
