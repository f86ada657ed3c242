// ---------------------------------------------------------------- builtins
static map<string,std::pair<char,string>> fixed; static FILE*obsF=0;
enum BR { BR_OK,BR_BLOCK,BR_PUSHED };
static string inputName(const string&nm){ int r=ctxs[cur].rank; int k=nameCount[{r,nm}]++; return (r<0?string("m"):"r"+std::to_string(r))+":"+nm+"#"+std::to_string(k); }
static bool fixedVal(const string&n,Input&in,double*d){ if(optFix.empty()) return false; auto it=fixed.find(n); in.k=KC; in.c=0; if(it!=fixed.end()){ if(it->second.first=='d'){ if(d) *d=strtod(it->second.second.c_str(),0); } else in.c=strtoull(it->second.second.c_str(),0,10); } return true; }
static void noteInput(const Input&i){ inputs.push_back(i); }
static Val newBV(const string&nm,unsigned w){ Input in; in.name=inputName(nm); in.w=w; in.intreal=false; double d=0; if(fixedVal(in.name,in,&d)){ auto it=fixed.find(in.name); if(it!=fixed.end()&&it->second.first=='d') in.c=fromD(d); noteInput(in); return VC(in.c&maskw(w)); }
  in.k=KBV; in.s=Z3_mk_const(Z,Z3_mk_string_symbol(Z,in.name.c_str()),bvSort(w)); in.c=0; noteInput(in); return VS(KBV,in.s); }
static void assumeZ(Z3_ast c){ c=simp(c); Z3_lbool b=Z3_get_bool_value(Z,c); if(b==Z3_L_TRUE) return; if(b==Z3_L_FALSE){ sh->excluded++; endPath(); }
  bool ok=false; if(model){ Z3_ast e=evalM(c); if(e&&Z3_get_bool_value(Z,e)==Z3_L_TRUE) ok=true; }
  if(!ok){ Z3_lbool r=check(c); if(r==Z3_L_FALSE){ sh->excluded++; endPath(); } if(r==Z3_L_TRUE) useLast(); else { if(model){ Z3_model_dec_ref(Z,model); model=0; } } }
  addPC(c); }
static Val newReal(const string&nm,bool isint,double lo,double hi,bool bounded,unsigned w){ Input in; in.name=inputName(nm); in.w=w; in.intreal=isint; double d=0; if(fixedVal(in.name,in,&d)){ auto it=fixed.find(in.name); if(it!=fixed.end()&&it->second.first=='c') d=(double)(i64)in.c; in.c=w==32?fromF((float)d):fromD(d); noteInput(in); return VC(in.c); }
  in.k=KREAL; Z3_symbol sy=Z3_mk_string_symbol(Z,in.name.c_str()); in.s=isint?Z3_mk_int2real(Z,Z3_mk_const(Z,sy,sInt)):Z3_mk_const(Z,sy,sReal); in.c=0; noteInput(in);
  if(bounded){ realRange[in.s]={lo,hi}; assumeZ(and2(Z3_mk_ge(Z,in.s,realNum(lo)),Z3_mk_le(Z,in.s,realNum(hi)))); }
  return VS(KREAL,in.s); }
static void symAssert(const Val&c,unsigned w,const string&msg){
  if(c.k==KC){ sh->assertsConst++; if(!(c.c&maskw(w))){ ensureModel(); Z3_model m=niceModel(0); recordViolation("assert","assert:"+msg,msg,m?m:model); endPath(); } return; }
  if(bad(c)) violation("uninitialized","asserted condition depends on uninitialized memory: %s",msg.c_str());
  sh->assertsSym++;
  Z3_ast t=c.k==KBOOL?c.s:mkNot(Z3_mk_eq(Z,toBV(c,w),bvnum(0,w)));
  // the solver sees the unsimplified obligation
  Z3_ast n=mkNot(t); Z3_lbool r=check(n);
  if(r==Z3_L_FALSE) return;
  if(r==Z3_L_TRUE){ Z3_model m=lastModel; lastModel=0; Z3_model nm=0; nm=niceModel(n); recordViolation("assert","assert:"+msg,msg,nm?nm:m);
    Z3_lbool q=check(t); if(q==Z3_L_FALSE) endPath(); if(q==Z3_L_TRUE) useLast(); addPC(simp(t)); return; }
  sh->unsupported++; u32 k=sh->nunsup; if(k<8){ sh->nunsup++; snprintf(sh->unsup[k],256,"solver gave no answer on assertion '%s'",msg.c_str()); }
}
// |e| <= tol for a polynomial e in bounded inputs: every monomial of degree >1
// is replaced by a fresh variable over its interval, which leaves a linear
// query; when that is not enough the exact (nonlinear) query is asked.
static bool monoRange(Z3_ast a,double&lo,double&hi){
  auto it=realRange.find(a); if(it!=realRange.end()){ lo=it->second.first; hi=it->second.second; return true; }
  if(Z3_get_ast_kind(Z,a)!=Z3_APP_AST) return false; Z3_app ap=Z3_to_app(Z,a); Z3_decl_kind k=Z3_get_decl_kind(Z,Z3_get_app_decl(Z,ap)); unsigned n=Z3_get_app_num_args(Z,ap);
  auto mul=[](double&l,double&h,double l2,double h2){ double v[4]={l*l2,l*h2,h*l2,h*h2}; l=*std::min_element(v,v+4); h=*std::max_element(v,v+4); };
  if(k==Z3_OP_POWER){ unsigned e; if(!Z3_get_numeral_uint(Z,Z3_get_app_arg(Z,ap,1),&e)) return false; double l,h; if(!monoRange(Z3_get_app_arg(Z,ap,0),l,h)) return false; lo=hi=1; for(unsigned i=0;i<e;i++) mul(lo,hi,l,h); return true; }
  if(k==Z3_OP_MUL){ lo=hi=1; for(unsigned i=0;i<n;i++){ double l,h; if(!monoRange(Z3_get_app_arg(Z,ap,i),l,h)) return false; mul(lo,hi,l,h); } return true; }
  return false;
}
// x^k of one variable over [-1,1]: written with Chebyshev values T_j(x), each in [-1,1]
static int uniDeg(Z3_ast a,Z3_ast&x){ if(realRange.count(a)){ if(x&&x!=a) return -1; x=a; return 1; } if(Z3_get_ast_kind(Z,a)!=Z3_APP_AST) return -1; Z3_app ap=Z3_to_app(Z,a); Z3_decl_kind k=Z3_get_decl_kind(Z,Z3_get_app_decl(Z,ap)); unsigned n=Z3_get_app_num_args(Z,ap);
  if(k==Z3_OP_POWER){ unsigned e; if(!Z3_get_numeral_uint(Z,Z3_get_app_arg(Z,ap,1),&e)) return -1; int d=uniDeg(Z3_get_app_arg(Z,ap,0),x); return d<0?d:d*(int)e; }
  if(k==Z3_OP_MUL){ int t=0; for(unsigned i=0;i<n;i++){ int d=uniDeg(Z3_get_app_arg(Z,ap,i),x); if(d<0) return d; t+=d; } return t; } return -1; }
static int linLevel=0; // 0: a box per monomial; 1: powers of a variable through Chebyshev values; 2: and their mutual order
static Z3_ast powVar(Z3_ast x,int k,vector<Z3_ast>&bnd,map<Z3_ast,Z3_ast>&fresh){
  auto nm=[&](const char*p,int d){ return Z3_mk_const(Z,Z3_mk_string_symbol(Z,(string(p)+"!"+std::to_string(d)+"!"+std::to_string(Z3_get_ast_id(Z,x))).c_str()),sReal); };
  if(k==0) return realNum(1);
  Z3_ast y=nm("pow",k); Z3_ast&seen=fresh[y]; if(seen) return seen; seen=y;
  vector<Z3_ast> v; double c=1; /* C(k,j) */
  for(int j=0;2*j<=k;j++){ int d=k-2*j; double f=ldexp(c,1-k); if(d==0) f/=2; Z3_ast tj; if(d==0) tj=realNum(1); else { tj=nm("cheb",d); Z3_ast&q=fresh[tj]; if(!q){ q=tj; bnd.push_back(Z3_mk_ge(Z,tj,realNum(-1))); bnd.push_back(Z3_mk_le(Z,tj,realNum(1))); } } Z3_ast z[2]={realNum(f),tj}; v.push_back(Z3_mk_mul(Z,2,z)); c=c*(k-j)/(j+1); }
  if(linLevel==1) return fresh[y]=v.size()==1?v[0]:Z3_mk_add(Z,v.size(),v.data());
  bnd.push_back(Z3_mk_eq(Z,y,v.size()==1?v[0]:Z3_mk_add(Z,v.size(),v.data())));
  if(k%2==0){ Z3_ast p=powVar(x,k-2,bnd,fresh); bnd.push_back(Z3_mk_ge(Z,y,realNum(0))); bnd.push_back(Z3_mk_le(Z,y,p)); }
  else if(k>1){ Z3_ast p=powVar(x,k-1,bnd,fresh); bnd.push_back(Z3_mk_le(Z,y,p)); bnd.push_back(Z3_mk_ge(Z,y,Z3_mk_unary_minus(Z,p))); }
  return y;
}
static Z3_ast linTerm(Z3_ast t,vector<Z3_ast>&bnd,map<Z3_ast,Z3_ast>&fresh,bool&ok){
  if(Z3_get_ast_kind(Z,t)==Z3_NUMERAL_AST) return t;
  auto box=[&](Z3_ast m)->Z3_ast{ double l,h; if(!monoRange(m,l,h)){ ok=false; return m; } bool isv=realRange.count(m);
    if(linLevel){ Z3_ast x=0; int k=uniDeg(m,x); if(k>=1&&k<=40&&realRange[x].first==-1&&realRange[x].second==1) return powVar(x,k,bnd,fresh); }
    Z3_ast &f=fresh[m]; if(!f){ f=isv?m:Z3_mk_fresh_const(Z,"mono",sReal); bnd.push_back(Z3_mk_ge(Z,f,realNum(l))); bnd.push_back(Z3_mk_le(Z,f,realNum(h))); } return f; };
  if(Z3_get_ast_kind(Z,t)==Z3_APP_AST){ Z3_app ap=Z3_to_app(Z,t); Z3_decl_kind k=Z3_get_decl_kind(Z,Z3_get_app_decl(Z,ap)); unsigned n=Z3_get_app_num_args(Z,ap);
    if(k==Z3_OP_ADD||k==Z3_OP_SUB){ vector<Z3_ast> v; for(unsigned i=0;i<n;i++) v.push_back(linTerm(Z3_get_app_arg(Z,ap,i),bnd,fresh,ok)); return k==Z3_OP_ADD?Z3_mk_add(Z,n,v.data()):Z3_mk_sub(Z,n,v.data()); }
    if(k==Z3_OP_UMINUS) return Z3_mk_unary_minus(Z,linTerm(Z3_get_app_arg(Z,ap,0),bnd,fresh,ok));
    if(k==Z3_OP_MUL && Z3_get_ast_kind(Z,Z3_get_app_arg(Z,ap,0))==Z3_NUMERAL_AST){ vector<Z3_ast> v; for(unsigned i=1;i<n;i++) v.push_back(Z3_get_app_arg(Z,ap,i)); Z3_ast m=v.size()==1?v[0]:Z3_mk_mul(Z,v.size(),v.data()); Z3_ast x[2]={Z3_get_app_arg(Z,ap,0),box(m)}; return Z3_mk_mul(Z,2,x); } }
  return box(t);
}
static void realVarsOf(Z3_ast a,std::set<Z3_ast>&seen,std::set<Z3_ast>&vars){ if(!seen.insert(a).second) return; if(realRange.count(a)){ vars.insert(a); return; } if(Z3_get_ast_kind(Z,a)!=Z3_APP_AST) return; Z3_app ap=Z3_to_app(Z,a); unsigned n=Z3_get_app_num_args(Z,ap); if(!n){ vars.insert(a); return; } for(unsigned i=0;i<n;i++) realVarsOf(Z3_get_app_arg(Z,ap,i),seen,vars); }
// -1 refuted at a sample point, 0 open, 1 proved: e (one variable x) on [lo,hi]
static int bernstein(Z3_ast e,Z3_ast x,double lo,double hi,double tol,bool one,int depth,int&budget){
  if(--budget<0) return 0;
  static Z3_ast t=0; if(!t) t=Z3_mk_fresh_const(Z,"t",sReal);
  Z3_ast m[2]={realNum(hi-lo),t},a2[2]={realNum(lo),Z3_mk_mul(Z,2,m)}; Z3_ast xe=Z3_mk_add(Z,2,a2); Z3_ast s=simpSom(Z3_substitute(Z,e,1,&x,&xe));
  // coefficients
  vector<Z3_ast> co(1,realNum(0)); vector<Z3_ast> terms; { Z3_app ap=Z3_get_ast_kind(Z,s)==Z3_APP_AST?Z3_to_app(Z,s):0; if(ap&&Z3_get_decl_kind(Z,Z3_get_app_decl(Z,ap))==Z3_OP_ADD) for(unsigned i=0;i<Z3_get_app_num_args(Z,ap);i++) terms.push_back(Z3_get_app_arg(Z,ap,i)); else terms.push_back(s); }
  auto rr=realRange; realRange.clear(); realRange[t]={0,1}; bool ok=true;
  for(Z3_ast q:terms){ Z3_ast c=realNum(1); int k=0; if(Z3_get_ast_kind(Z,q)==Z3_NUMERAL_AST) c=q; else { Z3_app ap=Z3_to_app(Z,q); Z3_ast rest=q; if(Z3_get_decl_kind(Z,Z3_get_app_decl(Z,ap))==Z3_OP_MUL&&Z3_get_ast_kind(Z,Z3_get_app_arg(Z,ap,0))==Z3_NUMERAL_AST){ c=Z3_get_app_arg(Z,ap,0); vector<Z3_ast> v; for(unsigned i=1;i<Z3_get_app_num_args(Z,ap);i++) v.push_back(Z3_get_app_arg(Z,ap,i)); rest=v.size()==1?v[0]:Z3_mk_mul(Z,v.size(),v.data()); } Z3_ast y=0; k=uniDeg(rest,y); if(k<0||k>60){ ok=false; break; } }
    if((int)co.size()<=k) co.resize(k+1,realNum(0)); Z3_ast z[2]={co[k],c}; co[k]=Z3_mk_add(Z,2,z); }
  realRange=rr; if(!ok) return 0;
  int n=co.size()-1; vector<vector<double>> C(n+1,vector<double>(n+1,0)); for(int i=0;i<=n;i++){ C[i][0]=1; for(int j=1;j<=i;j++) C[i][j]=C[i-1][j-1]+(j<i?C[i-1][j]:0); }
  // D(t) = sum_j B_j * sum_{k<=j} C(j,k)/C(n,k) co_k
  vector<Z3_ast> bs,sum; Z3_solver q=Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z,q);
  for(int j=0;j<=n;j++){ Z3_ast b=Z3_mk_fresh_const(Z,"B",sReal); bs.push_back(b); Z3_solver_assert(Z,q,Z3_mk_ge(Z,b,realNum(0))); vector<Z3_ast> v; for(int k=0;k<=j;k++){ Z3_ast z[2]={Z3_mk_div(Z,realNum(C[j][k]),realNum(C[n][k])),co[k]}; v.push_back(Z3_mk_mul(Z,2,z)); } Z3_ast z[2]={simp(v.size()==1?v[0]:Z3_mk_add(Z,v.size(),v.data())),b}; sum.push_back(Z3_mk_mul(Z,2,z)); }
  Z3_solver_assert(Z,q,Z3_mk_eq(Z,bs.size()==1?bs[0]:Z3_mk_add(Z,bs.size(),bs.data()),realNum(1)));
  Z3_ast l=sum.size()==1?sum[0]:Z3_mk_add(Z,sum.size(),sum.data()); Z3_solver_assert(Z,q,one?Z3_mk_lt(Z,l,realNum(-tol)):or2(Z3_mk_gt(Z,l,realNum(tol)),Z3_mk_lt(Z,l,realNum(-tol))));
  double t0=now(); Z3_lbool r=Z3_solver_check(Z,q); Z3_solver_dec_ref(Z,q); sh->queries++; sh->solver_ns+=(u64)((now()-t0)*1e9); if(r==Z3_L_FALSE){ sh->unsat++; return 1; } sh->sat++;
  for(int g=0;g<=2;g++){ Z3_ast p=realNum(lo+(hi-lo)*g/2); Z3_ast v=simp(Z3_substitute(Z,e,1,&x,&p)); if(Z3_get_ast_kind(Z,v)!=Z3_NUMERAL_AST) return 0; double d=ratToD(v); if(one?d<-tol:fabs(d)>tol){ Z3_ast c=Z3_mk_eq(Z,x,p); if(check(c)==Z3_L_TRUE) return -1; } }
  if(depth>=14) return 0; double mid=lo+(hi-lo)/2; int a=bernstein(e,x,lo,mid,tol,one,depth+1,budget); if(a<=0) return a; return bernstein(e,x,mid,hi,tol,one,depth+1,budget);
}
static void symAssertSmall(const Val&e,double tol,const string&msg,bool oneSided){
  if(e.k==KC){ symAssert(VC(oneSided?asD(e.c)>=-tol:fabs(asD(e.c))<=tol),1,msg); return; }
  if(e.k!=KREAL){ symAssert(e,64,msg); return; }
  Z3_ast s=simpSom(e.s);
  for(linLevel=0;linLevel<3;linLevel++){ vector<Z3_ast> bnd; map<Z3_ast,Z3_ast> fr; bool ok=true; Z3_ast l=linTerm(s,bnd,fr,ok); if(!ok) break;
    double t0=now(); Z3_solver q=Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z,q); for(Z3_ast b:bnd) Z3_solver_assert(Z,q,b); l=simpSom(l); Z3_solver_assert(Z,q,oneSided?Z3_mk_lt(Z,l,realNum(-tol)):or2(Z3_mk_gt(Z,l,realNum(tol)),Z3_mk_lt(Z,l,realNum(-tol)))); Z3_lbool r=Z3_solver_check(Z,q); Z3_solver_dec_ref(Z,q);
    sh->queries++; sh->solver_ns+=(u64)((now()-t0)*1e9); if(r==Z3_L_FALSE){ sh->unsat++; sh->assertsSym++; return; } if(r==Z3_L_TRUE) sh->sat++; else sh->unknown++; }
  { std::set<Z3_ast> seen,vars; realVarsOf(s,seen,vars); if(vars.size()==1&&realRange.count(*vars.begin())){ Z3_ast x=*vars.begin(); int budget=400; int r=bernstein(s,x,realRange[x].first,realRange[x].second,tol,oneSided,0,budget);
      if(r==1){ sh->assertsSym++; return; } if(r==-1){ Z3_model m=lastModel; lastModel=0; recordViolation("assert","assert:"+msg,msg,m); return; } } }
  // concrete points first: a linear question when every input is pinned
  vector<Z3_ast> vs,to; for(auto&in:inputs) if(in.k==KREAL&&realRange.count(in.s)) vs.push_back(in.s);
  for(int g=0;g<24&&!vs.empty();g++){ to.clear(); unsigned h=g*2654435761u; for(Z3_ast v:vs){ auto b=realRange[v]; h=h*1664525u+1013904223u; double f=vs.size()==1?g/23.:((h>>16)%9)/8.; to.push_back(realNum(b.first+(b.second-b.first)*(floor(f*64)/64))); }
    Z3_ast v=simp(Z3_substitute(Z,e.s,vs.size(),vs.data(),to.data())); if(Z3_get_ast_kind(Z,v)!=Z3_NUMERAL_AST) break;
    if(oneSided?ratToD(v)<-tol:fabs(ratToD(v))>tol){ Z3_ast c=Z3_mk_true(Z); for(size_t i=0;i<vs.size();i++) c=and2(c,Z3_mk_eq(Z,vs[i],to[i])); if(check(c)==Z3_L_TRUE){ Z3_model m=lastModel; lastModel=0; recordViolation("assert","assert:"+msg,msg,m); return; } } }
  symAssert(normBool(oneSided?Z3_mk_ge(Z,e.s,realNum(-tol)):and2(Z3_mk_le(Z,e.s,realNum(tol)),Z3_mk_ge(Z,e.s,realNum(-tol)))),1,msg);
}
static int covIdx(const string&n){ sem_wait(&sh->lock); int r=-1; for(u32 i=0;i<sh->ncov;i++) if(n==sh->covName[i]) r=i; if(r<0&&sh->ncov<MAXCOV){ r=sh->ncov; snprintf(sh->covName[r],64,"%s",n.c_str()); sh->ncov++; } sem_post(&sh->lock); return r; }
static double argD(const Val&v){ if(v.k!=KC) unsupported("symbolic argument of a math library function"); return asD(v.c); }
static void freeObj(u64 p,const char*what){ u64 hi=p>>32; if(hi==0||hi-1>=objs.size()) violation("bad-free","%s of an invalid pointer 0x%llx",what,(unsigned long long)p); Obj&o=objs[hi-1]; if(o.freed) violation("double-free","%s of an already freed block",what); if(o.kind!=OHEAP||(u32)p!=ABASE) violation("bad-free","%s of a pointer not returned by malloc",what); if(o.fl) violation("inflight-free","%s of a buffer owned by a pending MPI operation",what); if(o.ctx==cur) ctxs[cur].live--; dropObj(hi-1); }
static u64 heapAlloc(u64 n,bool zero){ if(n>(1ull<<30)) violation("huge-alloc","allocation of %llu bytes",(unsigned long long)n); u32 o=newObj(n,OHEAP,cur,zero); ctxs[cur].live++; return objAddr(o); }
static BR builtin(int bi,const Fn&fn,const CallAux&ca,vector<Val>&a,Ctx&c,Ins&q,Val&ret){
  auto I=[&](int i)->u64{ return concI(a[i],ca.aty[i].w?ca.aty[i].w:64,"call argument"); };
  auto SI=[&](int i)->i64{ return sx(I(i),ca.aty[i].w); };
  auto waitColl=[&](int kind,const CollArg&arg,int ci,Coll*&k)->bool{ if(c.pend!=1){ u64 seq; postColl(kind,ci,arg,seq); c.pend=1; c.pendComm=ci; c.pendSeq=seq; } k=&colls[{c.pendComm,c.pendSeq}]; if(!k->done){ c.why="collective"; return false; } c.pend=-1; return true; };
  ret=VC(0);
  switch(bi){
  case B_ll_nop: case B_ll_assume: case B_ll_expect: if(bi==B_ll_expect) ret=a[0]; return BR_OK;
  case B_malloc: ret=VC(heapAlloc(I(0),false)); return BR_OK;
  case B_calloc: { u64 x=I(0),y=I(1); if(y&&x>(1ull<<32)/y) violation("huge-alloc","calloc(%llu,%llu)",(unsigned long long)x,(unsigned long long)y); ret=VC(heapAlloc(x*y,true)); return BR_OK; }
  case B_realloc: { u64 p=I(0),n=I(1); if(!p){ ret=VC(heapAlloc(n,false)); return BR_OK; } if(n==0){ freeObj(p,"realloc"); ret=VC(0); return BR_OK; }
      u64 hi=p>>32; if(hi==0||hi-1>=objs.size()||objs[hi-1].kind!=OHEAP||(u32)p!=ABASE) violation("bad-free","realloc of an invalid pointer"); if(objs[hi-1].freed) violation("use-after-free","realloc of a freed block"); if(objs[hi-1].fl) violation("inflight-free","realloc of a buffer owned by a pending MPI operation");
      u64 r=heapAlloc(n,false); u64 m=std::min<u64>(n,objs[hi-1].size); rawCopy(r,p,m); freeObj(p,"realloc"); ret=VC(r); return BR_OK; }
  case B_free: { u64 p=I(0); if(p) freeObj(p,"free"); return BR_OK; }
  case B_memcpy: case B_ll_memcpy: copyBytes(I(0),I(1),I(2),false); ret=a[0]; return BR_OK;
  case B_memmove: case B_ll_memmove: copyBytes(I(0),I(1),I(2),true); ret=a[0]; return BR_OK;
  case B_memset: case B_ll_memset: { u64 p=I(0),n=I(2); u8 v=(u8)I(1); if(n){ u64 off; Obj*o=resolve(p,n,true,off,"memset"); memset(o->d+off,v,n); memset(o->sh+off,1,n); } ret=a[0]; return BR_OK; }
  case B_memcmp: { u64 p=I(0),r=I(1),n=I(2); TyInfo t8{TI,8,-1}; for(u64 i=0;i<n;i++){ Val x=loadAt(p+i,t8),y=loadAt(r+i,t8); u64 cx=concI(x,8,"memcmp"),cy=concI(y,8,"memcmp"); if(cx!=cy){ ret=VC(cx<cy?0xffffffffu:1); return BR_OK; } } return BR_OK; }
  case B_strlen: ret=VC(cstr(I(0)).size()); return BR_OK;
  case B_strcmp: { int r=strcmp(cstr(I(0)).c_str(),cstr(I(1)).c_str()); ret=VC((u32)r); return BR_OK; }
  case B_printf: case B_fprintf: case B_puts: case B_putchar: case B_fputc: case B_fputs: case B_fflush: case B_fwrite: case B_vfprintf: case B_vprintf: case B_perror: case B_srand: return BR_OK;
  case B_sprintf: case B_snprintf: case B_vsnprintf: case B_vsprintf: { u64 off; Obj*o=resolve(I(0),1,true,off,"sprintf"); o->d[off]=0; o->sh[off]=1; return BR_OK; }
  case B_strcat: { string d=cstr(I(0)),x=cstr(I(1)); u64 p=I(0)+d.size(),off; Obj*o=resolve(p,x.size()+1,true,off,"strcat"); memcpy(o->d+off,x.c_str(),x.size()+1); memset(o->sh+off,1,x.size()+1); ret=a[0]; return BR_OK; }
  case B_getenv: return BR_OK; case B_rand: ret=VC(4); return BR_OK; case B_clock: case B_time: return BR_OK;
  case B_atoi: ret=VC((u32)atoi(cstr(I(0)).c_str())); return BR_OK;
  case B_ll_ubsan: violation("float-cast","floating-point value converted to an integer type that cannot hold it");
  case B_exit: case B__exit: case B_abort: case B_MPI_Abort: case B_ll_trap: case B___assert_fail:
    if(c.allowExit){ int k=covIdx("exit"); if(k>=0) sh->cov[k]=1; sh->pathsEnded++; endPath(); }
    violation("fail","process terminated by fail()/exit()/abort()");
  case B_fabs: case B_ll_fabs: case B_fabsf: { unsigned w=q.ty.w; if(a[0].k==KC){ ret=w==32?VC(fromF(fabsf(asF(a[0].c)))):VC(fromD(fabs(asD(a[0].c)))); return BR_OK; } if(bad(a[0])){ ret=VU(); return BR_OK; } if(a[0].k==KREAL){ Z3_ast x=a[0].s; ret=VS(KREAL,Z3_mk_ite(Z,Z3_mk_ge(Z,x,realNum(0)),x,Z3_mk_unary_minus(Z,x))); return BR_OK; } ret=VS(KFP,Z3_mk_fpa_abs(Z,toFP(a[0],w))); return BR_OK; }
  case B_sqrt: case B_ll_sqrt: if(a[0].k==KREAL){ assumeZ(Z3_mk_ge(Z,a[0].s,realNum(0))); static int n=0; string nm="sqrt!"+std::to_string(n++); Z3_ast y=Z3_mk_const(Z,Z3_mk_string_symbol(Z,nm.c_str()),sReal); Z3_ast yy[2]={y,y}; addPC(and2(Z3_mk_ge(Z,y,realNum(0)),Z3_mk_eq(Z,Z3_mk_mul(Z,2,yy),a[0].s))); if(model){ Z3_model_dec_ref(Z,model); model=0; } ret=VS(KREAL,y); return BR_OK; } if(bad(a[0])){ret=VU();return BR_OK;} ret=VC(fromD(sqrt(argD(a[0])))); return BR_OK;
  case B_floor: case B_ll_floor: if(a[0].k==KREAL){ ret=floorReal(a[0],false); return BR_OK; } if(bad(a[0])){ret=VU();return BR_OK;} ret=VC(fromD(floor(argD(a[0])))); return BR_OK;
  case B_ceil: case B_ll_ceil: if(a[0].k==KREAL){ ret=floorReal(a[0],true); return BR_OK; } if(bad(a[0])){ret=VU();return BR_OK;} ret=VC(fromD(ceil(argD(a[0])))); return BR_OK;
  case B_sqrtf: ret=VC(fromF(sqrtf(asF(a[0].c)))); return BR_OK; case B_floorf: ret=VC(fromF(floorf(asF(a[0].c)))); return BR_OK; case B_ceilf: ret=VC(fromF(ceilf(asF(a[0].c)))); return BR_OK;
  #define M1(n) case B_##n: if(bad(a[0])){ret=VU();return BR_OK;} ret=VC(fromD(n(argD(a[0])))); return BR_OK;
  M1(cos) M1(sin) M1(tan) M1(acos) M1(asin) M1(atan) M1(exp) M1(log) M1(log10) M1(log2) M1(round) M1(trunc)
  case B_ll_cos: ret=VC(fromD(cos(argD(a[0])))); return BR_OK; case B_ll_sin: ret=VC(fromD(sin(argD(a[0])))); return BR_OK; case B_ll_exp: ret=VC(fromD(exp(argD(a[0])))); return BR_OK; case B_ll_log: ret=VC(fromD(log(argD(a[0])))); return BR_OK; case B_ll_trunc: ret=VC(fromD(trunc(argD(a[0])))); return BR_OK; case B_ll_rint: ret=VC(fromD(rint(argD(a[0])))); return BR_OK;
  #define M2(n) case B_##n: if(bad(a[0])||bad(a[1])){ret=VU();return BR_OK;} ret=VC(fromD(n(argD(a[0]),argD(a[1])))); return BR_OK;
  M2(pow) M2(atan2) M2(fmod) M2(hypot)
  case B_ll_pow: ret=VC(fromD(pow(argD(a[0]),argD(a[1])))); return BR_OK; case B_ll_copysign: ret=VC(fromD(copysign(argD(a[0]),argD(a[1])))); return BR_OK;
  case B_fmax: case B_ll_fmax: { unsigned w=q.ty.w; ret=selectV(fcmp(llvm::CmpInst::FCMP_OGT,w,a[1],a[0]),a[1],a[0],q.ty); return BR_OK; }
  case B_fmin: case B_ll_fmin: { unsigned w=q.ty.w; ret=selectV(fcmp(llvm::CmpInst::FCMP_OLT,w,a[1],a[0]),a[1],a[0],q.ty); return BR_OK; }
  case B_ll_fmuladd: ret=fbin(llvm::Instruction::FAdd,q.ty.w,fbin(llvm::Instruction::FMul,q.ty.w,a[0],a[1]),a[2]); return BR_OK;
  case B_ll_smax: ret=selectV(icmp(llvm::CmpInst::ICMP_SGT,q.ty.w,a[0],a[1]),a[0],a[1],q.ty); return BR_OK;
  case B_ll_smin: ret=selectV(icmp(llvm::CmpInst::ICMP_SLT,q.ty.w,a[0],a[1]),a[0],a[1],q.ty); return BR_OK;
  case B_ll_umax: ret=selectV(icmp(llvm::CmpInst::ICMP_UGT,q.ty.w,a[0],a[1]),a[0],a[1],q.ty); return BR_OK;
  case B_ll_umin: ret=selectV(icmp(llvm::CmpInst::ICMP_ULT,q.ty.w,a[0],a[1]),a[0],a[1],q.ty); return BR_OK;
  case B_abs: case B_labs: case B_llabs: case B_ll_abs: { unsigned w=q.ty.w; ret=selectV(icmp(llvm::CmpInst::ICMP_SLT,w,a[0],VC(0)),binop(llvm::Instruction::Sub,w,VC(0),a[0]),a[0],q.ty); return BR_OK; }
  case B_ll_ctpop: ret=VC(__builtin_popcountll(I(0))); return BR_OK;
  case B_ll_ctlz: { u64 v=I(0); unsigned w=q.ty.w; ret=VC(v?__builtin_clzll(v)-(64-w):w); return BR_OK; } case B_ll_cttz: { u64 v=I(0); ret=VC(v?__builtin_ctzll(v):q.ty.w); return BR_OK; }
  case B_ll_objectsize: ret=VC(~0ull); return BR_OK; case B_ll_isconst: return BR_OK;
  case B_ll_umulo: { u64 x=I(0),y=I(1); unsigned w=ca.aty[0].w; unsigned __int128 p=(unsigned __int128)x*y; ret=AGGv({VC((u64)p&maskw(w)),VC((p>>w)!=0)}); return BR_OK; }
  // ---- MPI
  case B_MPI_Init: case B_MPI_Finalize: return BR_OK;
  case B_MPI_Initialized: storeAt(I(0),TyInfo{TI,32,-1},VC(1)); return BR_OK;
  case B_MPI_Wtime: { if(optParam.count("wtime")&&optParam["wtime"]){ ret=newReal("wtime",false,0,1000,true,64); return BR_OK; } static double t=0; t+=1e-3; ret=VC(fromD(t)); return BR_OK; }
  case B_MPI_Comm_f2c: case B_MPI_Comm_c2f: ret=a[0]; return BR_OK;
  case B_MPI_Comm_rank: { int ci=commIdx(a[0]); storeAt(I(1),TyInfo{TI,32,-1},VC(commRank(ci))); return BR_OK; }
  case B_MPI_Comm_size: { int ci=commIdx(a[0]); commRank(ci); storeAt(I(1),TyInfo{TI,32,-1},VC(comms[ci].mem.size())); return BR_OK; }
  case B_MPI_Comm_free: { Val h=loadAt(I(0),TyInfo{TI,32,-1}); int ci=commIdx(h); if(ci<3+(int)comms[1].mem.size()) violation("bad-communicator","freeing a predefined communicator"); int r=commRank(ci); comms[ci].freed[r]=true; c.comms--; storeAt(I(0),TyInfo{TI,32,-1},VC(0)); return BR_OK; }
  case B_MPI_Comm_dup: { CollArg g; Coll*k; int ci=c.pend==1?0:commIdx(a[0]); if(!waitColl(CK_DUP,g,ci,k)) return BR_BLOCK; storeAt(I(1),TyInfo{TI,32,-1},VC(k->newc[commRank(c.pendComm)])); return BR_OK; }
  case B_MPI_Comm_split: { CollArg g; Coll*k; int ci=0; if(c.pend!=1){ ci=commIdx(a[0]); g.color=SI(1); g.key=SI(2);} if(!waitColl(CK_SPLIT,g,ci,k)) return BR_BLOCK; storeAt(I(3),TyInfo{TI,32,-1},VC(k->newc[commRank(c.pendComm)])); return BR_OK; }
  case B_MPI_Barrier: { CollArg g; Coll*k; int ci=c.pend==1?0:commIdx(a[0]); if(!waitColl(CK_BARRIER,g,ci,k)) return BR_BLOCK; return BR_OK; }
  case B_MPI_Bcast: { CollArg g; Coll*k; int ci=0; if(c.pend!=1){ ci=commIdx(a[4]); g.sbuf=g.rbuf=I(0); g.n=SI(1); g.dt=I(2); g.root=SI(3);} if(!waitColl(CK_BCAST,g,ci,k)) return BR_BLOCK; return BR_OK; }
  case B_MPI_Gather: { CollArg g; Coll*k; int ci=0; if(c.pend!=1){ ci=commIdx(a[7]); g.sbuf=I(0); g.n=SI(1); g.dt=I(2); g.rbuf=I(3); g.n2=SI(4); g.dt2=I(5); g.root=SI(6);} if(!waitColl(CK_GATHER,g,ci,k)) return BR_BLOCK; return BR_OK; }
  case B_MPI_Allgather: { CollArg g; Coll*k; int ci=0; if(c.pend!=1){ ci=commIdx(a[6]); g.sbuf=I(0); g.n=SI(1); g.dt=I(2); g.rbuf=I(3); g.n2=SI(4); g.dt2=I(5);} if(!waitColl(CK_ALLGATHER,g,ci,k)) return BR_BLOCK; return BR_OK; }
  case B_MPI_Reduce: { CollArg g; Coll*k; int ci=0; if(c.pend!=1){ ci=commIdx(a[6]); g.sbuf=I(0); g.rbuf=I(1); g.n=SI(2); g.dt=I(3); g.op=I(4); g.root=SI(5);} if(!waitColl(CK_REDUCE,g,ci,k)) return BR_BLOCK; return BR_OK; }
  case B_MPI_Allreduce: case B_MPI_Scan: case B_MPI_Exscan: { CollArg g; Coll*k; int ci=0; if(c.pend!=1){ ci=commIdx(a[5]); g.sbuf=I(0); g.rbuf=I(1); g.n=SI(2); g.dt=I(3); g.op=I(4); if(g.sbuf==~0ull) g.sbuf=g.rbuf; } if(!waitColl(bi==B_MPI_Allreduce?CK_ALLREDUCE:bi==B_MPI_Scan?CK_SCAN:CK_EXSCAN,g,ci,k)) return BR_BLOCK; return BR_OK; }
  case B_MPI_Iallreduce: { CollArg g; int ci=commIdx(a[5]); g.sbuf=I(0); g.rbuf=I(1); g.n=SI(2); g.dt=I(3); g.op=I(4); int r=reqs.size(); Req rq{RQ_COLL,cur,ci,0,0,0,0,false,true,false,0}; reqs.push_back(rq); c.reqs++; g.req=r; u64 seq; u64 by=g.n*dtSize(g.dt); addFlight(g.sbuf,by,false,r); delFlights(r,g.sbuf,by); 
      // buffers are owned by MPI until the wait
      postColl(CK_IALLREDUCE,ci,g,seq); addFlight(g.sbuf,by,false,r); reqs[r].addr=g.sbuf; reqs[r].n=by; { u64 off; Obj*o=resolve(g.rbuf,by,false,off,"MPI_Iallreduce output"); if(!o->fl) o->fl=new vector<Flight>; o->fl->push_back({off,off+by,true,r}); reqs[r].tag=0; reqs[r].obj=(g.rbuf>>32)-1; }
      storeAt(I(6),TyInfo{TI,32,-1},VC(r+1)); return BR_OK; }
  case B_MPI_Isend: case B_MPI_Irecv: { int ci=commIdx(a[5]); commRank(ci); i64 n=SI(1); if(n<0) violation("bad-count","negative MPI count %lld",(long long)n); int r=postReq(bi==B_MPI_Isend?RQ_SEND:RQ_RECV,ci,(int)SI(3),(int)SI(4),I(0),n*dtSize(I(2))); storeAt(I(6),TyInfo{TI,32,-1},VC(r+1)); return BR_OK; }
  case B_MPI_Send: case B_MPI_Ssend: case B_MPI_Recv: { if(c.pend<2){ int ci=commIdx(a[5]); commRank(ci); i64 n=SI(1); if(n<0) violation("bad-count","negative MPI count %lld",(long long)n); int r=postReq(bi==B_MPI_Recv?RQ_RECV:RQ_SEND,ci,(int)SI(3),(int)SI(4),I(0),n*dtSize(I(2))); c.pend=2+r; } int r=c.pend-2; if(!reqs[r].done){ c.why=bi==B_MPI_Recv?"receive":"send"; return BR_BLOCK; } retireReq(r); c.pend=-1; return BR_OK; }
  case B_MPI_Wait: case B_MPI_Waitall: { int n=bi==B_MPI_Wait?1:(int)SI(0); u64 p=bi==B_MPI_Wait?I(0):(n>0?I(1):0); TyInfo t{TI,32,-1}; if(n<0) violation("bad-count","MPI_Waitall with negative count");
      for(int i=0;i<n;i++){ Val h=loadAt(p+4*i,t); if(bad(h)) violation("uninitialized","waiting on an uninitialized MPI request"); int r=(int)concI(h,32,"request")-1; if(r==-1) continue; if(r<0||r>=(int)reqs.size()||!reqs[r].active||reqs[r].ctx!=cur) violation("bad-request","waiting on an invalid or already completed MPI request"); if(!reqs[r].done){ c.why="wait"; return BR_BLOCK; } }
      for(int i=0;i<n;i++){ Val h=loadAt(p+4*i,t); int r=(int)h.c-1; if(r==-1) continue; if(reqs[r].kind==RQ_COLL){ delFlights(r,reqs[r].addr,reqs[r].n); Obj&o=objs[reqs[r].obj]; if(!o.freed&&o.fl){ auto&v=*o.fl; v.erase(std::remove_if(v.begin(),v.end(),[&](const Flight&f){return f.req==r;}),v.end()); if(v.empty()){ delete o.fl; o.fl=0; } } } retireReq(r); storeAt(p+4*i,t,VC(0)); } return BR_OK; }
  case B_MPI_Get_count: return BR_OK;
  // ---- harness interface
  case B_sym_i32: ret=newBV(cstr(I(0)),32); return BR_OK; case B_sym_i64: ret=newBV(cstr(I(0)),64); return BR_OK;
  case B_sym_f64bits: ret=newBV(cstr(I(0)),64); return BR_OK; case B_sym_f32bits: ret=newBV(cstr(I(0)),32); return BR_OK;
  case B_sym_range: case B_sym_range64: { unsigned w=bi==B_sym_range?32:64; ret=newBV(cstr(I(0)),w); if(ret.k==KBV) assumeZ(and2(Z3_mk_bvsge(Z,ret.s,bvnum(SI(1),w)),Z3_mk_bvsle(Z,ret.s,bvnum(SI(2),w)))); return BR_OK; }
  case B_sym_choice: { u64 n=I(1); ret=newBV(cstr(I(0)),32); if(ret.k==KBV){ assumeZ(Z3_mk_bvult(Z,ret.s,bvnum(n,32))); ret=VC(concretizeBV(ret.s,32)); } return BR_OK; }
  case B_sym_concretize: ret=VC(concI(a[0],32,"concretize")); return BR_OK;
  case B_sym_real: ret=newReal(cstr(I(0)),false,0,0,false,64); return BR_OK; case B_sym_realf: ret=newReal(cstr(I(0)),false,0,0,false,32); return BR_OK;
  case B_sym_real_range: ret=newReal(cstr(I(0)),false,asD(a[1].c),asD(a[2].c),true,64); return BR_OK;
  case B_sym_intreal: ret=newReal(cstr(I(0)),true,(double)SI(1),(double)SI(2),true,64); return BR_OK;
  case B_sym_bytes: { u64 p=I(0),n=I(1); string nm=cstr(I(2)); u64 i=0; while(i<n){ unsigned k=std::min<u64>(8,n-i); storeAt(p+i,TyInfo{TI,8*k,-1},newBV(nm,8*k)); i+=k; } return BR_OK; }
  case B_sym_param: { string n=cstr(I(0)); auto it=optParam.find(n); ret=it==optParam.end()?a[1]:VC((u32)it->second); return BR_OK; }
  case B_sym_assume: { if(a[0].k==KC){ if(!a[0].c){ sh->excluded++; endPath(); } return BR_OK; } if(bad(a[0])) violation("uninitialized","assumption on uninitialized value"); assumeZ(a[0].k==KBOOL?a[0].s:mkNot(Z3_mk_eq(Z,toBV(a[0],32),bvnum(0,32)))); return BR_OK; }
  case B_sym_assert: symAssert(a[0],32,cstr(I(1))); return BR_OK;
  case B_sym_assert_id: { char b[64]; snprintf(b,64,":%d:%d",(int)SI(2),(int)SI(3)); symAssert(a[0],32,cstr(I(1))+b); return BR_OK; }
  case B_sym_assert_small: case B_sym_assert_nonneg: { char b[64]; snprintf(b,64,":%d:%d",(int)SI(3),(int)SI(4)); if(bad(a[0])) violation("uninitialized","asserted value depends on uninitialized memory"); symAssertSmall(a[0],asD(a[1].c),cstr(I(2))+b,bi==B_sym_assert_nonneg); return BR_OK; }
  case B_sym_expand: expandOn=I(0)!=0; return BR_OK;
  case B_sym_cover: { int k=covIdx(cstr(I(0))); if(k>=0) sh->cov[k]=1; return BR_OK; }
  case B_sym_require_cover: { int k=covIdx(cstr(I(0))); if(k>=0) sh->covReq[k]=1; return BR_OK; }
  case B_sym_note: { string n=cstr(I(0)); i64 v=SI(1); sem_wait(&sh->lock); u32 i; for(i=0;i<sh->nnote;i++) if(n==sh->notes[i]) break; if(i==sh->nnote&&i<64){ snprintf(sh->notes[i],96,"%s",n.c_str()); sh->noteMax[i]=v; sh->nnote++; } else if(i<64&&sh->noteMax[i]<v) sh->noteMax[i]=v; sem_post(&sh->lock); return BR_OK; }
  case B_sym_observe_i: case B_sym_observe_f: if(obsF){ if(a[1].k==KC){ if(bi==B_sym_observe_i) fprintf(obsF,"r%d:%s %lld\n",c.rank,cstr(I(0)).c_str(),(long long)a[1].c); else fprintf(obsF,"r%d:%s %.17g\n",c.rank,cstr(I(0)).c_str(),asD(a[1].c)); } } return BR_OK;
  case B_sym_is_symbolic: ret=VC(1); return BR_OK;
  case B_sym_shared: { u32 o=newObj(I(0),OSHARED,cur,true); ret=VC(objAddr(o)); return BR_OK; }
  case B_sym_live_allocs: ret=VC(c.live); return BR_OK; case B_sym_live_comms: ret=VC(c.comms); return BR_OK; case B_sym_live_reqs: ret=VC(c.reqs); return BR_OK;
  case B_sym_allow_exit: c.allowExit=I(0)!=0; return BR_OK;
  case B_sym_ite32: case B_sym_ite64: case B_sym_itef: { Val cc=a[0].k==KC?VC(a[0].c!=0):a[0].k==KBOOL?a[0]:bad(a[0])?a[0]:normBool(mkNot(Z3_mk_eq(Z,toBV(a[0],32),bvnum(0,32)))); ret=selectV(cc,a[1],a[2],q.ty); return BR_OK; }
  case B_sym_run_ranks: {
      if(c.pend!=1000000){ if(inSpmd) unsupported("nested sym_run_ranks"); int np=(int)SI(0); u64 f=I(1); inSpmd=true; spmdNp=np; 
        if(ctxs.size()+np>ctxs.capacity()) unsupported("too many rank contexts"); int base=ctxs.size(); mpiReset(np,base);
        for(int i=0;i<np;i++){ ctxs.emplace_back(); initCtx(ctxs.back(),ctxs.size()-1,i); ctxs.back().allowExit=c.allowExit; pushFrame(ctxs.back(),(f-FNBASE)/16,{VC(i),a[2]},-1); }
        ctxs[0].pend=1000000; progress++; return BR_BLOCK; }
      for(size_t i=ctxs.size()-spmdNp;i<ctxs.size();i++) if(ctxs[i].state!=DONE) return BR_BLOCK;
      for(auto&r:reqs) if(r.active){ cur=r.ctx; if(r.kind!=RQ_COLL&&!r.matched) violation("unmatched-message","a posted %s was never matched",r.kind==RQ_SEND?"send":"receive"); violation("request-leak","a nonblocking operation was never waited for"); }
      for(auto&k:colls) if(!k.second.done) violation("collective-mismatch","collective not entered by every rank");
      inSpmd=false; c.pend=-1; for(int i=0;i<spmdNp;i++){ munmap(ctxs.back().stack,sizeof(Val)*(1u<<20)); ctxs.pop_back(); } mpiReset(1,0); return BR_OK; }
  default: unsupported("call to external function %s",fn.name.c_str());
  }
}
