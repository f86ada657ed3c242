// symx: symbolic executor for LLVM bitcode with an MPI-rank model.
//
// Loads bitcode compiled from the real gslib sources linked with a harness and
// executes it.  Values are concrete or Z3 terms; a branch on a symbolic
// condition asks the solver which sides are feasible and forks (fork(2)) when
// both are; every sym_assert is a solver query over all values on the path.
// Ranks of an SPMD section run as coroutines, each with private globals;
// MPI_* calls are interpreted here.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <semaphore.h>
#include <signal.h>
#include <fcntl.h>
#include <math.h>
#include <float.h>
#include <limits.h>
#include <time.h>
#include <stdarg.h>
#include <string.h>
#include <atomic>
#include <map>
#include <unordered_map>
#include <string>
#include <vector>
#include <deque>
#include <set>
#include <algorithm>
using std::string; using std::vector; using std::map;
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

// ---------------------------------------------------------------- options
static string optBC, optEntry="harness_main", optOut=".", optFix, optLogic="QF_BV", optDumpDir;
static int optJobs=8; static double optDeadline=600; static u64 optRlimit=200000000ull;
static u64 optStepLimit=2000000000ull; static int optMaxViol=6, optWits=0; static int optDumpEvery=0;
static bool optVerbose=false, optTwin=false;
static map<string,int> optParam;

// ---------------------------------------------------------------- shared stats
enum { MAXFN=4096, MAXCOV=256, MAXV=64 };
struct Shared {
  sem_t tok;
  std::atomic<u64> paths, pathsEnded, excluded, limited, forks;
  std::atomic<u64> queries, sat, unsat, unknown, solver_ns, slow_ns;
  std::atomic<u64> assertsSym, assertsConst, steps, reach;
  std::atomic<u64> nviol, stop, timedout, crashed, unsupported, dumpn;
  std::atomic<u8> fnseen[MAXFN];
  std::atomic<u8> cov[MAXCOV]; std::atomic<u8> covReq[MAXCOV]; char covName[MAXCOV][64]; std::atomic<u32> ncov; sem_t lock;
  char violKey[MAXV][256]; std::atomic<u32> nViolKeys;
  char unsup[8][256]; std::atomic<u32> nunsup;
  char notes[64][96]; i64 noteMax[64]; std::atomic<u32> nnote;
  double t0;
};
static Shared *sh;
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }

// ---------------------------------------------------------------- values
enum K : u8 { KC=0, KBV, KBOOL, KREAL, KFP, KUNDEF, KBYTES, KAGG };
struct Val { u64 c; Z3_ast s; K k; };
static inline Val VC(u64 c){ Val v; v.c=c; v.s=0; v.k=KC; return v; }
static inline Val VS(K k,Z3_ast s){ Val v; v.c=0; v.s=s; v.k=k; return v; }
static inline Val VU(){ Val v; v.c=0; v.s=0; v.k=KUNDEF; return v; }
static inline u64 maskw(unsigned w){ return w>=64?~0ull:((1ull<<w)-1); }
static inline i64 sx(u64 v,unsigned w){ return w>=64?(i64)v:((i64)(v<<(64-w))>>(64-w)); }
static inline double asD(u64 c){ double d; memcpy(&d,&c,8); return d; }
static inline u64 fromD(double d){ u64 c; memcpy(&c,&d,8); return c; }
static inline float asF(u64 c){ u32 x=(u32)c; float d; memcpy(&d,&x,4); return d; }
static inline u64 fromF(float d){ u32 c; memcpy(&c,&d,4); return c; }

struct PathEnd { }; // thrown to finish the path

enum TY : u8 { TI, TP, TF, TD, TAGG, TVOID };
struct TyInfo { TY t; unsigned w; int agg; }; // w bits; agg index
struct AggTy { vector<TyInfo> f; vector<u64> off; u64 size; };
static vector<AggTy> aggTys;

// byte with symbolic content
struct SB { Z3_ast a; u8 idx,n; K k; };
struct ByteV { u8 st; u8 d; SB sb; };            // st 0 undef 1 conc 2 sym
static vector<vector<Val>> aggPool; static vector<vector<ByteV>> bytePool;

// ---------------------------------------------------------------- memory
struct Flight { u64 lo,hi; bool write; int req; };
struct Obj { u64 size; u8 *d,*sh; SB *sb; u8 freed,ro,kind; short ctx; int site; vector<Flight> *fl; };
enum { OHEAP,OSTACK,OGLOB,OSHARED };
static vector<Obj> objs; static vector<u32> stackFree;
static const u64 ABASE=0x10000;
static inline u64 objAddr(u32 id){ return ((u64)(id+1)<<32)+ABASE; }
static const u64 FNBASE=0x7F00000000000000ull;

static u32 newObj(u64 size,int kind,int ctx,bool zero){
  u32 id; bool reuse=false;
  if(kind==OSTACK && !stackFree.empty()){ id=stackFree.back(); stackFree.pop_back(); reuse=true; }
  else { id=objs.size(); objs.push_back(Obj()); }
  Obj &o=objs[id]; (void)reuse;
  o.size=size; o.kind=kind; o.ctx=ctx; o.freed=0; o.ro=0; o.fl=0; o.site=0;
  u8 *m=(u8*)malloc(2*size+16);
  if(!m){ fprintf(stderr,"symx: host allocation failed\n"); _exit(4); }
  o.d=m; o.sh=m+size; o.sb=0;
  if(zero) memset(o.d,0,size), memset(o.sh,1,size); else memset(o.d,0xcc,size), memset(o.sh,0,size);
  return id;
}
static void dropObj(u32 id){
  Obj &o=objs[id]; free(o.d); free(o.sb); o.d=0; o.sb=0; o.freed=1; delete o.fl; o.fl=0;
}

// ---------------------------------------------------------------- code
enum OPC : u8 { OP_NOP, OP_ALLOCA, OP_LOAD, OP_STORE, OP_GEP, OP_BIN, OP_ICMP, OP_FCMP, OP_FBIN, OP_FNEG,
  OP_CAST, OP_SELECT, OP_BR, OP_CBR, OP_SWITCH, OP_RET, OP_CALL, OP_UNREACH, OP_EXTRACT, OP_INSERT, OP_FREEZE };
struct Ins { OPC op; u8 sub; TyInfo ty, ty2; int dst,a,b,c; u64 imm; int aux; int line; };
struct ConstOp { int gv; i64 off; Val v; };   // gv>=0: global gv + off
struct GepAux { vector<std::pair<int,std::pair<i64,int>>> idx; i64 off; }; // (operand,(scale,width))
struct PhiCopy { int dst,src; };
struct CallAux { int fn; vector<int> args; vector<TyInfo> aty; vector<u64> byval; };
struct SwAux { vector<std::pair<u64,int>> cs; };
struct Fn { string name; string file; vector<Ins> code; int nregs=0; int nargs=0; bool decl=false; int builtin=0; bool fromRepo=false; u64 addr; bool vararg=false; };
static vector<Fn> fns; static map<string,int> fnIdx;
static vector<ConstOp> consts; static vector<GepAux> gepAux; static vector<CallAux> callAux; static vector<SwAux> swAux;
static vector<vector<PhiCopy>> edges;
struct GV { string name; u64 size; bool ro; vector<u8> init; vector<std::pair<u64,ConstOp>> rel; bool ext; bool undefinit; };
static vector<GV> gvs; static map<const llvm::GlobalValue*,int> gvIdx;

struct Frame { int fn; int pc; Val *r; int retdst; vector<u32> allocas; int site; };
enum ST : u8 { RUN, BLOCKED, DONE };
struct Ctx { vector<Frame> st; Val *stack; u64 sp; ST state; int rank; vector<u64> gbase; bool allowExit=false; long live=0,comms=0,reqs=0; Val ret;
  int pend=-1; int pendComm=0; u64 pendSeq=0; const char*why=""; bool fresh=true; };
static vector<Ctx> ctxs; static int cur=0; static int spmdNp=0; static bool inSpmd=false;
static u64 steps=0, curStepsFlushed=0;

// ---------------------------------------------------------------- z3
static Z3_context Z; static Z3_solver S; static vector<Z3_ast> pc; static Z3_model model=0;
static Z3_sort sReal,sInt,sBool; static map<int,Z3_sort> bvS;
static bool freshSolver=false;
static Z3_sort bvSort(unsigned w){ auto &s=bvS[w]; if(!s) s=Z3_mk_bv_sort(Z,w); return s; }
static void z3err(Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); fflush(0); _exit(5); }
static Z3_ast bvnum(u64 v,unsigned w){ return Z3_mk_unsigned_int64(Z,v&maskw(w),bvSort(w)); }
static Z3_ast mkNot(Z3_ast a){ return Z3_mk_not(Z,a); }
static Z3_ast and2(Z3_ast a,Z3_ast b){ Z3_ast x[2]={a,b}; return Z3_mk_and(Z,2,x); }
static Z3_ast or2(Z3_ast a,Z3_ast b){ Z3_ast x[2]={a,b}; return Z3_mk_or(Z,2,x); }
static void violation(const char *kind,const char *fmt,...);
[[noreturn]] static void endPath();
[[noreturn]] static void unsupported(const char *fmt,...);

static string dblRational(double d){ // exact
  if(d==0) return "0"; int e; double m=frexp(d,&e); i64 M=(i64)ldexp(m,53); e-=53;
  while(!(M&1)) M>>=1,e++;
  char b[64]; snprintf(b,64,"%lld",(long long)M); string s=b;
  if(e==0) return s;
  // power of two as decimal string via z3-friendly big integer
  auto pow2=[](int n){ string r="1"; for(int i=0;i<n;i++){ int c=0; for(int j=(int)r.size()-1;j>=0;j--){ int d=(r[j]-'0')*2+c; r[j]='0'+d%10; c=d/10; } if(c) r.insert(r.begin(),'0'+c); } return r; };
  if(e<0) return s+"/"+pow2(-e);
  // multiply: use z3 numeral expression M*2^e
  string p=pow2(e); // schoolbook
  bool neg=s[0]=='-'; if(neg) s=s.substr(1);
  vector<int> r(s.size()+p.size(),0);
  for(int i=s.size()-1;i>=0;i--) for(int j=p.size()-1;j>=0;j--) r[i+j+1]+=(s[i]-'0')*(p[j]-'0');
  for(int i=r.size()-1;i>0;i--) r[i-1]+=r[i]/10,r[i]%=10;
  string o; for(int x:r) o+=char('0'+x); size_t q=o.find_first_not_of('0'); o=o.substr(q==string::npos?o.size()-1:q);
  return (neg?"-":"")+o;
}
static std::unordered_map<u64,Z3_ast> realCache;
static Z3_ast realNum(double d){
  if(!(d-d==0)) unsupported("non-finite double mixed with a real-sorted symbolic value");
  u64 c=fromD(d); auto it=realCache.find(c); if(it!=realCache.end()) return it->second;
  Z3_ast a=Z3_mk_numeral(Z,dblRational(d).c_str(),sReal); realCache[c]=a; return a;
}
static Z3_lbool check(Z3_ast extra){
  double t=now(); Z3_lbool r; sh->queries++;
  static Z3_solver last=0;
  if(freshSolver){
    if(last) Z3_solver_dec_ref(Z,last);
    Z3_symbol lg=Z3_mk_string_symbol(Z,optLogic.c_str());
    last=Z3_mk_solver_for_logic(Z,lg); Z3_solver_inc_ref(Z,last);
    Z3_params p=Z3_mk_params(Z); Z3_params_inc_ref(Z,p); Z3_params_set_uint(Z,p,Z3_mk_string_symbol(Z,"rlimit"),(unsigned)std::min<u64>(optRlimit,4000000000u)); Z3_solver_set_params(Z,last,p); Z3_params_dec_ref(Z,p);
    for(Z3_ast a:pc) Z3_solver_assert(Z,last,a);
    if(extra) Z3_solver_assert(Z,last,extra);
    r=Z3_solver_check(Z,last);
    if(r==Z3_L_TRUE){ Z3_model m=Z3_solver_get_model(Z,last); Z3_model_inc_ref(Z,m); extern Z3_model lastModel; extern void setLast(Z3_model); setLast(m); }
  } else {
    last=S;
    if(extra){
      Z3_solver_push(Z,S); Z3_solver_assert(Z,S,extra); r=Z3_solver_check(Z,S); }
    else r=Z3_solver_check(Z,S);
    if(r==Z3_L_TRUE){ Z3_model m=Z3_solver_get_model(Z,S); Z3_model_inc_ref(Z,m); extern void setLast(Z3_model); setLast(m); }
    if(extra) Z3_solver_pop(Z,S,1);
  }
  double dt=now()-t; sh->solver_ns+=(u64)(dt*1e9); if(dt>1) sh->slow_ns+=(u64)(dt*1e9);
  if(r==Z3_L_TRUE) sh->sat++; else if(r==Z3_L_FALSE) sh->unsat++; else sh->unknown++;
  if(optDumpEvery && !optDumpDir.empty() && extra && (sh->queries%optDumpEvery)==0){
    u64 n=sh->dumpn++; if(n<200){ string f=optDumpDir+"/q"+std::to_string(n)+".smt2"; FILE*o=fopen(f.c_str(),"w");
      Z3_ast conj=extra; for(Z3_ast a:pc) conj=and2(conj,a);
      fprintf(o,"; expected %s\n%s",r==Z3_L_TRUE?"sat":r==Z3_L_FALSE?"unsat":"unknown",Z3_benchmark_to_smtlib_string(Z,"q",optLogic=="ALL"?"ALL":optLogic.c_str(),r==Z3_L_TRUE?"sat":r==Z3_L_FALSE?"unsat":"unknown","",0,0,conj)); fclose(o);} }
  return r;
}
Z3_model lastModel=0; void setLast(Z3_model m){ if(lastModel) Z3_model_dec_ref(Z,lastModel); lastModel=m; }
static void useLast(){ if(model) Z3_model_dec_ref(Z,model); model=lastModel; lastModel=0; }
static void addPC(Z3_ast a){ pc.push_back(a); if(!freshSolver) Z3_solver_assert(Z,S,a); }
static Z3_ast simp(Z3_ast a){ return Z3_simplify(Z,a); }
static bool expandOn=false; static Z3_ast simpSom(Z3_ast a){ static Z3_params p=0; if(!p){ p=Z3_mk_params(Z); Z3_params_inc_ref(Z,p); Z3_params_set_bool(Z,p,Z3_mk_string_symbol(Z,"som"),true); Z3_params_set_uint(Z,p,Z3_mk_string_symbol(Z,"som_blowup"),1000000); } return Z3_simplify_ex(Z,a,p); }
static map<Z3_ast,std::pair<double,double>> realRange;
static void ensureModel(){ if(!model){ if(check(0)==Z3_L_TRUE) useLast(); } }
static Z3_ast evalM(Z3_ast a){ ensureModel(); if(!model) return 0; Z3_ast r; if(!Z3_model_eval(Z,model,a,true,&r)) return 0; return r; }

// ---------------------------------------------------------------- forking
static void checkStop(){
  if(sh->stop) { sh->limited++; endPath(); }
  if(now()-sh->t0>optDeadline){ sh->timedout=1; sh->limited++; endPath(); }
}
static bool isAsync=false, isRoot=true;
static void flushSteps(){ sh->steps+=steps-curStepsFlushed; curStepsFlushed=steps; }
// returns true for the caller that should take side A
static bool forkSides(){
  checkStop(); sh->forks++;
  flushSteps(); fflush(0);
  bool async=sem_trywait(&sh->tok)==0;
  pid_t p=fork();
  if(p<0){ // cannot fork: explore only side A, say so
    if(async) sem_post(&sh->tok); sh->timedout=1; return true; }
  if(p==0){ isRoot=false; isAsync=async; sh->paths++; return false; }
  if(!async){ int st; while(waitpid(p,&st,0)<0 && errno==EINTR); if(!WIFEXITED(st)||WEXITSTATUS(st)!=0) sh->crashed++; checkStop(); }
  else { int st; pid_t q; // reap finished async children cheaply
    while((q=waitpid(-1,&st,WNOHANG))>0) if(!WIFEXITED(st)||WEXITSTATUS(st)!=0) sh->crashed++; }
  return true;
}
// decide a symbolic condition: returns concrete truth on this path
static bool decide(Z3_ast c){
  c=simp(c); Z3_lbool bv=Z3_get_bool_value(Z,c);
  if(bv==Z3_L_TRUE) return true; if(bv==Z3_L_FALSE) return false;
  ensureModel();
  bool first=true; bool have=false;
  if(model){ Z3_ast e=evalM(c); Z3_lbool b=e?Z3_get_bool_value(Z,e):Z3_L_UNDEF; if(b!=Z3_L_UNDEF) have=true, first=(b==Z3_L_TRUE); }
  Z3_ast A=first?c:mkNot(c), B=first?mkNot(c):c;
  Z3_lbool rb=check(B);
  if(!have){ // no model: other side must be checked too
    Z3_model mB=0; if(rb==Z3_L_TRUE){ mB=lastModel; lastModel=0; }
    if(rb==Z3_L_FALSE){ addPC(A); return first; }
    Z3_lbool ra=check(A);
    if(ra==Z3_L_FALSE){ if(model) Z3_model_dec_ref(Z,model); model=mB; addPC(B); return !first; }
    Z3_model mA=0; if(ra==Z3_L_TRUE){ mA=lastModel; lastModel=0; }
    if(forkSides()){ addPC(A); model=mA; return first; } else { addPC(B); model=mB; return !first; }
  }
  if(rb==Z3_L_FALSE){ return first; }
  Z3_model mB=0; if(rb==Z3_L_TRUE){ mB=lastModel; lastModel=0; }
  if(forkSides()){ addPC(A); return first; }
  addPC(B); if(model) Z3_model_dec_ref(Z,model); model=mB; return !first;
}
static u64 concretizeBV(Z3_ast a,unsigned w){
  a=simp(a); u64 v; if(Z3_get_ast_kind(Z,a)==Z3_NUMERAL_AST && Z3_get_numeral_uint64(Z,a,&v)) return v&maskw(w);
  for(;;){
    ensureModel(); if(!model) unsupported("no model while concretizing");
    Z3_ast e=evalM(a); if(!e || !Z3_get_numeral_uint64(Z,e,&v)) unsupported("concretization: model value not numeral");
    if(decide(Z3_mk_eq(Z,a,bvnum(v,w)))) return v&maskw(w);
  }
}

// ---------------------------------------------------------------- conversions
static Z3_ast bitsOfFP(Z3_ast a){ return Z3_mk_fpa_to_ieee_bv(Z,a); }
static Z3_ast toBool(const Val&v){
  if(v.k==KC) return v.c&1?Z3_mk_true(Z):Z3_mk_false(Z);
  if(v.k==KBOOL) return v.s;
  if(v.k==KBV) return Z3_mk_eq(Z,v.s,bvnum(1,1));
  unsupported("bool from kind %d",v.k);
}
static Z3_ast toBV(const Val&v,unsigned w){
  switch(v.k){
  case KC: return bvnum(v.c,w);
  case KBV: return v.s;
  case KBOOL: return Z3_mk_ite(Z,v.s,bvnum(1,w),bvnum(0,w));
  case KFP: return bitsOfFP(v.s);
  case KREAL: unsupported("bit-level use of a real-sorted double");
  default: unsupported("bit-vector from kind %d",v.k);
  }
}
static Z3_sort fpSort(unsigned w){ return w==32?Z3_mk_fpa_sort_32(Z):Z3_mk_fpa_sort_64(Z); }
static Z3_ast toFP(const Val&v,unsigned w){
  if(v.k==KFP) return v.s;
  if(v.k==KC) return Z3_mk_fpa_to_fp_bv(Z,bvnum(v.c,w),fpSort(w));
  if(v.k==KBV) return Z3_mk_fpa_to_fp_bv(Z,v.s,fpSort(w));
  unsupported("fp from kind %d",v.k);
}
static Z3_ast toReal(const Val&v,unsigned w){
  if(v.k==KREAL) return v.s;
  if(v.k==KC) return realNum(w==32?(double)asF(v.c):asD(v.c));
  unsupported("real from kind %d (bit-precise value mixed with real-sorted one)",v.k);
}
static bool bad(const Val&v){ return v.k>=KUNDEF; }

static Val normBV(Z3_ast a,unsigned w){ // fold numerals
  if(w==1){ return VS(KBOOL,Z3_mk_eq(Z,a,bvnum(1,1))); }
  return VS(KBV,a);
}
static Val normBool(Z3_ast a){ return VS(KBOOL,a); }

// ---------------------------------------------------------------- diagnostics
static string locStr(){
  if(ctxs.empty()||ctxs[cur].st.empty()) return "?";
  string s; auto &st=ctxs[cur].st; int n=0;
  for(int i=(int)st.size()-1;i>=0&&n<8;i--,n++){ Fn&f=fns[st[i].fn]; int p=st[i].pc; if(i<(int)st.size()) p=std::max(0,p-1);
    int line=p<(int)f.code.size()?f.code[p].line:0;
    if(n) s+=" < "; s+=f.name+"("+f.file.substr(f.file.find_last_of('/')+1)+":"+std::to_string(line)+")"; }
  return s;
}
// inputs recorded for witnesses
struct Input { string name; K k; unsigned w; Z3_ast s; u64 c; bool intreal; };
static vector<Input> inputs; static map<std::pair<int,string>,int> nameCount;
static string jesc(const string&s){ string o; for(char c:s){ if(c=='"'||c=='\\') o+='\\',o+=c; else if(c=='\n') o+="\\n"; else if((u8)c<32) o+=' '; else o+=c; } return o; }
static double ratToD(Z3_ast a){ // numeral -> double
  string s=Z3_get_numeral_decimal_string(Z,a,40); 
  if(!s.empty()&&s.back()=='?') s.pop_back();
  return strtod(s.c_str(),0);
}
static void writeWitness(FILE*f,Z3_model m){
  for(auto &in:inputs){
    if(in.k==KC){ fprintf(f,"%s c %llu\n",in.name.c_str(),(unsigned long long)in.c); continue; }
    Z3_ast e=0; Z3_ast t=in.s; if(in.k==KFP) t=bitsOfFP(t);
    if(!m || !Z3_model_eval(Z,m,t,true,&e)) { fprintf(f,"%s c 0\n",in.name.c_str()); continue; }
    if(in.k==KREAL){
      if(Z3_get_ast_kind(Z,e)==Z3_APP_AST || Z3_is_algebraic_number(Z,e)){ // algebraic
        string s=Z3_get_numeral_decimal_string(Z,e,40); if(!s.empty()&&s.back()=='?') s.pop_back();
        fprintf(f,"%s d %.17g\n",in.name.c_str(),strtod(s.c_str(),0));
      } else fprintf(f,"%s d %.17g\n",in.name.c_str(),ratToD(e));
    } else { u64 v=0; e=simp(e); Z3_get_numeral_uint64(Z,e,&v); fprintf(f,"%s c %llu\n",in.name.c_str(),(unsigned long long)v); }
  }
}
static void recordViolation(const string&kind,const string&key,const string&msg,Z3_model m){
  sem_wait(&sh->lock);
  bool dup=false; for(u32 i=0;i<sh->nViolKeys;i++) if(key==sh->violKey[i]) dup=true;
  if(!dup && sh->nViolKeys<MAXV){
    u32 n=sh->nViolKeys; snprintf(sh->violKey[n],256,"%s",key.c_str());
    string base=optOut+"/viol"+std::to_string(n);
    FILE*f=fopen((base+".wit").c_str(),"w"); if(f){ writeWitness(f,m); fclose(f);} 
    f=fopen((base+".txt").c_str(),"w"); if(f){ fprintf(f,"kind: %s\nkey: %s\nmsg: %s\nrank: %d\nwhere: %s\n",kind.c_str(),key.c_str(),msg.c_str(),ctxs.empty()?-1:ctxs[cur].rank,locStr().c_str()); fclose(f);} 
    sh->nViolKeys++;
    if((int)sh->nViolKeys>=optMaxViol) sh->stop=1;
  }
  sh->nviol++; sem_post(&sh->lock);
}
static Z3_model niceModel(Z3_ast extra){ // prefer small dyadic values for real inputs
  vector<Z3_ast> cs; if(extra) cs.push_back(extra);
  bool any=false; Z3_ast one=realNum(1);(void)one;
  if(optLogic.find("NRA")==string::npos) for(auto&in:inputs) if(in.k==KREAL){ any=true; { Z3_ast mm[2]={in.s,realNum(1024)}; cs.push_back(Z3_mk_is_int(Z,Z3_mk_mul(Z,2,mm))); }
      cs.push_back(Z3_mk_le(Z,in.s,realNum(1048576))); cs.push_back(Z3_mk_ge(Z,in.s,realNum(-1048576))); }
  if(!any) return 0;
  Z3_solver s=Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z,s);
  Z3_params p=Z3_mk_params(Z); Z3_params_inc_ref(Z,p); Z3_params_set_uint(Z,p,Z3_mk_string_symbol(Z,"rlimit"),20000000); Z3_solver_set_params(Z,s,p); Z3_params_dec_ref(Z,p);
  for(Z3_ast a:pc) Z3_solver_assert(Z,s,a); for(Z3_ast a:cs) Z3_solver_assert(Z,s,a);
  Z3_model m=0; if(Z3_solver_check(Z,s)==Z3_L_TRUE){ m=Z3_solver_get_model(Z,s); Z3_model_inc_ref(Z,m);} return m;
}
static void violation(const char *kind,const char *fmt,...){
  char b[512]; va_list ap; va_start(ap,fmt); vsnprintf(b,512,fmt,ap); va_end(ap);
  ensureModel();
  // key: kind + innermost repo function (line-independent)
  string fn="?"; if(!ctxs.empty()) for(int i=(int)ctxs[cur].st.size()-1;i>=0;i--) if(fns[ctxs[cur].st[i].fn].fromRepo){ fn=fns[ctxs[cur].st[i].fn].name; break; }
  Z3_model m=niceModel(0);
  recordViolation(kind,string(kind)+"@"+fn,b,m?m:model);
  endPath();
}
static void unsupported(const char *fmt,...){
  char b[400]; va_list ap; va_start(ap,fmt); vsnprintf(b,400,fmt,ap); va_end(ap);
  sh->unsupported++; string s=string(b)+" at "+locStr();
  u32 n=sh->nunsup; if(n<8){ sh->nunsup++; snprintf(sh->unsup[n],256,"%s",s.c_str()); }
  endPath();
}
static void finishProcess(){
  flushSteps(); fflush(0);
  if(isRoot) return; // root handled in main
  if(isAsync) sem_post(&sh->tok);
  _exit(0);
}
static void endPath(){ throw PathEnd(); }

// ---------------------------------------------------------------- memory access
static Val AGGv(vector<Val> v){ Val r; r.k=KAGG; r.s=0; r.c=aggPool.size(); aggPool.push_back(std::move(v)); return r; }

static Obj* resolve(u64 addr,u64 n,bool write,u64 &off,const char*what){
  u64 hi=addr>>32; u32 lo=(u32)addr;
  if(hi==0){ violation(addr<4096?"null-deref":"bad-pointer","%s of %llu bytes at 0x%llx",what,(unsigned long long)n,(unsigned long long)addr); }
  if(hi-1>=objs.size()) violation("bad-pointer","%s of %llu bytes at wild pointer 0x%llx",what,(unsigned long long)n,(unsigned long long)addr);
  Obj*o=&objs[hi-1]; i64 of=(i64)lo-(i64)ABASE;
  if(o->freed) violation("use-after-free","%s of %llu bytes at offset %lld of a freed object of %llu bytes",what,(unsigned long long)n,(long long)of,(unsigned long long)o->size);
  if(of<0 || (u64)of+n>o->size) violation("out-of-bounds","%s of %llu bytes at offset %lld of an object of %llu bytes",what,(unsigned long long)n,(long long)of,(unsigned long long)o->size);
  if(write && o->ro) violation("write-to-const","%s to constant object",what);
  off=of;
  if(o->fl && n) for(auto&f:*o->fl) if((u64)of<f.hi && f.lo<(u64)of+n && (write||f.write))
    violation("inflight-race","%s of a buffer owned by a pending MPI %s",what,f.write?"receive/reduction":"send");
  return o;
}
static void wrConc(Obj*o,u64 off,const void*p,u64 n){ memcpy(o->d+off,p,n); memset(o->sh+off,1,n); }
static void needSB(Obj*o){ if(!o->sb) o->sb=(SB*)calloc(o->size,sizeof(SB)); }

static Val loadScalar(Obj*o,u64 off,TyInfo ty){
  unsigned n=(ty.w+7)/8; const u8*s=o->sh+off;
  bool allc=true; for(unsigned i=0;i<n;i++) if(s[i]!=1){ allc=false; break; }
  if(allc){ u64 c=0; memcpy(&c,o->d+off,n); if(ty.t==TI) c&=maskw(ty.w); return VC(c); }
  bool anyu=false,allu=true,anys=false; for(unsigned i=0;i<n;i++){ if(s[i]==0) anyu=true; else allu=false; if(s[i]==2) anys=true; }
  if(allu) return VU();
  if(anys){ SB&b=o->sb[off];
    if(s[0]==2 && b.idx==0 && b.n==n){ bool ok=true; for(unsigned i=1;i<n;i++) if(s[i]!=2||o->sb[off+i].a!=b.a||o->sb[off+i].idx!=i||o->sb[off+i].n!=n){ ok=false; break; }
      if(ok){ if(ty.w==1) return VS(KBOOL,Z3_mk_eq(Z,Z3_mk_extract(Z,0,0,b.a),bvnum(1,1))); return VS(b.k,b.a); } }
  }
  bool real=false; if(anys) for(unsigned i=0;i<n;i++) if(s[i]==2 && (o->sb[off+i].k==KREAL||o->sb[off+i].k==KFP)) real=true;
  if(anyu||real){ vector<ByteV> bv(n); for(unsigned i=0;i<n;i++){ bv[i].st=s[i]; bv[i].d=o->d[off+i]; if(s[i]==2) bv[i].sb=o->sb[off+i]; }
    Val v; v.k=KBYTES; v.s=0; v.c=bytePool.size(); bytePool.push_back(bv); return v; }
  // concat
  Z3_ast r=0; for(int i=(int)n-1;i>=0;i--){ Z3_ast b; if(s[i]==1) b=bvnum(o->d[off+i],8); else { SB&q=o->sb[off+i]; b=q.n==1?q.a:Z3_mk_extract(Z,8*q.idx+7,8*q.idx,q.a); }
    r=r?Z3_mk_concat(Z,r,b):b; }
  r=simp(r);
  if(ty.w<8*n) r=Z3_mk_extract(Z,ty.w-1,0,r);
  u64 v; if(Z3_get_ast_kind(Z,r)==Z3_NUMERAL_AST&&Z3_get_numeral_uint64(Z,r,&v)) return VC(v);
  if(ty.w==1) return VS(KBOOL,Z3_mk_eq(Z,r,bvnum(1,1)));
  return VS(KBV,r);
}
static void storeScalar(Obj*o,u64 off,TyInfo ty,const Val&v){
  unsigned n=(ty.w+7)/8;
  switch(v.k){
  case KC: { u64 c=v.c; memcpy(o->d+off,&c,n); memset(o->sh+off,1,n); return; }
  case KUNDEF: memset(o->sh+off,0,n); return;
  case KBYTES: { auto &b=bytePool[v.c]; for(unsigned i=0;i<n&&i<b.size();i++){ o->sh[off+i]=b[i].st; o->d[off+i]=b[i].d; if(b[i].st==2){ needSB(o); o->sb[off+i]=b[i].sb; } } return; }
  default: break;
  }
  Z3_ast a=v.s; K k=v.k;
  if(k==KBOOL){ a=Z3_mk_ite(Z,a,bvnum(1,8*n),bvnum(0,8*n)); k=KBV; }
  else if(k==KBV && ty.w<8*n) a=Z3_mk_zero_ext(Z,8*n-ty.w,a);
  needSB(o); for(unsigned i=0;i<n;i++){ o->sh[off+i]=2; o->sb[off+i]=SB{a,(u8)i,(u8)n,k}; }
}
static Val loadAt(u64 addr,TyInfo ty){
  u64 off; 
  if(ty.t==TAGG){ AggTy&a=aggTys[ty.agg]; Obj*o=resolve(addr,a.size,false,off,"read"); vector<Val> r; for(size_t i=0;i<a.f.size();i++) r.push_back(a.f[i].t==TAGG?loadAt(addr+a.off[i],a.f[i]):loadScalar(o,off+a.off[i],a.f[i])); return AGGv(r); }
  Obj*o=resolve(addr,(ty.w+7)/8,false,off,"read"); return loadScalar(o,off,ty);
}
static void storeAt(u64 addr,TyInfo ty,const Val&v){
  u64 off;
  if(ty.t==TAGG){ AggTy&a=aggTys[ty.agg]; if(v.k==KUNDEF) return; for(size_t i=0;i<a.f.size();i++) storeAt(addr+a.off[i],a.f[i],aggPool[v.c][i]); return; }
  Obj*o=resolve(addr,(ty.w+7)/8,true,off,"write"); storeScalar(o,off,ty,v);
}
static void copyBytes(u64 dst,u64 src,u64 n,bool move){
  if(!n) return; u64 so,d0; Obj*s=resolve(src,n,false,so,"memcpy read"); Obj*d=resolve(dst,n,true,d0,"memcpy write");
  if(!move && s==d && so!=d0 && so<d0+n && d0<so+n) violation("memcpy-overlap","memcpy with overlapping ranges");
  if(s->sb){ needSB(d); memmove(d->sb+d0,s->sb+so,n*sizeof(SB)); }
  memmove(d->d+d0,s->d+so,n); memmove(d->sh+d0,s->sh+so,n);
}
static u64 concI(const Val&v,unsigned w,const char*what){
  if(v.k==KC) return v.c;
  if(v.k==KUNDEF||v.k==KBYTES) violation("uninitialized","uninitialized value used as %s",what);
  return concretizeBV(toBV(v,w),w);
}
static string cstr(u64 addr){ string s; for(int i=0;i<4000;i++){ u64 off; Obj*o=resolve(addr+i,1,false,off,"string read"); if(o->sh[off]!=1) break; char c=o->d[off]; if(!c) break; s+=c; } return s; }

// ---------------------------------------------------------------- arithmetic
static Val binop(unsigned op,unsigned w,const Val&a,const Val&b){
  using I=llvm::Instruction;
  if(a.k==KC && b.k==KC){ u64 x=a.c,y=b.c,m=maskw(w),r=0;
    switch(op){
    case I::Add: r=x+y; break; case I::Sub: r=x-y; break; case I::Mul: r=x*y; break;
    case I::UDiv: if(!y) violation("div-by-zero","integer division by zero"); r=x/y; break;
    case I::URem: if(!y) violation("div-by-zero","integer remainder by zero"); r=x%y; break;
    case I::SDiv: { i64 p=sx(x,w),q=sx(y,w); if(!q) violation("div-by-zero","integer division by zero"); r=(q==-1)?(u64)0-(u64)p:(u64)(p/q); break; }
    case I::SRem: { i64 p=sx(x,w),q=sx(y,w); if(!q) violation("div-by-zero","integer remainder by zero"); r=(q==-1)?0:(u64)(p%q); break; }
    case I::Shl: r=y>=w?0:x<<y; break; case I::LShr: r=y>=w?0:x>>y; break;
    case I::AShr: { i64 p=sx(x,w); r=(u64)(y>=w?(p<0?-1:0):p>>y); break; }
    case I::And: r=x&y; break; case I::Or: r=x|y; break; case I::Xor: r=x^y; break;
    default: unsupported("binop %u",op); }
    return VC(r&m); }
  if(bad(a)||bad(b)){
    if(a.k==KAGG||b.k==KAGG) unsupported("aggregate arithmetic");
    if(op==I::And && ((a.k==KC&&a.c==0)||(b.k==KC&&b.c==0))) return VC(0);
    // byte-granular shift/mask of partially initialised data
    if(a.k==KBYTES && b.k==KC && (op==I::LShr||op==I::Shl) && (b.c%8)==0){ auto v=bytePool[a.c]; int n=v.size(),k=b.c/8; vector<ByteV> r(n); for(int i=0;i<n;i++){ int j=op==I::LShr?i+k:i-k; if(j>=0&&j<n) r[i]=v[j]; else r[i].st=1,r[i].d=0; } Val q; q.k=KBYTES;q.s=0;q.c=bytePool.size(); bytePool.push_back(r); return q; }
    return VU(); }
  if(w==1 && (op==I::And||op==I::Or||op==I::Xor)){
    if(a.k==KC||b.k==KC){ const Val&c=a.k==KC?a:b; const Val&o=a.k==KC?b:a;
      if(op==I::And) return c.c?o:VC(0); if(op==I::Or) return c.c?VC(1):o; return c.c?normBool(mkNot(toBool(o))):o; }
    Z3_ast p=toBool(a),q=toBool(b); return normBool(op==I::And?and2(p,q):op==I::Or?or2(p,q):Z3_mk_xor(Z,p,q)); }
  // light simplifications
  if(b.k==KC){ u64 y=b.c; switch(op){ case I::Add: case I::Sub: case I::Or: case I::Xor: case I::Shl: case I::LShr: case I::AShr: if(y==0) return a; break;
      case I::Mul: if(y==0) return VC(0); if(y==1) return a; break; case I::And: if(y==0) return VC(0); if(y==maskw(w)) return a; break; case I::UDiv: case I::SDiv: if(y==1) return a; break; case I::URem: if(y==1) return VC(0); break; } }
  if(a.k==KC){ u64 x=a.c; switch(op){ case I::Add: case I::Or: case I::Xor: if(x==0) return b; break; case I::Mul: if(x==0) return VC(0); if(x==1) return b; break; case I::And: if(x==0) return VC(0); if(x==maskw(w)) return b; break; } }
  Z3_ast p=toBV(a,w),q=toBV(b,w),r;
  switch(op){
  case I::Add: r=Z3_mk_bvadd(Z,p,q); break; case I::Sub: r=Z3_mk_bvsub(Z,p,q); break; case I::Mul: r=Z3_mk_bvmul(Z,p,q); break;
  case I::UDiv: case I::URem: case I::SDiv: case I::SRem:
    if(b.k!=KC){ if(decide(Z3_mk_eq(Z,q,bvnum(0,w)))) violation("div-by-zero","integer division by zero"); }
    else if(b.c==0) violation("div-by-zero","integer division by zero");
    r=op==I::UDiv?Z3_mk_bvudiv(Z,p,q):op==I::URem?Z3_mk_bvurem(Z,p,q):op==I::SDiv?Z3_mk_bvsdiv(Z,p,q):Z3_mk_bvsrem(Z,p,q); break;
  case I::Shl: r=Z3_mk_bvshl(Z,p,q); break; case I::LShr: r=Z3_mk_bvlshr(Z,p,q); break; case I::AShr: r=Z3_mk_bvashr(Z,p,q); break;
  case I::And: r=Z3_mk_bvand(Z,p,q); break; case I::Or: r=Z3_mk_bvor(Z,p,q); break; case I::Xor: r=Z3_mk_bvxor(Z,p,q); break;
  default: unsupported("binop %u",op); }
  return normBV(r,w);
}
static Val icmp(unsigned pred,unsigned w,const Val&a,const Val&b){
  using P=llvm::CmpInst;
  if(a.k==KC&&b.k==KC){ u64 x=a.c,y=b.c; i64 p=sx(x,w),q=sx(y,w); bool r=false;
    switch(pred){ case P::ICMP_EQ:r=x==y;break; case P::ICMP_NE:r=x!=y;break; case P::ICMP_UGT:r=x>y;break; case P::ICMP_UGE:r=x>=y;break; case P::ICMP_ULT:r=x<y;break; case P::ICMP_ULE:r=x<=y;break;
      case P::ICMP_SGT:r=p>q;break; case P::ICMP_SGE:r=p>=q;break; case P::ICMP_SLT:r=p<q;break; case P::ICMP_SLE:r=p<=q;break; }
    return VC(r); }
  if(bad(a)||bad(b)) return VU();
  if(w==1){ Z3_ast p=toBool(a),q=toBool(b); if(pred==P::ICMP_EQ) return normBool(Z3_mk_iff(Z,p,q)); if(pred==P::ICMP_NE) return normBool(Z3_mk_xor(Z,p,q)); }
  // (zext bool) ==/!= const
  Z3_ast p=toBV(a,w),q=toBV(b,w),r;
  switch(pred){ case P::ICMP_EQ:r=Z3_mk_eq(Z,p,q);break; case P::ICMP_NE:r=mkNot(Z3_mk_eq(Z,p,q));break; case P::ICMP_UGT:r=Z3_mk_bvugt(Z,p,q);break; case P::ICMP_UGE:r=Z3_mk_bvuge(Z,p,q);break;
    case P::ICMP_ULT:r=Z3_mk_bvult(Z,p,q);break; case P::ICMP_ULE:r=Z3_mk_bvule(Z,p,q);break; case P::ICMP_SGT:r=Z3_mk_bvsgt(Z,p,q);break; case P::ICMP_SGE:r=Z3_mk_bvsge(Z,p,q);break;
    case P::ICMP_SLT:r=Z3_mk_bvslt(Z,p,q);break; case P::ICMP_SLE:r=Z3_mk_bvsle(Z,p,q);break; default: unsupported("icmp"); }
  return normBool(r);
}
static Val fcmp(unsigned pred,unsigned w,const Val&a,const Val&b){
  using P=llvm::CmpInst;
  if(pred==P::FCMP_TRUE) return VC(1); if(pred==P::FCMP_FALSE) return VC(0);
  if(a.k==KC&&b.k==KC){ double x=w==32?asF(a.c):asD(a.c),y=w==32?asF(b.c):asD(b.c); bool un=(x!=x)||(y!=y),r=false;
    switch(pred){ case P::FCMP_OEQ:r=x==y;break; case P::FCMP_OGT:r=x>y;break; case P::FCMP_OGE:r=x>=y;break; case P::FCMP_OLT:r=x<y;break; case P::FCMP_OLE:r=x<=y;break; case P::FCMP_ONE:r=!un&&x!=y;break; case P::FCMP_ORD:r=!un;break; case P::FCMP_UNO:r=un;break;
      case P::FCMP_UEQ:r=un||x==y;break; case P::FCMP_UGT:r=un||x>y;break; case P::FCMP_UGE:r=un||x>=y;break; case P::FCMP_ULT:r=un||x<y;break; case P::FCMP_ULE:r=un||x<=y;break; case P::FCMP_UNE:r=un||x!=y;break; }
    return VC(r); }
  if(bad(a)||bad(b)) return VU();
  if(a.k==KREAL||b.k==KREAL){
    if(pred==P::FCMP_ORD) return VC(1); if(pred==P::FCMP_UNO) return VC(0);
    // comparison against +-inf / huge sentinels stays concrete
    auto infOf=[&](const Val&v)->int{ if(v.k!=KC) return 0; double x=w==32?asF(v.c):asD(v.c); return std::isinf(x)?(x>0?1:-1):0; };
    int ia=infOf(a),ib=infOf(b); if(ia||ib){ double x=ia,y=ib; bool r; switch(pred){ case P::FCMP_OEQ:case P::FCMP_UEQ:r=0;break; case P::FCMP_ONE:case P::FCMP_UNE:r=1;break; case P::FCMP_OGT:case P::FCMP_UGT:case P::FCMP_OGE:case P::FCMP_UGE:r=x>y;break; default:r=x<y; } return VC(r); }
    Z3_ast p=toReal(a,w),q=toReal(b,w),r;
    switch(pred){ case P::FCMP_OEQ:case P::FCMP_UEQ:r=Z3_mk_eq(Z,p,q);break; case P::FCMP_ONE:case P::FCMP_UNE:r=mkNot(Z3_mk_eq(Z,p,q));break; case P::FCMP_OGT:case P::FCMP_UGT:r=Z3_mk_gt(Z,p,q);break; case P::FCMP_OGE:case P::FCMP_UGE:r=Z3_mk_ge(Z,p,q);break; case P::FCMP_OLT:case P::FCMP_ULT:r=Z3_mk_lt(Z,p,q);break; default:r=Z3_mk_le(Z,p,q);break; }
    return normBool(r); }
  Z3_ast p=toFP(a,w),q=toFP(b,w); Z3_ast un=or2(Z3_mk_fpa_is_nan(Z,p),Z3_mk_fpa_is_nan(Z,q)),r; bool U=pred>=P::FCMP_UNO;
  switch(pred){ case P::FCMP_OEQ:case P::FCMP_UEQ:r=Z3_mk_fpa_eq(Z,p,q);break; case P::FCMP_ONE:r=and2(mkNot(un),mkNot(Z3_mk_fpa_eq(Z,p,q)));break; case P::FCMP_UNE:return normBool(mkNot(Z3_mk_fpa_eq(Z,p,q)));
    case P::FCMP_OGT:case P::FCMP_UGT:r=Z3_mk_fpa_gt(Z,p,q);break; case P::FCMP_OGE:case P::FCMP_UGE:r=Z3_mk_fpa_geq(Z,p,q);break; case P::FCMP_OLT:case P::FCMP_ULT:r=Z3_mk_fpa_lt(Z,p,q);break; case P::FCMP_OLE:case P::FCMP_ULE:r=Z3_mk_fpa_leq(Z,p,q);break;
    case P::FCMP_ORD:return normBool(mkNot(un)); case P::FCMP_UNO:return normBool(un); default: unsupported("fcmp"); }
  if(U) r=or2(r,un); return normBool(r);
}
static Val fbin(unsigned op,unsigned w,const Val&a,const Val&b){
  using I=llvm::Instruction;
  if(a.k==KC&&b.k==KC){
    if(w==32){ float x=asF(a.c),y=asF(b.c),r=0; switch(op){ case I::FAdd:r=x+y;break; case I::FSub:r=x-y;break; case I::FMul:r=x*y;break; case I::FDiv:r=x/y;break; case I::FRem:r=fmodf(x,y);break; } return VC(fromF(r)); }
    double x=asD(a.c),y=asD(b.c),r=0; switch(op){ case I::FAdd:r=x+y;break; case I::FSub:r=x-y;break; case I::FMul:r=x*y;break; case I::FDiv:r=x/y;break; case I::FRem:r=fmod(x,y);break; } return VC(fromD(r)); }
  if(bad(a)||bad(b)) return VU();
  if(a.k==KREAL||b.k==KREAL){
    if(a.k==KC){ double x=w==32?asF(a.c):asD(a.c); if(op==I::FAdd&&x==0) return b; if(op==I::FMul){ if(x==0) return VC(0); if(x==1) return b; } if(op==I::FDiv&&x==0) return VC(0); }
    if(b.k==KC){ double y=w==32?asF(b.c):asD(b.c); if((op==I::FAdd||op==I::FSub)&&y==0) return a; if(op==I::FMul){ if(y==0) return VC(0); if(y==1) return a; } if(op==I::FDiv){ if(y==1) return a; if(y==0) { sh->excluded++; endPath(); } } }
    Z3_ast p=toReal(a,w),q=toReal(b,w); Z3_ast x[2]={p,q},r;
    switch(op){ case I::FAdd:r=Z3_mk_add(Z,2,x);break; case I::FSub:r=Z3_mk_sub(Z,2,x);break; case I::FMul:r=Z3_mk_mul(Z,2,x);break;
      case I::FDiv: if(b.k!=KC){ if(decide(Z3_mk_eq(Z,q,realNum(0)))){ sh->excluded++; endPath(); } r=Z3_mk_div(Z,p,q); }
                    else { double y=w==32?asF(b.c):asD(b.c); (void)y; r=Z3_mk_div(Z,p,q); } break;
      default: unsupported("frem on real"); }
    r=expandOn?simpSom(r):simp(r);
    if(Z3_get_ast_kind(Z,r)==Z3_NUMERAL_AST){ double d=ratToD(r); if(w==32) return VC(fromF((float)d)); if(d==trunc(d)&&fabs(d)<9e15) return VC(fromD(d)); }
    return VS(KREAL,r); }
  Z3_ast p=toFP(a,w),q=toFP(b,w),rm=Z3_mk_fpa_rne(Z),r;
  switch(op){ case I::FAdd:r=Z3_mk_fpa_add(Z,rm,p,q);break; case I::FSub:r=Z3_mk_fpa_sub(Z,rm,p,q);break; case I::FMul:r=Z3_mk_fpa_mul(Z,rm,p,q);break; case I::FDiv:r=Z3_mk_fpa_div(Z,rm,p,q);break; default: unsupported("frem fp"); }
  return VS(KFP,r);
}
static Val selectV(const Val&c,const Val&a,const Val&b,TyInfo ty){
  if(c.k==KC) return c.c&1?a:b;
  if(c.k==KUNDEF||c.k==KBYTES) { return VU(); }
  if(a.k==KC&&b.k==KC&&a.c==b.c) return a;
  if(bad(a)||bad(b)||ty.t==TAGG) return decide(toBool(c))?a:b;
  Z3_ast cb=toBool(c);
  if(ty.t==TI&&ty.w==1) return normBool(Z3_mk_ite(Z,cb,toBool(a),toBool(b)));
  if(ty.t==TD||ty.t==TF){
    if(a.k==KREAL||b.k==KREAL){ // non-finite arm: fork
      auto fin=[&](const Val&v){ if(v.k!=KC) return true; double x=ty.t==TF?asF(v.c):asD(v.c); return x-x==0; };
      if(!fin(a)||!fin(b)) return decide(cb)?a:b;
      return VS(KREAL,Z3_mk_ite(Z,cb,toReal(a,ty.w),toReal(b,ty.w))); }
    if(a.k==KFP||b.k==KFP) return VS(KFP,Z3_mk_ite(Z,cb,toFP(a,ty.w),toFP(b,ty.w)));
    if(a.k==KC&&b.k==KC) return decide(cb)?a:b; // sort unknown (real or fp): fork
    return VS(KBV,Z3_mk_ite(Z,cb,toBV(a,ty.w),toBV(b,ty.w))); }
  if(a.k==KREAL||b.k==KREAL||a.k==KFP||b.k==KFP) return decide(cb)?a:b;
  if(ty.t==TP) return decide(cb)?a:b;
  return VS(KBV,Z3_mk_ite(Z,cb,toBV(a,ty.w),toBV(b,ty.w)));
}
static Val floorReal(const Val&v,bool ceilp){ // concretize floor/ceil of a real by forking on integer value
  Z3_ast x=v.s;
  for(;;){ ensureModel(); if(!model) unsupported("no model for floor"); Z3_ast e=evalM(x); if(!e) unsupported("floor eval");
    string s=Z3_get_numeral_decimal_string(Z,e,30); double d=strtod(s.c_str(),0); double f=ceilp?ceil(d):floor(d);
    for(int adj=-1;adj<=1;adj++){ double g=f+adj; // guard against decimal rounding
      Z3_ast c= ceilp? and2(Z3_mk_gt(Z,x,realNum(g-1)),Z3_mk_le(Z,x,realNum(g))) : and2(Z3_mk_ge(Z,x,realNum(g)),Z3_mk_lt(Z,x,realNum(g+1)));
      Z3_ast t=evalM(c); if(t&&Z3_get_bool_value(Z,simp(t))==Z3_L_TRUE){ if(decide(c)) return VC(fromD(g)); goto again; } }
    unsupported("floor of unbounded real");
    again:; }
}
static bool castRange(double d,unsigned tw,bool sgn){ double t=trunc(d),lo=sgn?-ldexp(1,tw-1):0,hi=ldexp(1,sgn?tw-1:tw); return t>=lo&&t<hi; } // out of range: poison (the compiler inserts a trap before the conversion)
static Val castV(unsigned op,TyInfo from,TyInfo to,const Val&a){
  using I=llvm::Instruction; unsigned fw=from.w,tw=to.w;
  if(a.k==KC){ u64 x=a.c;
    switch(op){
    case I::Trunc: return VC(x&maskw(tw)); case I::ZExt: return VC(x); case I::SExt: return VC((u64)sx(x,fw)&maskw(tw));
    case I::PtrToInt: return VC(x&maskw(tw)); case I::IntToPtr: return VC(x); case I::BitCast: return a;
    case I::FPTrunc: return VC(fromF((float)asD(x))); case I::FPExt: return VC(fromD((double)asF(x)));
    case I::SIToFP: return tw==32?VC(fromF((float)sx(x,fw))):VC(fromD((double)sx(x,fw)));
    case I::UIToFP: return tw==32?VC(fromF((float)x)):VC(fromD((double)x));
    case I::FPToSI: { double d=fw==32?asF(x):asD(x); if(!castRange(d,tw,true)) return VU(); return VC((u64)(i64)d&maskw(tw)); }
    case I::FPToUI: { double d=fw==32?asF(x):asD(x); if(!castRange(d,tw,false)) return VU(); return VC(d<0?((u64)(i64)d&maskw(tw)):((u64)d&maskw(tw))); }
    default: unsupported("cast %u",op); } }
  if(a.k==KUNDEF) return VU();
  if(a.k==KBYTES){ auto v=bytePool[a.c];
    if(op==I::Trunc&&tw%8==0){ v.resize(tw/8); bool allc=true; u64 c=0; for(size_t i=0;i<v.size();i++){ if(v[i].st!=1) allc=false; c|=(u64)v[i].d<<(8*i); } if(allc) return VC(c); 
      if(v[0].st==2&&v[0].sb.idx==0&&v[0].sb.n==v.size()) return VS(v[0].sb.k,v[0].sb.a); Val q; q.k=KBYTES;q.s=0;q.c=bytePool.size(); bytePool.push_back(v); return q; }
    if(op==I::BitCast) return a; return VU(); }
  if(a.k==KAGG) unsupported("cast of aggregate");
  switch(op){
  case I::Trunc: if(a.k==KREAL) unsupported("trunc of real"); if(tw==1) return normBool(Z3_mk_eq(Z,Z3_mk_extract(Z,0,0,toBV(a,fw)),bvnum(1,1))); return normBV(Z3_mk_extract(Z,tw-1,0,toBV(a,fw)),tw);
  case I::ZExt: if(a.k==KBOOL) return VS(KBV,Z3_mk_ite(Z,a.s,bvnum(1,tw),bvnum(0,tw))); return VS(KBV,Z3_mk_zero_ext(Z,tw-fw,toBV(a,fw)));
  case I::SExt: if(a.k==KBOOL) return VS(KBV,Z3_mk_ite(Z,a.s,bvnum(~0ull,tw),bvnum(0,tw))); return VS(KBV,Z3_mk_sign_ext(Z,tw-fw,toBV(a,fw)));
  case I::PtrToInt: case I::IntToPtr: case I::BitCast: return a;
  case I::FPExt: case I::FPTrunc: if(a.k==KREAL) return a; return VS(KFP,Z3_mk_fpa_to_fp_float(Z,Z3_mk_fpa_rne(Z),toFP(a,fw),fpSort(tw)));
  case I::SIToFP: { i64 v=sx(concI(a,fw,"int->fp operand"),fw); return tw==32?VC(fromF((float)v)):VC(fromD((double)v)); }
  case I::UIToFP: { u64 v=concI(a,fw,"int->fp operand"); return tw==32?VC(fromF((float)v)):VC(fromD((double)v)); }
  case I::FPToSI: case I::FPToUI: if(a.k==KREAL){ // truncation toward zero
      if(decide(Z3_mk_ge(Z,a.s,realNum(0)))) { Val f=floorReal(a,false); if(!castRange(asD(f.c),tw,op==I::FPToSI)) return VU(); double d=asD(f.c); return VC((d<9e18?(u64)(i64)d:(u64)d)&maskw(tw)); } else { Val f=floorReal(a,true); if(!castRange(asD(f.c),tw,op==I::FPToSI)) return VU(); return VC((u64)(i64)asD(f.c)&maskw(tw)); } }
    unsupported("fp->int of fp-theory value");
  default: unsupported("cast %u",op); }
}

// ---------------------------------------------------------------- translation
static const llvm::DataLayout *DL;
static TyInfo tyOf(llvm::Type*t){
  TyInfo r{TVOID,0,-1};
  if(t->isVoidTy()) return r;
  if(t->isIntegerTy()){ r.t=TI; r.w=t->getIntegerBitWidth(); return r; }
  if(t->isPointerTy()){ r.t=TP; r.w=64; return r; }
  if(t->isFloatTy()){ r.t=TF; r.w=32; return r; }
  if(t->isDoubleTy()){ r.t=TD; r.w=64; return r; }
  if(t->isX86_FP80Ty()){ r.t=TVOID; r.w=80; return r; }
  if(auto*st=llvm::dyn_cast<llvm::StructType>(t)){ static map<llvm::Type*,int> m; auto it=m.find(t); if(it==m.end()){ AggTy a; auto*sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++){ a.f.push_back(tyOf(st->getElementType(i))); a.off.push_back(sl->getElementOffset(i)); } a.size=sl->getSizeInBytes(); aggTys.push_back(a); it=m.insert({t,(int)aggTys.size()-1}).first; } r.t=TAGG; r.agg=it->second; r.w=aggTys[r.agg].size*8; return r; }
  if(auto*at=llvm::dyn_cast<llvm::ArrayType>(t)){ static map<llvm::Type*,int> m; auto it=m.find(t); if(it==m.end()){ AggTy a; u64 es=DL->getTypeAllocSize(at->getElementType()); for(unsigned i=0;i<at->getNumElements()&&i<65536;i++){ a.f.push_back(tyOf(at->getElementType())); a.off.push_back(i*es); } a.size=DL->getTypeAllocSize(at); aggTys.push_back(a); it=m.insert({t,(int)aggTys.size()-1}).first; } r.t=TAGG; r.agg=it->second; r.w=0; return r; }
  if(auto*vt=llvm::dyn_cast<llvm::FixedVectorType>(t)){ (void)vt; r.t=TVOID; r.w=7777; return r; }
  return r;
}
static int addConst(const ConstOp&c){ consts.push_back(c); return -(int)consts.size(); }
static bool constOp(const llvm::Constant*c,ConstOp&o){
  o.gv=-1; o.off=0; o.v=VC(0);
  if(auto*ci=llvm::dyn_cast<llvm::ConstantInt>(c)){ if(ci->getBitWidth()>64) return false; o.v=VC(ci->getZExtValue()); return true; }
  if(auto*cf=llvm::dyn_cast<llvm::ConstantFP>(c)){ o.v=VC(cf->getValueAPF().bitcastToAPInt().getZExtValue()); return true; }
  if(llvm::isa<llvm::ConstantPointerNull>(c)){ return true; }
  if(llvm::isa<llvm::UndefValue>(c)){ o.v=VU(); return true; }
  if(auto*f=llvm::dyn_cast<llvm::Function>(c)){ o.v=VC(FNBASE+16ull*fnIdx[f->getName().str()]); return true; }
  if(auto*g=llvm::dyn_cast<llvm::GlobalVariable>(c)){ o.gv=gvIdx[g]; return true; }
  if(auto*ga=llvm::dyn_cast<llvm::GlobalAlias>(c)) return constOp(ga->getAliasee(),o);
  if(auto*ce=llvm::dyn_cast<llvm::ConstantExpr>(c)){
    if(ce->getOpcode()==llvm::Instruction::BitCast||ce->getOpcode()==llvm::Instruction::IntToPtr||ce->getOpcode()==llvm::Instruction::PtrToInt||ce->getOpcode()==llvm::Instruction::AddrSpaceCast) return constOp(ce->getOperand(0),o);
    if(auto*gep=llvm::dyn_cast<llvm::GEPOperator>(ce)){ llvm::APInt off(64,0); if(!gep->accumulateConstantOffset(*DL,off)) return false; if(!constOp(llvm::cast<llvm::Constant>(gep->getPointerOperand()),o)) return false; if(o.gv>=0) o.off+=off.getSExtValue(); else o.v.c+=off.getSExtValue(); return true; }
    if(ce->getOpcode()==llvm::Instruction::Sub){ ConstOp a,b; if(constOp(ce->getOperand(0),a)&&constOp(ce->getOperand(1),b)&&a.gv==b.gv&&a.gv>=0){ o.v=VC(a.off-b.off); return true; } }
    return false; }
  if(llvm::isa<llvm::ConstantAggregateZero>(c)&&c->getType()->isStructTy()){ AggTy&a=aggTys[tyOf(c->getType()).agg]; vector<Val> v(a.f.size(),VC(0)); o.v=AGGv(v); return true; }
  if(auto*cs=llvm::dyn_cast<llvm::ConstantStruct>(c)){ vector<Val> v; for(unsigned i=0;i<cs->getNumOperands();i++){ ConstOp q; if(!constOp(cs->getOperand(i),q)||q.gv>=0) return false; v.push_back(q.v);} o.v=AGGv(v); return true; }
  return false;
}
static void initBytes(const llvm::Constant*c,GV&g,u64 off){
  u64 sz=DL->getTypeStoreSize(c->getType());
  if(llvm::isa<llvm::ConstantAggregateZero>(c)||llvm::isa<llvm::UndefValue>(c)) return;
  if(auto*cd=llvm::dyn_cast<llvm::ConstantDataSequential>(c)){ llvm::StringRef r=cd->getRawDataValues(); memcpy(&g.init[off],r.data(),r.size()); return; }
  if(auto*ca=llvm::dyn_cast<llvm::ConstantArray>(c)){ u64 es=DL->getTypeAllocSize(ca->getType()->getElementType()); for(unsigned i=0;i<ca->getNumOperands();i++) initBytes(ca->getOperand(i),g,off+i*es); return; }
  if(auto*cs=llvm::dyn_cast<llvm::ConstantStruct>(c)){ auto*sl=DL->getStructLayout(cs->getType()); for(unsigned i=0;i<cs->getNumOperands();i++) initBytes(cs->getOperand(i),g,off+sl->getElementOffset(i)); return; }
  ConstOp o; if(!constOp(c,o)){ fprintf(stderr,"symx: unsupported initializer\n"); return; }
  if(o.gv>=0){ g.rel.push_back({off,o}); return; }
  if(o.v.k==KC) memcpy(&g.init[off],&o.v.c,sz>8?8:sz);
}
enum BI { B_NONE=0,
#define BLIST(X) X(malloc) X(calloc) X(realloc) X(free) X(memcpy) X(memmove) X(memset) X(memcmp) X(strlen) X(strcmp) X(strcpy) X(strncpy) X(printf) X(fprintf) X(puts) X(putchar) X(fputc) X(fputs) X(fflush) X(fwrite) X(vfprintf) X(vprintf) X(sprintf) X(snprintf) X(vsnprintf) X(vsprintf) X(strcat) X(perror) X(exit) X(abort) X(_exit) X(getenv) X(atoi) X(rand) X(srand) \
 X(fabs) X(fabsf) X(sqrt) X(floor) X(ceil) X(cos) X(sin) X(tan) X(acos) X(asin) X(atan) X(atan2) X(exp) X(log) X(log10) X(log2) X(pow) X(fmod) X(fmax) X(fmin) X(fmaxf) X(fminf) X(round) X(trunc) X(ldexp) X(hypot) X(sqrtf) X(floorf) X(ceilf) X(abs) X(labs) X(llabs) X(lround) X(nan) X(clock) X(time) \
 X(MPI_Init) X(MPI_Finalize) X(MPI_Initialized) X(MPI_Abort) X(MPI_Wtime) X(MPI_Comm_dup) X(MPI_Comm_split) X(MPI_Comm_free) X(MPI_Comm_rank) X(MPI_Comm_size) X(MPI_Comm_f2c) X(MPI_Comm_c2f) X(MPI_Barrier) X(MPI_Ibarrier) X(MPI_Send) X(MPI_Ssend) X(MPI_Recv) X(MPI_Sendrecv) X(MPI_Isend) X(MPI_Irecv) X(MPI_Wait) X(MPI_Waitall) X(MPI_Test) X(MPI_Testall) X(MPI_Bcast) X(MPI_Gather) X(MPI_Allgather) X(MPI_Reduce) X(MPI_Allreduce) X(MPI_Iallreduce) X(MPI_Scan) X(MPI_Exscan) X(MPI_Get_count) \
 X(sym_i32) X(sym_i64) X(sym_range) X(sym_range64) X(sym_choice) X(sym_real) X(sym_real_range) X(sym_realf) X(sym_intreal) X(sym_bytes) X(sym_f64bits) X(sym_f32bits) X(sym_param) X(sym_assume) X(sym_assert) X(sym_assert_id) X(sym_assert_small) X(sym_assert_nonneg) X(sym_expand) X(sym_concretize) X(sym_cover) X(sym_require_cover) X(sym_note) X(sym_observe_i) X(sym_observe_f) X(sym_is_symbolic) X(sym_run_ranks) X(sym_shared) X(sym_live_allocs) X(sym_live_comms) X(sym_live_reqs) X(sym_allow_exit) X(sym_ite32) X(sym_ite64) X(sym_itef) X(__assert_fail)
#define X(n) B_##n,
BLIST(X)
#undef X
 B_ll_memcpy,B_ll_memmove,B_ll_memset,B_ll_nop,B_ll_fabs,B_ll_floor,B_ll_ceil,B_ll_sqrt,B_ll_fmuladd,B_ll_smax,B_ll_smin,B_ll_umax,B_ll_umin,B_ll_abs,B_ll_ctpop,B_ll_expect,B_ll_trap,B_ll_ubsan,B_ll_assume,B_ll_objectsize,B_ll_fmax,B_ll_fmin,B_ll_ctlz,B_ll_cttz,B_ll_bswap,B_ll_fshl,B_ll_umulo,B_ll_uaddo,B_ll_usubo,B_ll_isconst,B_ll_pow,B_ll_copysign,B_ll_trunc,B_ll_rint,B_ll_cos,B_ll_sin,B_ll_exp,B_ll_log };
static map<string,int> biMap;
static void initBI(){
#define X(n) biMap[#n]=B_##n;
BLIST(X)
#undef X
}
static int intrinsicBI(const string&n){
  auto st=[&](const char*p){ return n.compare(0,strlen(p),p)==0; };
  if(st("llvm.memcpy")) return B_ll_memcpy; if(st("llvm.memmove")) return B_ll_memmove; if(st("llvm.memset")) return B_ll_memset;
  if(st("llvm.dbg")||st("llvm.lifetime")||st("llvm.va_start")||st("llvm.va_end")||st("llvm.experimental.noalias")||st("llvm.stacksave")||st("llvm.stackrestore")||st("llvm.prefetch")||st("llvm.donothing")||st("llvm.invariant")) return B_ll_nop;
  if(st("llvm.fabs")) return B_ll_fabs; if(st("llvm.floor")) return B_ll_floor; if(st("llvm.ceil")) return B_ll_ceil; if(st("llvm.sqrt")) return B_ll_sqrt; if(st("llvm.fmuladd")||st("llvm.fma")) return B_ll_fmuladd;
  if(st("llvm.smax")) return B_ll_smax; if(st("llvm.smin")) return B_ll_smin; if(st("llvm.umax")) return B_ll_umax; if(st("llvm.umin")) return B_ll_umin; if(st("llvm.abs")) return B_ll_abs;
  if(st("llvm.ctpop")) return B_ll_ctpop; if(st("llvm.expect")) return B_ll_expect; if(st("llvm.trap")) return B_ll_trap; if(st("llvm.ubsantrap")) return B_ll_ubsan; if(st("llvm.assume")) return B_ll_assume; if(st("llvm.objectsize")) return B_ll_objectsize;
  if(st("llvm.maxnum")||st("llvm.maximum")) return B_ll_fmax; if(st("llvm.minnum")||st("llvm.minimum")) return B_ll_fmin; if(st("llvm.ctlz")) return B_ll_ctlz; if(st("llvm.cttz")) return B_ll_cttz; if(st("llvm.bswap")) return B_ll_bswap; if(st("llvm.fshl")) return B_ll_fshl;
  if(st("llvm.umul.with")) return B_ll_umulo; if(st("llvm.uadd.with")) return B_ll_uaddo; if(st("llvm.usub.with")) return B_ll_usubo; if(st("llvm.is.constant")) return B_ll_isconst; if(st("llvm.pow")) return B_ll_pow; if(st("llvm.copysign")) return B_ll_copysign; if(st("llvm.trunc")) return B_ll_trunc; if(st("llvm.rint")||st("llvm.nearbyint")||st("llvm.round")) return B_ll_rint;
  if(st("llvm.cos")) return B_ll_cos; if(st("llvm.sin")) return B_ll_sin; if(st("llvm.exp")) return B_ll_exp; if(st("llvm.log")) return B_ll_log;
  return B_NONE; }

static string repoRoot="/repo";
static void translateFn(const llvm::Function&F,Fn&f){
  using namespace llvm;
  f.nargs=F.arg_size(); f.vararg=F.isVarArg();
  map<const Value*,int> reg; int n=0; for(auto&A:F.args()) reg[&A]=n++;
  map<const BasicBlock*,int> bpc;
  for(auto&B:F) for(auto&I:B) if(!I.getType()->isVoidTy()) reg[&I]=n++;
  f.nregs=n;
  auto opnd=[&](const Value*v)->int{
    auto it=reg.find(v); if(it!=reg.end()) return it->second;
    if(auto*c=dyn_cast<Constant>(v)){ ConstOp o; if(constOp(c,o)) return addConst(o); 
      string s; raw_string_ostream os(s); c->print(os); fprintf(stderr,"symx: unsupported constant %s in %s\n",s.c_str(),f.name.c_str()); o.gv=-1; o.v=VU(); return addConst(o); }
    ConstOp o; o.gv=-1; o.off=0; o.v=VC(0); return addConst(o); };
  struct Fix { size_t at; const BasicBlock*from,*to; int which; }; vector<Fix> fix; vector<std::pair<std::pair<int,int>,std::pair<const BasicBlock*,const BasicBlock*>>> swfix;
  for(auto&B:F){ bpc[&B]=f.code.size(); int line=0;
    for(auto&I:B){
      if(isa<DbgInfoIntrinsic>(I)) continue; if(isa<PHINode>(I)) continue;
      if(auto&dl=I.getDebugLoc()) line=dl.getLine();
      Ins q; memset((void*)&q,0,sizeof q); q.line=line; q.dst=I.getType()->isVoidTy()?-1:reg[&I]; q.ty=tyOf(I.getType()); q.aux=-1; q.a=q.b=q.c=0;
      if(auto*A=dyn_cast<AllocaInst>(&I)){ q.op=OP_ALLOCA; q.imm=DL->getTypeAllocSize(A->getAllocatedType()); q.a=opnd(A->getArraySize()); q.ty2=tyOf(A->getArraySize()->getType()); }
      else if(auto*L=dyn_cast<LoadInst>(&I)){ q.op=OP_LOAD; q.a=opnd(L->getPointerOperand()); }
      else if(auto*St=dyn_cast<StoreInst>(&I)){ q.op=OP_STORE; q.a=opnd(St->getPointerOperand()); q.b=opnd(St->getValueOperand()); q.ty=tyOf(St->getValueOperand()->getType()); }
      else if(auto*G=dyn_cast<GetElementPtrInst>(&I)){ q.op=OP_GEP; q.a=opnd(G->getPointerOperand()); GepAux g; g.off=0;
        for(auto gi=gep_type_begin(G),ge=gep_type_end(G);gi!=ge;++gi){ Value*ix=gi.getOperand();
          if(auto*st=gi.getStructTypeOrNull()){ g.off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          i64 sc=DL->getTypeAllocSize(gi.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(ix)){ g.off+=ci->getSExtValue()*sc; continue; }
          g.idx.push_back({opnd(ix),{sc,(int)ix->getType()->getIntegerBitWidth()}}); }
        q.aux=gepAux.size(); gepAux.push_back(g); }
      else if(auto*Bo=dyn_cast<BinaryOperator>(&I)){ q.a=opnd(Bo->getOperand(0)); q.b=opnd(Bo->getOperand(1)); q.sub=Bo->getOpcode(); q.op=I.getType()->isIntegerTy()?OP_BIN:OP_FBIN; }
      else if(auto*U=dyn_cast<UnaryOperator>(&I)){ q.op=OP_FNEG; q.a=opnd(U->getOperand(0)); }
      else if(auto*C=dyn_cast<ICmpInst>(&I)){ q.op=OP_ICMP; q.sub=C->getPredicate(); q.a=opnd(C->getOperand(0)); q.b=opnd(C->getOperand(1)); q.ty2=tyOf(C->getOperand(0)->getType()); }
      else if(auto*C2=dyn_cast<FCmpInst>(&I)){ q.op=OP_FCMP; q.sub=C2->getPredicate(); q.a=opnd(C2->getOperand(0)); q.b=opnd(C2->getOperand(1)); q.ty2=tyOf(C2->getOperand(0)->getType()); }
      else if(auto*Ca=dyn_cast<CastInst>(&I)){ q.op=OP_CAST; q.sub=Ca->getOpcode(); q.a=opnd(Ca->getOperand(0)); q.ty2=tyOf(Ca->getOperand(0)->getType()); }
      else if(auto*Se=dyn_cast<SelectInst>(&I)){ q.op=OP_SELECT; q.a=opnd(Se->getCondition()); q.b=opnd(Se->getTrueValue()); q.c=opnd(Se->getFalseValue()); }
      else if(auto*Br=dyn_cast<BranchInst>(&I)){ if(Br->isConditional()){ q.op=OP_CBR; q.a=opnd(Br->getCondition()); fix.push_back({f.code.size(),&B,Br->getSuccessor(0),0}); fix.push_back({f.code.size(),&B,Br->getSuccessor(1),1}); } else { q.op=OP_BR; fix.push_back({f.code.size(),&B,Br->getSuccessor(0),0}); } }
      else if(auto*Sw=dyn_cast<SwitchInst>(&I)){ q.op=OP_SWITCH; q.a=opnd(Sw->getCondition()); q.ty2=tyOf(Sw->getCondition()->getType()); SwAux s; q.aux=swAux.size(); int k=0; for(auto&cs:Sw->cases()){ s.cs.push_back({cs.getCaseValue()->getZExtValue(),0}); swfix.push_back({{q.aux,k++},{&B,cs.getCaseSuccessor()}}); } swAux.push_back(s); fix.push_back({f.code.size(),&B,Sw->getDefaultDest(),0}); }
      else if(auto*R=dyn_cast<ReturnInst>(&I)){ q.op=OP_RET; q.a=R->getReturnValue()?opnd(R->getReturnValue()):0; q.b=R->getReturnValue()!=0; }
      else if(isa<UnreachableInst>(&I)) q.op=OP_UNREACH;
      else if(auto*Cl=dyn_cast<CallInst>(&I)){ q.op=OP_CALL; CallAux c; c.fn=-1; const Function*cf=Cl->getCalledFunction();
        if(!cf) if(auto*fo=dyn_cast<Function>(Cl->getCalledOperand()->stripPointerCasts())) cf=fo;
        if(cf&&cf->isIntrinsic()&&intrinsicBI(cf->getName().str())==B_ll_nop) continue;
        if(cf) c.fn=fnIdx[cf->getName().str()]; else q.a=opnd(Cl->getCalledOperand());
        for(unsigned i=0;i<Cl->arg_size();i++){ Value*a=Cl->getArgOperand(i); if(a->getType()->isMetadataTy()){ c.args.push_back(0); c.aty.push_back(TyInfo{TVOID,0,-1}); c.byval.push_back(0); continue; } c.args.push_back(opnd(a)); c.aty.push_back(tyOf(a->getType())); c.byval.push_back(Cl->isByValArgument(i)?DL->getTypeAllocSize(Cl->getParamByValType(i)):0); }
        q.aux=callAux.size(); callAux.push_back(c); }
      else if(auto*E=dyn_cast<ExtractValueInst>(&I)){ q.op=OP_EXTRACT; q.a=opnd(E->getAggregateOperand()); q.imm=E->getIndices()[0]; }
      else if(auto*In=dyn_cast<InsertValueInst>(&I)){ q.op=OP_INSERT; q.a=opnd(In->getAggregateOperand()); q.b=opnd(In->getInsertedValueOperand()); q.imm=In->getIndices()[0]; }
      else if(auto*Fz=dyn_cast<FreezeInst>(&I)){ q.op=OP_FREEZE; q.a=opnd(Fz->getOperand(0)); }
      else { string s; raw_string_ostream os(s); I.print(os); fprintf(stderr,"symx: unsupported instruction in %s: %s\n",f.name.c_str(),s.c_str()); q.op=OP_NOP; q.sub=1; }
      f.code.push_back(q); } }
  auto mkEdge=[&](const BasicBlock*from,const BasicBlock*to)->int{ vector<PhiCopy> pcs; for(auto&P:to->phis()) pcs.push_back({reg[&P],opnd(P.getIncomingValueForBlock(from))}); if(pcs.empty()) return -1; edges.push_back(pcs); return edges.size()-1; };
  // targets: b = pc0, c = pc1 (for CBR); imm packs edges
  struct E2{int e0,e1;}; 
  for(auto&x:fix){ Ins&q=f.code[x.at]; int e=mkEdge(x.from,x.to); if(x.which==0){ q.b=bpc[x.to]; q.imm=(q.imm&0xffffffff00000000ull)|(u32)e; } else { q.c=bpc[x.to]; q.imm=(q.imm&0xffffffffull)|((u64)(u32)e<<32); } }
  for(auto&x:swfix){ int e=mkEdge(x.second.first,x.second.second); // encode via trampoline
    int t=f.code.size(); Ins q; memset((void*)&q,0,sizeof q); q.op=OP_BR; q.b=bpc[x.second.second]; q.imm=(u32)e; q.dst=-1; f.code.push_back(q); swAux[x.first.first].cs[x.first.second].second=t; }
}
static void loadModule(llvm::Module&M){
  DL=&M.getDataLayout();
  for(auto&F:M){ Fn f; f.name=F.getName().str(); f.decl=F.isDeclaration(); if(auto*sp=F.getSubprogram()){ f.file=sp->getFilename().str(); if(f.file[0]!='/'&&!sp->getDirectory().empty()) f.file=sp->getDirectory().str()+"/"+f.file; f.fromRepo=f.file.find(repoRoot+"/")==0; }
    if(f.decl){ f.builtin=F.isIntrinsic()?intrinsicBI(f.name):(biMap.count(f.name)?biMap[f.name]:0); }
    f.addr=FNBASE+16ull*fns.size(); fnIdx[f.name]=fns.size(); fns.push_back(f); }
  for(auto&G:M.globals()){ gvIdx[&G]=gvs.size(); GV g; g.name=G.getName().str(); g.ext=G.isDeclaration(); g.size=G.getValueType()->isSized()?DL->getTypeAllocSize(G.getValueType()).getFixedValue():0; if(g.ext&&g.size<64) g.size=64; g.ro=G.isConstant(); g.undefinit=false; gvs.push_back(g); }
  for(auto&G:M.globals()) if(G.hasInitializer()){ GV&g=gvs[gvIdx[&G]]; g.init.assign(g.size,0); initBytes(G.getInitializer(),g,0); }
  for(auto&F:M) if(!F.isDeclaration()) translateFn(F,fns[fnIdx[F.getName().str()]]);
}
static void initCtx(Ctx&c,int idx,int rank){
  c.rank=rank; c.state=RUN; c.sp=0; c.gbase.resize(gvs.size());
  c.stack=(Val*)mmap(0,sizeof(Val)*(1u<<20),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  for(size_t i=0;i<gvs.size();i++){ if(idx>0 && gvs[i].ro && gvs[i].rel.empty()){ c.gbase[i]=ctxs[0].gbase[i]; continue; }
    u32 o=newObj(gvs[i].size,OGLOB,idx,true); if(!gvs[i].init.empty()) memcpy(objs[o].d,gvs[i].init.data(),gvs[i].size); c.gbase[i]=objAddr(o); }
  for(size_t i=0;i<gvs.size();i++) for(auto&r:gvs[i].rel){ u64 v=c.gbase[r.second.gv]+r.second.off; u64 off=r.first; memcpy(objs[(c.gbase[i]>>32)-1].d+off,&v,8); }
  for(size_t i=0;i<gvs.size();i++) if(gvs[i].ro) objs[(c.gbase[i]>>32)-1].ro=1;
}
static void pushFrame(Ctx&c,int fn,const vector<Val>&args,int retdst){
  Fn&f=fns[fn]; if(c.st.size()>2000) violation("stack-overflow","call depth above 2000");
  if(c.sp+f.nregs>(1u<<20)-16) unsupported("register stack overflow");
  Frame fr; fr.fn=fn; fr.pc=0; fr.r=c.stack+c.sp; fr.retdst=retdst; fr.site=0; c.sp+=f.nregs;
  for(int i=0;i<f.nargs&&i<(int)args.size();i++) fr.r[i]=args[i];
  if(fn<MAXFN && !sh->fnseen[fn]) sh->fnseen[fn]=1;
  c.st.push_back(std::move(fr));
}
static inline Val getOp(Ctx&c,Frame&f,int o){ if(o>=0) return f.r[o]; ConstOp&k=consts[-o-1]; if(k.gv>=0) return VC(c.gbase[k.gv]+k.off); return k.v; }

#include "mpi_model.inc"
#include "builtins.inc"
#include "interp.inc"
