// ---------------------------------------------------------------- interpreter
static inline void takeEdge(Ctx&c,Frame&f,int e){ if(e<0) return; auto&v=edges[e]; if(v.size()==1){ f.r[v[0].dst]=getOp(c,f,v[0].src); return; } Val tmp[64]; size_t n=v.size(); vector<Val> big; Val*t=tmp; if(n>64){ big.resize(n); t=big.data(); } for(size_t i=0;i<n;i++) t[i]=getOp(c,f,v[i].src); for(size_t i=0;i<n;i++) f.r[v[i].dst]=t[i]; }
// run context ci until it blocks or finishes
static void runCtx(int ci){
  cur=ci; Ctx&c=ctxs[ci];
  for(;;){
    Frame*f=&c.st.back(); Fn&fn=fns[f->fn]; Ins&q=fn.code[f->pc++];
    if((++steps&0xfffff)==0){ flushSteps(); checkStop(); if(steps>optStepLimit){ violation("step-limit","more than %llu steps on one path (non-termination?)",(unsigned long long)optStepLimit); } }
    switch(q.op){
    case OP_NOP: if(q.sub) unsupported("instruction not modelled"); break;
    case OP_ALLOCA: { u64 n=q.imm*concI(getOp(c,*f,q.a),q.ty2.w,"alloca size"); u32 o=newObj(n,OSTACK,ci,false); f->allocas.push_back(o); f->r[q.dst]=VC(objAddr(o)); break; }
    case OP_LOAD: { Val p=getOp(c,*f,q.a); u64 ad=p.k==KC?p.c:concI(p,64,"address"); f->r[q.dst]=loadAt(ad,q.ty); break; }
    case OP_STORE: { Val p=getOp(c,*f,q.a); u64 ad=p.k==KC?p.c:concI(p,64,"address"); storeAt(ad,q.ty,getOp(c,*f,q.b)); break; }
    case OP_GEP: { GepAux&g=gepAux[q.aux]; Val p=getOp(c,*f,q.a); u64 off=g.off; Val acc=p; bool sym=p.k!=KC;
      if(!sym){ u64 ad=p.c; bool ok=true; for(auto&x:g.idx){ Val v=getOp(c,*f,x.first); if(v.k!=KC){ ok=false; break; } off+=(u64)(sx(v.c,x.second.second)*x.second.first); } if(ok){ f->r[q.dst]=VC(ad+off); break; } }
      off=g.off; acc=binop(llvm::Instruction::Add,64,p,VC(off));
      for(auto&x:g.idx){ Val v=getOp(c,*f,x.first); if(x.second.second<64) v=castV(llvm::Instruction::SExt,TyInfo{TI,(unsigned)x.second.second,-1},TyInfo{TI,64,-1},v); v=binop(llvm::Instruction::Mul,64,v,VC(x.second.first)); acc=binop(llvm::Instruction::Add,64,acc,v); }
      f->r[q.dst]=acc; break; }
    case OP_BIN: { Val a=getOp(c,*f,q.a),b=getOp(c,*f,q.b); f->r[q.dst]=binop(q.sub,q.ty.w,a,b); break; }
    case OP_FBIN: { Val a=getOp(c,*f,q.a),b=getOp(c,*f,q.b); f->r[q.dst]=fbin(q.sub,q.ty.w,a,b); break; }
    case OP_FNEG: { Val a=getOp(c,*f,q.a); unsigned w=q.ty.w; Val r; if(a.k==KC) r=VC(w==32?a.c^0x80000000u:a.c^0x8000000000000000ull); else if(bad(a)) r=VU(); else if(a.k==KREAL) r=VS(KREAL,Z3_mk_unary_minus(Z,a.s)); else r=VS(KFP,Z3_mk_fpa_neg(Z,toFP(a,w))); f->r[q.dst]=r; break; }
    case OP_ICMP: { Val a=getOp(c,*f,q.a),b=getOp(c,*f,q.b); f->r[q.dst]=icmp(q.sub,q.ty2.w,a,b); break; }
    case OP_FCMP: { Val a=getOp(c,*f,q.a),b=getOp(c,*f,q.b); f->r[q.dst]=fcmp(q.sub,q.ty2.w,a,b); break; }
    case OP_CAST: { Val a=getOp(c,*f,q.a); f->r[q.dst]=castV(q.sub,q.ty2,q.ty,a); break; }
    case OP_SELECT: { Val a=getOp(c,*f,q.a),x=getOp(c,*f,q.b),y=getOp(c,*f,q.c); f->r[q.dst]=selectV(a,x,y,q.ty); break; }
    case OP_FREEZE: f->r[q.dst]=getOp(c,*f,q.a); break;
    case OP_BR: takeEdge(c,*f,(int)(u32)q.imm); f->pc=q.b; break;
    case OP_CBR: { Val a=getOp(c,*f,q.a); bool t; if(a.k==KC) t=a.c&1; else { if(bad(a)) violation("uninitialized","branch depends on uninitialized memory"); t=decide(toBool(a)); } if(t){ takeEdge(c,*f,(int)(u32)q.imm); f->pc=q.b; } else { takeEdge(c,*f,(int)(u32)(q.imm>>32)); f->pc=q.c; } break; }
    case OP_SWITCH: { Val a=getOp(c,*f,q.a); SwAux&s=swAux[q.aux]; int tgt=-1; if(bad(a)) violation("uninitialized","switch on uninitialized memory"); if(a.k==KC){ for(auto&x:s.cs) if(x.first==a.c){ tgt=x.second; break; } } else { for(auto&x:s.cs) if(decide(Z3_mk_eq(Z,toBV(a,q.ty2.w),bvnum(x.first,q.ty2.w)))){ tgt=x.second; break; } } if(tgt>=0) f->pc=tgt; else { takeEdge(c,*f,(int)(u32)q.imm); f->pc=q.b; } break; }
    case OP_EXTRACT: { Val a=getOp(c,*f,q.a); f->r[q.dst]=a.k==KAGG?aggPool[a.c][q.imm]:VU(); break; }
    case OP_INSERT: { Val a=getOp(c,*f,q.a),b=getOp(c,*f,q.b); vector<Val> v; if(a.k==KAGG) v=aggPool[a.c]; else v.assign(aggTys[q.ty.agg].f.size(),VU()); v[q.imm]=b; f->r[q.dst]=AGGv(v); break; }
    case OP_UNREACH: violation("unreachable","control reached an unreachable instruction");
    case OP_RET: { Val r=q.b?getOp(c,*f,q.a):VC(0); for(u32 o:f->allocas){ if(objs[o].fl) violation("inflight-free","a stack buffer owned by a pending MPI operation went out of scope"); dropObj(o); stackFree.push_back(o); } c.sp-=fn.nregs; int rd=f->retdst; c.st.pop_back(); if(c.st.empty()){ c.state=DONE; c.ret=r; progress++; return; } if(rd>=0) c.st.back().r[rd]=r; break; }
    case OP_CALL: {
      CallAux&ca=callAux[q.aux]; int tf=ca.fn;
      if(tf<0){ Val p=getOp(c,*f,q.a); u64 ad=concI(p,64,"function pointer"); if(ad<FNBASE||(ad-FNBASE)%16||(ad-FNBASE)/16>=fns.size()) violation(ad==0?"null-call":"bad-call","indirect call through an invalid function pointer 0x%llx",(unsigned long long)ad); tf=(ad-FNBASE)/16; }
      vector<Val> args(ca.args.size()); for(size_t i=0;i<args.size();i++) args[i]=ca.aty[i].t==TVOID?VC(0):getOp(c,*f,ca.args[i]);
      Fn&t=fns[tf];
      if(t.decl){
        if(t.builtin==0) unsupported("call to external function %s",t.name.c_str());
        Val r; BR b=builtin(t.builtin,t,ca,args,c,q,r);
        if(b==BR_BLOCK){ c.st.back().pc--; c.state=BLOCKED; return; }
        if(q.dst>=0) c.st.back().r[q.dst]=r;
        break; }
      if((int)args.size()<t.nargs) violation("bad-call","call of %s with too few arguments",t.name.c_str());
      vector<u32> bv; for(size_t i=0;i<args.size();i++) if(ca.byval[i]){ u32 o=newObj(ca.byval[i],OSTACK,ci,false); rawCopy(objAddr(o),args[i].c,ca.byval[i]); args[i]=VC(objAddr(o)); bv.push_back(o); }
      pushFrame(c,tf,args,q.dst); for(u32 o:bv) c.st.back().allocas.push_back(o);
      break; }
    }
  }
}
static void schedule(){
  for(;;){
    if(ctxs[0].state==DONE) return;
    u64 p0=progress; bool ran=false; u64 s0=steps;
    for(size_t i=0;i<ctxs.size();i++){ if(ctxs[i].state==DONE) continue; if(i==0&&inSpmd){ bool all=true; for(size_t k=1;k<ctxs.size();k++) if(ctxs[k].state!=DONE) all=false; if(!all) continue; }
      ctxs[i].state=RUN; runCtx(i); if(ctxs[0].state==DONE) return; ran=true; }
    (void)s0; (void)ran;
    if(progress==p0){ string w; int who=-1; for(size_t i=0;i<ctxs.size();i++) if(ctxs[i].state==BLOCKED&&ctxs[i].rank>=0){ if(who<0) who=i; w+=" rank "+std::to_string(ctxs[i].rank)+":"+ctxs[i].why; } if(who>=0) cur=who; violation("deadlock","no rank can make progress;%s",w.c_str()); }
  }
}
static string jarr(){ return ""; }
int main(int argc,char**argv){
  for(int i=1;i<argc;i++){ string a=argv[i]; auto nx=[&](){ return string(argv[++i]); };
    if(a=="--bc") optBC=nx(); else if(a=="--entry") optEntry=nx(); else if(a=="--out") optOut=nx(); else if(a=="--fix") optFix=nx(); else if(a=="--logic") optLogic=nx();
    else if(a=="--jobs") optJobs=atoi(argv[++i]); else if(a=="--deadline") optDeadline=atof(argv[++i]); else if(a=="--rlimit") optRlimit=strtoull(argv[++i],0,10); else if(a=="--steps") optStepLimit=strtoull(argv[++i],0,10);
    else if(a=="--maxviol") optMaxViol=atoi(argv[++i]); else if(a=="--wits") optWits=atoi(argv[++i]); else if(a=="--fresh") freshSolver=true; else if(a=="--repo") repoRoot=nx(); else if(a=="-v") optVerbose=true; else if(a=="--dump"){ optDumpDir=nx(); optDumpEvery=atoi(argv[++i]); }
    else if(a=="--arg"){ string s=nx(); size_t e=s.find('='); optParam[s.substr(0,e)]=atoi(s.c_str()+e+1); }
    else { fprintf(stderr,"symx: unknown option %s\n",a.c_str()); return 2; } }
  mkdir(optOut.c_str(),0755);
  sh=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); memset((void*)sh,0,sizeof *sh); sem_init(&sh->tok,1,optJobs-1); sem_init(&sh->lock,1,1); sh->t0=now();
  prctl(PR_SET_CHILD_SUBREAPER,1);
  initBI();
  { llvm::LLVMContext L; llvm::SMDiagnostic err; auto M=llvm::parseIRFile(optBC,err,L); if(!M){ err.print("symx",llvm::errs()); return 2; } loadModule(*M); }
  if(!fnIdx.count(optEntry)){ fprintf(stderr,"symx: no entry %s\n",optEntry.c_str()); return 2; }
  Z3_config cfg=Z3_mk_config(); Z3_set_param_value(cfg,"model","true"); Z=Z3_mk_context(cfg); Z3_set_error_handler(Z,z3err);
  sReal=Z3_mk_real_sort(Z); sInt=Z3_mk_int_sort(Z); sBool=Z3_mk_bool_sort(Z);
  S=Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z,S); { Z3_params p=Z3_mk_params(Z); Z3_params_inc_ref(Z,p); Z3_params_set_uint(Z,p,Z3_mk_string_symbol(Z,"rlimit"),(unsigned)std::min<u64>(optRlimit,4000000000u)); Z3_solver_set_params(Z,S,p); Z3_params_dec_ref(Z,p); }
  if(!optFix.empty()){ FILE*f=fopen(optFix.c_str(),"r"); if(!f){ perror("fix"); return 2; } char n[512],k[8],v[256]; while(fscanf(f,"%511s %7s %255s",n,k,v)==3) fixed[n]={k[0],v}; fclose(f); obsF=fopen((optOut+"/observe.txt").c_str(),"w"); }
  ctxs.reserve(80); ctxs.emplace_back(); initCtx(ctxs[0],0,-1); mpiReset(1,0);
  sh->paths=1;
  try { pushFrame(ctxs[0],fnIdx[optEntry],{},-1); schedule(); u64 k=sh->pathsEnded++; sh->reach++; if(k<(1ull<<20)&&(k&(k+1))==0&&optFix.empty()){ u64 n=0; while((1ull<<n)-1<k) n++; if((int)n<optWits){ ensureModel(); if(inputs.empty()||model){ Z3_model m=niceModel(0); FILE*f=fopen((optOut+"/path"+std::to_string(n)+".wit").c_str(),"w"); if(f){ writeWitness(f,m?m:model); fclose(f); } } } } } catch(PathEnd&){ }
  if(obsF) fclose(obsF);
  if(!isRoot){ finishProcess(); }
  flushSteps(); sem_post(&sh->tok);
  for(;;){ int st; pid_t p=waitpid(-1,&st,0); if(p<0){ if(errno==EINTR) continue; break; } if(!WIFEXITED(st)||WEXITSTATUS(st)!=0) sh->crashed++; }
  // summary
  FILE*o=fopen((optOut+"/summary.json").c_str(),"w"); double wall=now()-sh->t0;
  fprintf(o,"{\n \"paths\": %llu, \"paths_completed\": %llu, \"paths_excluded\": %llu, \"paths_cut\": %llu, \"forks\": %llu,\n",(unsigned long long)sh->paths,(unsigned long long)sh->pathsEnded,(unsigned long long)sh->excluded,(unsigned long long)sh->limited,(unsigned long long)sh->forks);
  fprintf(o," \"queries\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu, \"solver_s\": %.3f,\n",(unsigned long long)sh->queries,(unsigned long long)sh->sat,(unsigned long long)sh->unsat,(unsigned long long)sh->unknown,sh->solver_ns/1e9);
  fprintf(o," \"asserts_symbolic\": %llu, \"asserts_concrete\": %llu, \"steps\": %llu, \"wall_s\": %.3f,\n",(unsigned long long)sh->assertsSym,(unsigned long long)sh->assertsConst,(unsigned long long)sh->steps,wall);
  fprintf(o," \"timed_out\": %d, \"stopped\": %d, \"crashed\": %llu, \"unsupported\": %llu, \"violations\": %llu,\n",(int)sh->timedout,(int)sh->stop,(unsigned long long)sh->crashed,(unsigned long long)sh->unsupported,(unsigned long long)sh->nviol);
  fprintf(o," \"unsupported_msgs\": ["); for(u32 i=0;i<sh->nunsup;i++) fprintf(o,"%s\"%s\"",i?",":"",jesc(sh->unsup[i]).c_str());
  fprintf(o,"],\n \"viol_keys\": ["); for(u32 i=0;i<sh->nViolKeys;i++) fprintf(o,"%s\"%s\"",i?",":"",jesc(sh->violKey[i]).c_str());
  fprintf(o,"],\n \"covers\": {"); for(u32 i=0;i<sh->ncov;i++) fprintf(o,"%s\"%s\": %d",i?",":"",jesc(sh->covName[i]).c_str(),(int)sh->cov[i]);
  fprintf(o,"},\n \"covers_missing\": ["); bool first=true; for(u32 i=0;i<sh->ncov;i++) if(sh->covReq[i]&&!sh->cov[i]){ fprintf(o,"%s\"%s\"",first?"":",",jesc(sh->covName[i]).c_str()); first=false; }
  fprintf(o,"],\n \"notes\": {"); for(u32 i=0;i<sh->nnote;i++) fprintf(o,"%s\"%s\": %lld",i?",":"",jesc(sh->notes[i]).c_str(),(long long)sh->noteMax[i]);
  fprintf(o,"},\n \"functions\": ["); first=true; for(size_t i=0;i<fns.size()&&i<MAXFN;i++) if(sh->fnseen[i]&&fns[i].fromRepo){ fprintf(o,"%s\"%s\"",first?"":",",jesc(fns[i].name).c_str()); first=false; }
  fprintf(o,"]\n}\n"); fclose(o);
  fflush(0); _exit(0);
}
