// symx: instruments LLVM IR of the real code so that it executes symbolically.
//
// Every integer/pointer SSA value V gets a shadow S(V): an i32 expression id,
// 0 = concrete.  Every byte of memory in the low 64 GiB has an i32 shadow too.
// The concrete value is computed by the original instruction, the expression by
// the runtime (symx/rt).  Symbolic control flow calls the runtime, which records
// the path condition and asks the solver for the other side.
#include "llvm/IR/PassManager.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/CFG.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include "llvm/IR/MDBuilder.h"
#include <set>
#include <map>
using namespace llvm;

namespace {

static const uint64_t ADDR_MASK = (1ULL << 36) - 1;
static const uint64_t SHADOW_BASE = 0x10000000000ULL;

// libc functions that have an instrumented or modelled implementation (symx/libc, symx/rt)
static const char *RENAME[] = {
  "malloc","calloc","realloc","free","strdup","strndup","abort","exit","__assert_fail",
  "memcpy","memmove","memset","memcmp","memchr","bcmp",
  "strlen","strnlen","strcmp","strncmp","strchr","strrchr","strcpy","strncpy","strcat","strncat","strstr","strspn","strcspn","strpbrk","strcasecmp","strncasecmp","strtok","stpcpy",
  "strtoul","strtol","strtoull","strtoll","atoi","__isoc23_strtoul","__isoc23_strtol","__isoc23_strtoull","__isoc23_strtoll",
  "qsort","bsearch",
  "isalnum","isalpha","isblank","iscntrl","isdigit","isgraph","islower","isprint","ispunct","isspace","isupper","isxdigit","tolower","toupper",
  "fprintf","printf","vfprintf","vprintf","snprintf","sprintf","vsnprintf","vsprintf","fputs","puts","fputc","putc","putchar","fwrite","fread","fgetc","getc","ungetc","getchar","fgets","fopen","fclose","feof","ferror","rewind","tmpfile","fflush","perror","strerror","clearerr","fdopen","setvbuf","getline","asprintf","fseek","ftell",
  "rand","srand","random","srandom","time","getenv","getopt","getrusage","clock_gettime","gettimeofday",
  "open","close","read","write","fstat","stat","mmap","munmap","isatty","fileno","dlopen","dlsym","dlclose","dlerror","unlink","remove","system","popen","pclose","mkstemp","fork","execv","waitpid","basename",
  nullptr };

struct Symx {
  Module &M;
  LLVMContext &C;
  const DataLayout &DL;
  Type *I1,*I8,*I32,*I64,*Void; PointerType *Ptr;
  FunctionCallee fBin,fIcmp,fCast,fSel,fLoad,fStore,fBranch,fSwitch,fConc,fMemcpy,fMemmove,fMemset,fGep,fIntr,fVaStart,fByval,fTrap,fConcMem,fOvf,fFsh;
  GlobalVariable *gArgs,*gRet,*gNargs,*gByval;
  std::set<std::string> concExterns;
  MDNode *Unlikely;
  unsigned siteCounter = 0;

  Symx(Module &M): M(M), C(M.getContext()), DL(M.getDataLayout()) {
    I1=Type::getInt1Ty(C); I8=Type::getInt8Ty(C); I32=Type::getInt32Ty(C); I64=Type::getInt64Ty(C); Void=Type::getVoidTy(C); Ptr=PointerType::get(C,0);
    Unlikely = MDBuilder(C).createBranchWeights(1, 100000);
    auto decl=[&](const char*n, Type*r, std::vector<Type*> a){ FunctionCallee f = M.getOrInsertFunction(n, FunctionType::get(r,a,false));
      if (auto *F=dyn_cast<Function>(f.getCallee())) { F->addFnAttr(Attribute::NoUnwind); F->addFnAttr(Attribute::Cold); if (0) F->setCallingConv(CallingConv::PreserveMost);} return f; };
    fBin = decl("sxrt_bin",I32,{I32,I32,I64,I32,I64});
    fIcmp= decl("sxrt_icmp",I32,{I32,I32,I64,I32,I64});
    fCast= decl("sxrt_cast",I32,{I32,I32,I32,I32});
    fSel = decl("sxrt_sel",I32,{I32,I32,I32,I32,I64,I32,I64});
    fFsh = decl("sxrt_fsh",I32,{I32,I32,I32,I64,I32,I64,I64});
    fLoad= decl("sxrt_load",I32,{I64,I32,I32});
    fStore=decl("sxrt_store",Void,{I64,I32,I32,I32,I64});
    fBranch=decl("sxrt_branch",Void,{I32,I32,I32});
    fSwitch=decl("sxrt_switch",Void,{I32,I64,I32,Ptr,I32});
    fConc=decl("sxrt_conc",Void,{I32,I64,I32});
    fConcMem=decl("sxrt_concmem",Void,{I64,I64});
    fMemcpy=decl("sxrt_memcpy",Void,{I64,I32,I64,I32,I64,I32});
    fMemmove=decl("sxrt_memmove",Void,{I64,I32,I64,I32,I64,I32});
    fMemset=decl("sxrt_memset",Void,{I64,I32,I32,I32,I64,I32});
    fGep=decl("sxrt_gep",I32,{I32,I64,I32,I64,I32,I64});
    fIntr=decl("sxrt_intr",I32,{I32,I32,I32,I64,I32,I64});
    fOvf=decl("sxrt_ovf",I32,{I32,I32,I32,I64,I32,I64});
    fVaStart=decl("sxrt_vastart",Void,{I64});
    fByval=decl("sxrt_byval",Void,{I64,I64,I64});
    fTrap=decl("sxrt_trap",Void,{});
    auto gv=[&](const char*n, Type*t){ auto *g = dyn_cast<GlobalVariable>(M.getOrInsertGlobal(n,t)); return g; };
    gArgs=gv("__sx_args",ArrayType::get(I32,64)); gRet=gv("__sx_ret",ArrayType::get(I32,8)); gNargs=gv("__sx_nargs",I32); gByval=gv("__sx_byval",ArrayType::get(I64,64));
  }

  Value *Z() { return ConstantInt::get(I32,0); }
  static bool isZ(Value*v){ auto *c=dyn_cast<ConstantInt>(v); return c && c->isZero(); }

  unsigned nElems(Type *T) {
    if (T->isVoidTy()) return 0;
    if (auto *S=dyn_cast<StructType>(T)) { unsigned n=0; for (auto *e:S->elements()) n+=nElems(e); return n; }
    if (auto *A=dyn_cast<ArrayType>(T)) return A->getNumElements()*nElems(A->getElementType());
    return 1;
  }
  bool scalarOk(Type *T){ return T->isPointerTy() || (T->isIntegerTy() && T->getIntegerBitWidth()<=64); }
  unsigned width(Type *T){ return T->isPointerTy()?64:T->getIntegerBitWidth(); }

  typedef SmallVector<Value*,2> SV;
  struct FnState {
    DenseMap<Value*, SV> sh;
    DenseMap<Value*, bool> maybe;   // may be symbolic
  };

  FnState *S;
  bool maybe(Value *V){ if (isa<Constant>(V)||isa<MetadataAsValue>(V)||isa<BasicBlock>(V)||isa<InlineAsm>(V)) return false; auto it=S->maybe.find(V); return it!=S->maybe.end() && it->second; }
  Value *sh(Value *V, unsigned i=0){
    if (isa<Constant>(V)) return Z();
    auto it=S->sh.find(V); if (it==S->sh.end() || i>=it->second.size()) return Z();
    return it->second[i];
  }
  void setSh(Value *V, Value *s){ S->sh[V] = SV{s}; }

  Value *to64(IRBuilder<> &B, Value *V){
    if (V->getType()->isPointerTy()) return B.CreatePtrToInt(V,I64);
    if (V->getType()->isIntegerTy()) { unsigned w=V->getType()->getIntegerBitWidth(); if (w==64) return V; if (w<64) return B.CreateZExt(V,I64); return B.CreateTrunc(V,I64);} 
    return ConstantInt::get(I64,0);
  }
  Value *anyNZ(IRBuilder<> &B, ArrayRef<Value*> v){
    Value *r=nullptr; for (auto *x: v) { if (isZ(x)) continue; r = r? B.CreateOr(r,x):x; }
    if (!r) return nullptr; return B.CreateICmpNE(r, ConstantInt::get(r->getType(),0));
  }
  // guarded: if any of deps != 0 then r = f() else 0.  Inserted before `pos`.
  template<class FN> Value *guarded(Instruction *pos, ArrayRef<Value*> deps, FN f){
    IRBuilder<> B(pos);
    Value *c = anyNZ(B,deps); if (!c) return Z();
    Instruction *thenT = SplitBlockAndInsertIfThen(c, pos, false, Unlikely);
    IRBuilder<> TB(thenT);
    BasicBlock *pre = thenT->getParent()->getSinglePredecessor();
    Value *r = f(TB);
    BasicBlock *thenB = TB.GetInsertBlock();
    if (!r) return nullptr;
    IRBuilder<> PB(pos->getParent(), pos->getParent()->begin());
    PHINode *p = PB.CreatePHI(I32,2); p->addIncoming(r, thenB); p->addIncoming(Z(), pre);
    return p;
  }

  Value *memShadowNZ(IRBuilder<> &B, Value *addr64, uint64_t n, Value *extra){
    // returns i1: any shadow of [addr,addr+n) nonzero or extra!=0
    Value *off = B.CreateShl(B.CreateAnd(addr64, ConstantInt::get(I64,ADDR_MASK)), 2);
    Value *sp = B.CreateIntToPtr(B.CreateAdd(off, ConstantInt::get(I64,SHADOW_BASE)), Ptr);
    Value *acc=nullptr;
    auto add=[&](Value *x){ Value *z = x->getType()==I64? x : B.CreateZExt(x,I64); acc = acc? B.CreateOr(acc,z):z; };
    uint64_t i=0;
    for (; i+2<=n; i+=2) add(B.CreateAlignedLoad(I64, B.CreateConstGEP1_64(I8,sp,i*4), Align(4)));
    if (i<n) add(B.CreateAlignedLoad(I32, B.CreateConstGEP1_64(I8,sp,i*4), Align(4)));
    if (extra && !isZ(extra)) add(extra);
    return B.CreateICmpNE(acc, ConstantInt::get(I64,0));
  }

  bool nextIsIntrinsicOnlyConc(StringRef n){ return false; }

  void computeMaybe(Function &F){
    bool ch=true;
    for (auto &A: F.args()) S->maybe[&A] = scalarOk(A.getType());
    while (ch) { ch=false;
      for (auto &BB: F) for (auto &I: BB) {
        if (S->maybe.lookup(&I)) continue;
        bool m=false;
        if (I.getType()->isVoidTy()) continue;
        if (isa<LoadInst>(I)) m = true;
        else if (isa<AllocaInst>(I)) m=false;
        else if (auto *CI=dyn_cast<CallInst>(&I)) {
          if (auto *II=dyn_cast<IntrinsicInst>(CI)) { for (auto &o: II->args()) m |= maybe(o); }
          else m = true;
        }
        else for (auto &o: I.operands()) m |= maybe(o);
        if (m) { S->maybe[&I]=true; ch=true; }
      }
    }
  }

  enum BinOp { ADD=1,SUB,MUL,UDIV,SDIV,UREM,SREM,SHL,LSHR,ASHR,AND,OR,XOR };
  int binop(unsigned op){ switch(op){ case Instruction::Add:return ADD; case Instruction::Sub:return SUB; case Instruction::Mul:return MUL; case Instruction::UDiv:return UDIV; case Instruction::SDiv:return SDIV; case Instruction::URem:return UREM; case Instruction::SRem:return SREM; case Instruction::Shl:return SHL; case Instruction::LShr:return LSHR; case Instruction::AShr:return ASHR; case Instruction::And:return AND; case Instruction::Or:return OR; case Instruction::Xor:return XOR; } return 0; }
  enum Intr { CTPOP=1,CTLZ,CTTZ,BSWAP,UMIN,UMAX,SMIN,SMAX,ABS,FSHL,FSHR,USUBSAT,UADDSAT };

  void conc(Instruction *pos, Value *V){
    if (!maybe(V) ) return;
    if (!scalarOk(V->getType())) return;
    Value *s=sh(V); if (isZ(s)) return;
    guarded(pos,{s},[&](IRBuilder<>&B)->Value*{ B.CreateCall(fConc,{s,to64(B,V),B.getInt32(width(V->getType()))}); return nullptr; });
  }

  void visitCall(CallInst *I, SmallVectorImpl<Instruction*> &dead){
    Instruction *next=I->getNextNode();
    if (auto *II=dyn_cast<IntrinsicInst>(I)) {
      switch (II->getIntrinsicID()) {
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memset: case Intrinsic::memcpy_inline: case Intrinsic::memset_inline: {
        bool set = II->getIntrinsicID()==Intrinsic::memset || II->getIntrinsicID()==Intrinsic::memset_inline;
        IRBuilder<> B(I);
        Value *d=II->getArgOperand(0), *s=II->getArgOperand(1), *n=II->getArgOperand(2);
        Value *n64=to64(B,n);
        Value *sv = set? B.CreateZExt(s,I32) : to64(B,s);
        B.CreateCall(set?fMemset: II->getIntrinsicID()==Intrinsic::memmove? fMemmove: fMemcpy, {to64(B,d),sh(d),sv,sh(s),n64,sh(n)});
        dead.push_back(I);
        return; }
      case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap:
      case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: case Intrinsic::abs:
      case Intrinsic::usub_sat: case Intrinsic::uadd_sat: {
        int op=0; switch(II->getIntrinsicID()){ case Intrinsic::ctpop:op=CTPOP;break; case Intrinsic::ctlz:op=CTLZ;break; case Intrinsic::cttz:op=CTTZ;break; case Intrinsic::bswap:op=BSWAP;break; case Intrinsic::umin:op=UMIN;break; case Intrinsic::umax:op=UMAX;break; case Intrinsic::smin:op=SMIN;break; case Intrinsic::smax:op=SMAX;break; case Intrinsic::abs:op=ABS;break; case Intrinsic::usub_sat:op=USUBSAT;break; case Intrinsic::uadd_sat:op=UADDSAT;break; default:; }
        if (!scalarOk(I->getType())) { for (auto &a: II->args()) conc(I,a); return; }
        Value *a=II->getArgOperand(0), *b = II->arg_size()>1? II->getArgOperand(1): nullptr;
        unsigned w=width(I->getType());
        setSh(I, guarded(next,{sh(a), b?sh(b):Z()},[&](IRBuilder<>&B)->Value*{ return B.CreateCall(fIntr,{B.getInt32(op),B.getInt32(w),sh(a),to64(B,a), b?sh(b):Z(), b? to64(B,b):(Value*)B.getInt64(0)}); }));
        return; }
      case Intrinsic::fshl: case Intrinsic::fshr: {
        if (!scalarOk(I->getType())) return;
        // concretise the shift amount, then (a<<s)|(b>>(w-s))
        bool L = II->getIntrinsicID()==Intrinsic::fshl;
        Value *a=II->getArgOperand(0),*b=II->getArgOperand(1),*s=II->getArgOperand(2);
        conc(I,s);
        unsigned w=width(I->getType());
        setSh(I, guarded(I->getNextNode(),{sh(a),sh(b)},[&](IRBuilder<>&B)->Value*{
          return B.CreateCall(fFsh,{B.getInt32(L),B.getInt32(w),sh(a),to64(B,a),sh(b),to64(B,b),to64(B,s)}); }));
        return; }
      case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
      case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        int op=0,ov=0; switch(II->getIntrinsicID()){ case Intrinsic::uadd_with_overflow:op=ADD;ov=1;break; case Intrinsic::usub_with_overflow:op=SUB;ov=2;break; case Intrinsic::umul_with_overflow:op=MUL;ov=3;break; case Intrinsic::sadd_with_overflow:op=ADD;ov=4;break; case Intrinsic::ssub_with_overflow:op=SUB;ov=5;break; default: op=MUL;ov=6; }
        Value *a=II->getArgOperand(0),*b=II->getArgOperand(1); unsigned w=width(a->getType());
        Value *r=guarded(next,{sh(a),sh(b)},[&](IRBuilder<>&B)->Value*{ return B.CreateCall(fBin,{B.getInt32(op*256+w),sh(a),to64(B,a),sh(b),to64(B,b)}); });
        Value *o=guarded(next,{sh(a),sh(b)},[&](IRBuilder<>&B)->Value*{ return B.CreateCall(fOvf,{B.getInt32(ov),B.getInt32(w),sh(a),to64(B,a),sh(b),to64(B,b)}); });
        S->sh[I]=SV{r,o};
        return; }
      case Intrinsic::vastart: {
        IRBuilder<> B(next); B.CreateCall(fVaStart,{to64(B,II->getArgOperand(0))}); return; }
      case Intrinsic::vacopy: {
        return; }
      case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: {
        IRBuilder<> B(I); B.CreateCall(fTrap,{}); return; }
      case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::ptrmask:
        setSh(I, sh(II->getArgOperand(0))); return;
      default: 
        for (auto &a: II->args()) if (!isa<MetadataAsValue>(a)) if (II->getIntrinsicID()!=Intrinsic::assume) conc(I,a);
        return;
      }
    }
    if (I->isInlineAsm()) { for (auto &a: I->args()) conc(I,a); return; }
    // direct call to a function that is not instrumented?
    Function *F = I->getCalledFunction();
    bool ext = F && F->isDeclaration() && !F->getName().startswith("sxl_") && !F->getName().startswith("sx_") && concExterns.count(F->getName().str());
    bool variadic = I->getFunctionType()->isVarArg();
    if (ext) { for (auto &a: I->args()) conc(I,a); return; }
    conc(I, I->getCalledOperand());
    IRBuilder<> B(I);
    unsigned nfix = I->getFunctionType()->getNumParams();
    if (variadic) {
      for (unsigned i=nfix;i<I->arg_size();i++) conc(I,I->getArgOperand(i));
      B.SetInsertPoint(I);
      B.CreateStore(B.getInt32(I->arg_size()), gNargs);
    }
    for (unsigned i=0;i<nfix && i<64;i++) {
      Value *a=I->getArgOperand(i);
      if (I->isByValArgument(i)) B.CreateStore(to64(B,a), B.CreateConstGEP2_32(gByval->getValueType(),gByval,0,i));
      if (!scalarOk(a->getType())) continue;
      B.CreateStore(sh(a), B.CreateConstGEP2_32(gArgs->getValueType(),gArgs,0,i));
    }
    unsigned ne = nElems(I->getType());
    for (unsigned i=0;i<ne && i<8;i++) B.CreateStore(Z(), B.CreateConstGEP2_32(gRet->getValueType(),gRet,0,i));
    if (ne && !I->isMustTailCall()) {
      IRBuilder<> A(next); SV v;
      for (unsigned i=0;i<ne && i<8;i++) v.push_back(A.CreateLoad(I32, A.CreateConstGEP2_32(gRet->getValueType(),gRet,0,i)));
      S->sh[I]=v;
    }
    if (I->isTailCall()) I->setTailCallKind(CallInst::TCK_NoTail);
  }

  unsigned flatIndex(Type *T, ArrayRef<unsigned> idx){
    unsigned r=0;
    for (unsigned k: idx) {
      if (auto *S=dyn_cast<StructType>(T)) { for (unsigned i=0;i<k;i++) r+=nElems(S->getElementType(i)); T=S->getElementType(k); }
      else { auto *A=cast<ArrayType>(T); r+=k*nElems(A->getElementType()); T=A->getElementType(); }
    }
    return r;
  }

  void instrument(Function &F){
    FnState st; S=&st;
    computeMaybe(F);
    std::vector<BasicBlock*> order;
    { ReversePostOrderTraversal<Function*> R(&F); for (auto *b: R) order.push_back(b); }
    // unreachable blocks
    { std::set<BasicBlock*> in(order.begin(),order.end()); for (auto &b:F) if (!in.count(&b)) order.push_back(&b); }
    std::vector<std::vector<Instruction*>> insts;
    for (auto *b: order) { insts.emplace_back(); for (auto &i: *b) insts.back().push_back(&i); }
    // shadow phis
    std::vector<std::pair<PHINode*, SmallVector<PHINode*,2>>> phis;
    for (auto &v: insts) for (auto *i: v) if (auto *p=dyn_cast<PHINode>(i)) {
      if (!maybe(p)) continue;
      unsigned ne=nElems(p->getType()); if (!scalarOk(p->getType()) && ne==1) continue;
      IRBuilder<> B(p); SmallVector<PHINode*,2> sp; SV v;
      for (unsigned k=0;k<ne;k++) { auto *q=B.CreatePHI(I32,p->getNumIncomingValues()); sp.push_back(q); v.push_back(q); }
      phis.push_back({p,sp}); S->sh[p]=v;
    }
    // entry
    {
      IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
      Constant *nm = ConstantDataArray::getString(C, F.getName());
      auto *ng = new GlobalVariable(M,nm->getType(),true,GlobalValue::PrivateLinkage,nm,"sxname");
      StructType *ST = StructType::get(C,{Ptr,I64});
      auto *rec = new GlobalVariable(M,ST,false,GlobalValue::InternalLinkage,ConstantStruct::get(ST,{ng,ConstantInt::get(I64,0)}),"sxfnrec");
      rec->setSection("sxfn"); rec->setAlignment(Align(16)); appendToUsed(M,{rec});
      B.CreateStore(B.getInt64(1), B.CreateConstGEP2_32(ST,rec,0,1));
      unsigned i=0;
      for (auto &A: F.args()) {
        if (i>=64) break;
        if (scalarOk(A.getType())) setSh(&A, B.CreateLoad(I32, B.CreateConstGEP2_32(gArgs->getValueType(),gArgs,0,i)));
        if (A.hasByValAttr()) {
          uint64_t sz = DL.getTypeAllocSize(A.getParamByValType());
          B.CreateCall(fByval,{B.CreatePtrToInt(&A,I64), B.CreateLoad(I64,B.CreateConstGEP2_32(gByval->getValueType(),gByval,0,i)), B.getInt64(sz)});
        }
        i++;
      }
    }
    SmallVector<Instruction*,16> dead;
    for (auto &v: insts) for (auto *I: v) {
      Instruction *next = I->isTerminator()? nullptr : I->getNextNode();
      if (isa<PHINode>(I)) continue;
      if (auto *BO=dyn_cast<BinaryOperator>(I)) {
        if (!maybe(I)) continue;
        if (!scalarOk(I->getType())) { for (auto &o: I->operands()) conc(I,o); continue; }
        Value *a=BO->getOperand(0),*b=BO->getOperand(1); unsigned w=width(I->getType()); int op=binop(BO->getOpcode());
        if (!op) continue;
        // division: let the runtime check a symbolic divisor first
        if (op==UDIV||op==SDIV||op==UREM||op==SREM)
          setSh(I, guarded(I,{sh(a),sh(b)},[&](IRBuilder<>&B)->Value*{ return B.CreateCall(fBin,{B.getInt32(op*256+w),sh(a),to64(B,a),sh(b),to64(B,b)}); }));
        else
          setSh(I, guarded(next,{sh(a),sh(b)},[&](IRBuilder<>&B)->Value*{ return B.CreateCall(fBin,{B.getInt32(op*256+w),sh(a),to64(B,a),sh(b),to64(B,b)}); }));
      } else if (auto *CI=dyn_cast<ICmpInst>(I)) {
        if (!maybe(I)) continue;
        Value *a=CI->getOperand(0),*b=CI->getOperand(1);
        if (!scalarOk(a->getType())) { conc(I,a); conc(I,b); continue; }
        unsigned w=width(a->getType()); unsigned p=CI->getPredicate();
        setSh(I, guarded(next,{sh(a),sh(b)},[&](IRBuilder<>&B)->Value*{ return B.CreateCall(fIcmp,{B.getInt32(p*256+w),sh(a),to64(B,a),sh(b),to64(B,b)}); }));
      } else if (auto *K=dyn_cast<CastInst>(I)) {
        if (!maybe(I)) continue;
        Value *a=K->getOperand(0);
        if (!scalarOk(I->getType()) || !scalarOk(a->getType())) { conc(I,a); continue; }
        unsigned wf=width(a->getType()), wt=width(I->getType());
        if (wf==wt) { setSh(I,sh(a)); continue; }
        int op = isa<ZExtInst>(K)||isa<IntToPtrInst>(K)&&wf<wt ? 1 : isa<SExtInst>(K)? 2 : 3;
        setSh(I, guarded(next,{sh(a)},[&](IRBuilder<>&B)->Value*{ return B.CreateCall(fCast,{B.getInt32(op),B.getInt32(wf),B.getInt32(wt),sh(a)}); }));
      } else if (auto *SI=dyn_cast<SelectInst>(I)) {
        if (!maybe(I)) continue;
        Value *c=SI->getCondition(),*a=SI->getTrueValue(),*b=SI->getFalseValue();
        if (!scalarOk(I->getType())) { conc(I,c); continue; }
        unsigned w=width(I->getType());
        if (I->getType()->isPointerTy()) {
          if (!isZ(sh(c))) guarded(next,{sh(c)},[&](IRBuilder<>&B)->Value*{ B.CreateCall(fBranch,{sh(c),B.CreateZExt(c,I32),B.getInt32(siteCounter++)}); return nullptr; });
          IRBuilder<> B(I->getNextNode());
          setSh(I, (isZ(sh(a))&&isZ(sh(b)))? Z() : B.CreateSelect(c,sh(a),sh(b)));
          continue;
        }
        setSh(I, guarded(next,{sh(c),sh(a),sh(b)},[&](IRBuilder<>&B)->Value*{ return B.CreateCall(fSel,{B.getInt32(w),sh(c),B.CreateZExt(c,I32),sh(a),to64(B,a),sh(b),to64(B,b)}); }));
      } else if (auto *G=dyn_cast<GetElementPtrInst>(I)) {
        if (!maybe(I)) continue;
        if (!scalarOk(I->getType())) continue;
        MapVector<Value*,APInt> var; APInt cst(64,0);
        if (!G->collectOffset(DL,64,var,cst)) { for (auto &o: I->operands()) conc(I,o); continue; }
        SmallVector<Value*,4> deps; deps.push_back(sh(G->getPointerOperand()));
        for (auto &kv: var) deps.push_back(sh(kv.first));
        setSh(I, guarded(next,deps,[&](IRBuilder<>&B)->Value*{
          Value *r=sh(G->getPointerOperand()), *rc=to64(B,G->getPointerOperand());
          for (auto &kv: var) {
            Value *ix=kv.first; Value *i64 = ix->getType()->getIntegerBitWidth()<64? B.CreateSExt(ix,I64): ix;
            r = B.CreateCall(fGep,{r,rc,sh(ix),to64(B,ix),B.getInt32(width(ix->getType())),ConstantInt::get(I64,kv.second)});
            rc = B.CreateAdd(rc,B.CreateMul(i64,ConstantInt::get(I64,kv.second)));
          }
          if (!cst.isZero()) r = B.CreateCall(fBin,{B.getInt32(ADD*256+64),r,rc,Z(),ConstantInt::get(I64,cst)});
          return r; }));
      } else if (isa<FreezeInst>(I)) {
        SV v; for (unsigned k=0;k<nElems(I->getType());k++) v.push_back(sh(I->getOperand(0),k)); S->sh[I]=v;
      } else if (auto *L=dyn_cast<LoadInst>(I)) {
        uint64_t n=DL.getTypeStoreSize(L->getType());
        Value *p=L->getPointerOperand();
        if (n==0) continue;
        if (!scalarOk(L->getType())) {
          if (n<=64) {
            IRBuilder<> B(I); Value *a=to64(B,p); Value *c=memShadowNZ(B,a,n,sh(p));
            Instruction *T=SplitBlockAndInsertIfThen(c,I,false,Unlikely); IRBuilder<> TB(T);
            if (!isZ(sh(p))) TB.CreateCall(fConc,{sh(p),a,TB.getInt32(64)});
            TB.CreateCall(fConcMem,{a,TB.getInt64(n)});
          }
          continue;
        }
        if (L->getType()->isIntegerTy() && L->getType()->getIntegerBitWidth()%8 && L->getType()->getIntegerBitWidth()!=1) { /* odd widths: concretise */
          IRBuilder<> B(I); B.CreateCall(fConcMem,{to64(B,p),B.getInt64(n)}); continue; }
        if (isa<AllocaInst>(p) && 0) continue;
        if (auto *gv=dyn_cast<GlobalVariable>(p)) if (gv->isConstant()) continue;
        IRBuilder<> B(I); Value *a=to64(B,p); Value *c=memShadowNZ(B,a,n,sh(p));
        Instruction *T=SplitBlockAndInsertIfThen(c,I,false,Unlikely);
        BasicBlock *pre=T->getParent()->getSinglePredecessor();
        IRBuilder<> TB(T); Value *r=TB.CreateCall(fLoad,{a,sh(p),TB.getInt32(n)});
        if (L->getType()->isIntegerTy(1)) r=TB.CreateCall(fCast,{TB.getInt32(3),TB.getInt32(8),TB.getInt32(1),r});
        BasicBlock *tb=TB.GetInsertBlock();
        IRBuilder<> PB(I->getParent(), I->getParent()->begin());
        PHINode *ph=PB.CreatePHI(I32,2); ph->addIncoming(r,tb); ph->addIncoming(Z(),pre);
        setSh(I,ph);
      } else if (auto *St=dyn_cast<StoreInst>(I)) {
        Value *p=St->getPointerOperand(), *v=St->getValueOperand();
        uint64_t n=DL.getTypeStoreSize(v->getType()); if (n==0) continue;
        if (!scalarOk(v->getType())) {
          IRBuilder<> B(I); Value *a=to64(B,p);
          for (uint64_t o=0;o<n;o+=8) {
            uint64_t k=std::min<uint64_t>(8,n-o); IRBuilder<> B2(I);
            Value *ao=B2.CreateAdd(a,B2.getInt64(o)); Value *c=memShadowNZ(B2,ao,k,nullptr);
            Instruction *T=SplitBlockAndInsertIfThen(c,I,false,Unlikely); IRBuilder<> TB(T);
            TB.CreateCall(fStore,{ao,Z(),TB.getInt32(k),Z(),TB.getInt64(0)});
          }
          continue;
        }
        IRBuilder<> B(I); Value *a=to64(B,p);
        Value *ex = sh(p); if (!isZ(sh(v))) ex = isZ(ex)? sh(v) : B.CreateOr(ex,sh(v));
        Value *c=memShadowNZ(B,a,n,ex);
        Value *vs=sh(v);
        Instruction *T=SplitBlockAndInsertIfThen(c,I,false,Unlikely); IRBuilder<> TB(T);
        if (v->getType()->isIntegerTy() && v->getType()->getIntegerBitWidth()%8 && !isZ(vs)) {
          // i1 (or odd) stored as a byte: zero-extend when symbolic
          unsigned w=v->getType()->getIntegerBitWidth();
          vs = TB.CreateCall(fCast,{TB.getInt32(1),TB.getInt32(w),TB.getInt32(n*8),vs});
        }
        TB.CreateCall(fStore,{a,sh(p),TB.getInt32(n),vs,to64(TB,v)});
      } else if (auto *BI=dyn_cast<BranchInst>(I)) {
        if (!BI->isConditional()) continue;
        Value *c=BI->getCondition(); if (isZ(sh(c))) continue;
        guarded(I,{sh(c)},[&](IRBuilder<>&B)->Value*{ B.CreateCall(fBranch,{sh(c),B.CreateZExt(c,I32),B.getInt32(siteCounter++)}); return nullptr; });
      } else if (auto *SW=dyn_cast<SwitchInst>(I)) {
        Value *c=SW->getCondition(); if (isZ(sh(c))) continue;
        std::vector<Constant*> tab; std::map<BasicBlock*,unsigned> grp; unsigned ng=1; grp[SW->getDefaultDest()]=0;
        unsigned n=0;
        for (auto &cs: SW->cases()) { unsigned g; auto it=grp.find(cs.getCaseSuccessor()); if (it==grp.end()) { g=ng++; grp[cs.getCaseSuccessor()]=g; } else g=it->second;
          tab.push_back(ConstantInt::get(I64,cs.getCaseValue()->getZExtValue())); tab.push_back(ConstantInt::get(I64,g)); n++; }
        auto *AT=ArrayType::get(I64,tab.size()); auto *g=new GlobalVariable(M,AT,true,GlobalValue::PrivateLinkage,ConstantArray::get(AT,tab),"sxsw");
        guarded(I,{sh(c)},[&](IRBuilder<>&B)->Value*{ B.CreateCall(fSwitch,{sh(c),to64(B,c),B.getInt32(width(c->getType())),g,B.getInt32(n)}); return nullptr; });
      } else if (auto *CI=dyn_cast<CallInst>(I)) {
        visitCall(CI,dead);
      } else if (auto *R=dyn_cast<ReturnInst>(I)) {
        Value *v=R->getReturnValue(); if (!v) continue;
        Instruction *prev=I->getPrevNode();
        if (prev && isa<CallInst>(prev) && cast<CallInst>(prev)->isMustTailCall()) continue;
        IRBuilder<> B(I); unsigned ne=nElems(v->getType());
        for (unsigned i=0;i<ne && i<8;i++) B.CreateStore(sh(v,i), B.CreateConstGEP2_32(gRet->getValueType(),gRet,0,i));
      } else if (auto *EV=dyn_cast<ExtractValueInst>(I)) {
        unsigned base=flatIndex(EV->getAggregateOperand()->getType(),EV->getIndices()); SV v;
        for (unsigned k=0;k<nElems(I->getType());k++) v.push_back(sh(EV->getAggregateOperand(),base+k));
        S->sh[I]=v;
      } else if (auto *IV=dyn_cast<InsertValueInst>(I)) {
        SV v; unsigned ne=nElems(I->getType()); for (unsigned k=0;k<ne;k++) v.push_back(sh(IV->getAggregateOperand(),k));
        unsigned base=flatIndex(I->getType(),IV->getIndices());
        for (unsigned k=0;k<nElems(IV->getInsertedValueOperand()->getType());k++) v[base+k]=sh(IV->getInsertedValueOperand(),k);
        S->sh[I]=v;
      } else if (auto *AI=dyn_cast<AllocaInst>(I)) {
        if (AI->isArrayAllocation()) conc(I,AI->getArraySize());
      } else if (isa<UnreachableInst>(I)) {
      } else if (isa<AtomicRMWInst>(I)||isa<AtomicCmpXchgInst>(I)) {
        errs()<<"symx: atomic op not modelled in "<<F.getName()<<"\n";
      } else {
        for (auto &o: I->operands()) if (maybe(o) && scalarOk(o->getType())) conc(I,o);
      }
    }
    for (auto &pp: phis) {
      for (unsigned k=0;k<pp.second.size();k++)
        for (unsigned i=0;i<pp.first->getNumIncomingValues();i++)
          pp.second[k]->addIncoming(sh(pp.first->getIncomingValue(i),k), pp.first->getIncomingBlock(i));
    }
    for (auto *d: dead) d->eraseFromParent();
  }

  void run(){
    static const char *ext[]={"__errno_location","ceil","floor","log2","log","pow","sqrt","fabs","ldexp","frexp","strtod",nullptr};
    for (int i=0;ext[i];i++) concExterns.insert(ext[i]);
    for (int i=0;RENAME[i];i++) {
      Function *F=M.getFunction(RENAME[i]);
      if (!F || !F->isDeclaration()) continue;
      std::string nn=std::string("sxl_")+(StringRef(RENAME[i]).startswith("__isoc23_")? StringRef(RENAME[i]).substr(9): StringRef(RENAME[i])).str();
      if (Function *G=M.getFunction(nn)) { F->replaceAllUsesWith(G); continue; }
      F->setName(nn);
    }
    for (const char *n: {"stdin","stdout","stderr","optarg","optind","opterr","optopt","environ"}) {
      if (auto *g=M.getGlobalVariable(n)) if (g->isDeclaration()) g->setName(std::string("sxl_")+n);
    }
    std::vector<Function*> fs;
    for (auto &F: M) if (!F.isDeclaration() && !F.getName().startswith("sxrt_") && !F.hasAvailableExternallyLinkage()) fs.push_back(&F);
    for (auto &F: M) if (F.isDeclaration() && !F.isIntrinsic() && !F.getName().startswith("sxrt_")) {
      // attributes such as memory(none)/readonly on renamed functions would let codegen drop side effects
      F.removeFnAttr(Attribute::Memory); F.removeFnAttr(Attribute::WillReturn);
    }
    for (auto &G: M.globals()) {
      if (G.isDeclaration() || G.isConstant() || G.hasSection() || G.isThreadLocal() || G.getName().startswith("llvm.") || G.getName().startswith("__sx_")) continue;
      if (G.hasCommonLinkage()) G.setLinkage(GlobalValue::WeakAnyLinkage);
      G.setSection("sxdata");
    }
    for (auto *F: fs) {
      F->removeFnAttr(Attribute::Memory); F->removeFnAttr(Attribute::WillReturn); F->removeFnAttr(Attribute::NoSync);
      for (auto &BB:*F) for (auto &I:BB) if (auto *CB=dyn_cast<CallBase>(&I)) { if (!isa<IntrinsicInst>(CB)) { CB->removeFnAttr(Attribute::Memory); CB->removeFnAttr(Attribute::WillReturn);} }
      instrument(*F);
    }
  }
};

struct SymxPass : PassInfoMixin<SymxPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) { Symx(M).run(); return PreservedAnalyses::none(); }
  static bool isRequired(){return true;}
};
}

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION,"symx","1",[](PassBuilder &PB){
    PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel){ MPM.addPass(SymxPass()); });
    PB.registerPipelineParsingCallback([](StringRef N, ModulePassManager &MPM, ArrayRef<PassBuilder::PipelineElement>){ if (N=="symx") { MPM.addPass(SymxPass()); return true; } return false; });
  }};
}
