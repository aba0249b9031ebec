// irx: normalise the IR of a client translation unit and dump it as JSON.
//
//   irx in.bc out.json [--keep-unwind] [--opaque REGEX]... [--ll out.ll]
//
// Roots are the functions whose name starts with "vp_" and that have a body.
// Functions whose demangled name matches an --opaque regex lose their body, so
// they stay visible as calls.  Everything else that has a body is inlined into
// the roots, which makes the result independent of how the source is split
// into helpers.  Nothing is executed.
#include <cxxabi.h>
#include <map>
#include <regex>
#include <set>
#include <string>
#include <vector>

#include "llvm/ADT/MapVector.h"
#include "llvm/ADT/SmallPtrSet.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"

using namespace llvm;
namespace js = llvm::json;

static const DataLayout *DL;

static std::string typeStr(Type *T) {
  std::string s;
  raw_string_ostream os(s);
  T->print(os, false, true);
  return os.str();
}

static js::Value typeJson(Type *T) {
  js::Object o;
  if (T->isIntegerTy()) {
    o["k"] = "i";
    o["w"] = (int64_t)T->getIntegerBitWidth();
  } else if (T->isFloatingPointTy()) {
    o["k"] = "f";
    o["w"] = (int64_t)T->getPrimitiveSizeInBits();
  } else if (T->isPointerTy()) {
    o["k"] = "p";
    o["w"] = 64;
  } else if (T->isVoidTy()) {
    o["k"] = "v";
    return o;
  } else if (auto *S = dyn_cast<StructType>(T)) {
    o["k"] = "s";
    js::Array f, off;
    auto *L = DL->getStructLayout(S);
    for (unsigned i = 0; i < S->getNumElements(); ++i) {
      f.push_back(typeJson(S->getElementType(i)));
      off.push_back((int64_t)L->getElementOffset(i));
    }
    o["f"] = std::move(f);
    o["o"] = std::move(off);
  } else if (auto *A = dyn_cast<ArrayType>(T)) {
    o["k"] = "a";
    o["n"] = (int64_t)A->getNumElements();
    o["e"] = typeJson(A->getElementType());
  } else if (auto *V = dyn_cast<FixedVectorType>(T)) {
    o["k"] = "V";
    o["n"] = (int64_t)V->getNumElements();
    o["e"] = typeJson(V->getElementType());
  } else {
    o["k"] = "?";
    o["t"] = typeStr(T);
    return o;
  }
  if (T->isSized()) o["sz"] = (int64_t)DL->getTypeStoreSize(T).getFixedValue();
  return o;
}

static std::map<const Value *, int> ids;
static std::set<const GlobalVariable *> usedGlobals;

static js::Value constJson(const Constant *C);

static js::Value fpJson(const APFloat &F0) {
  js::Object o;
  if (F0.isNaN())
    o["f"] = "nan";
  else if (F0.isInfinity())
    o["f"] = F0.isNegative() ? "-inf" : "inf";
  else {
    APFloat F = F0;
    bool lose;
    SmallString<64> s;
    o["neg"] = F.isNegative();
    F.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lose);
    char buf[64];
    snprintf(buf, sizeof buf, "%a", F.convertToDouble());
    o["f"] = std::string(buf);
  }
  return o;
}

static js::Value constJson(const Constant *C) {
  js::Object o;
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    SmallString<64> s;
    CI->getValue().toStringSigned(s);
    o["i"] = std::string(s);
    o["w"] = (int64_t)CI->getBitWidth();
    return o;
  }
  if (auto *CF = dyn_cast<ConstantFP>(C)) return fpJson(CF->getValueAPF());
  if (isa<ConstantPointerNull>(C)) {
    o["null"] = true;
    return o;
  }
  if (isa<UndefValue>(C)) {
    o["undef"] = true;
    o["t"] = typeJson(C->getType());
    return o;
  }
  if (isa<ConstantAggregateZero>(C)) {
    o["zero"] = typeJson(C->getType());
    return o;
  }
  if (auto *F = dyn_cast<Function>(C)) {
    o["fn"] = F->getName().str();
    return o;
  }
  if (auto *GA = dyn_cast<GlobalAlias>(C)) {
    return constJson(GA->getAliasee());
  }
  if (auto *G = dyn_cast<GlobalVariable>(C)) {
    usedGlobals.insert(G);
    o["g"] = G->getName().str();
    return o;
  }
  if (auto *A = dyn_cast<ConstantDataSequential>(C)) {
    js::Array a;
    for (unsigned i = 0; i < A->getNumElements(); ++i) a.push_back(constJson(A->getElementAsConstant(i)));
    o["agg"] = std::move(a);
    o["t"] = typeJson(C->getType());
    return o;
  }
  if (isa<ConstantAggregate>(C)) {
    js::Array a;
    for (auto &op : C->operands()) a.push_back(constJson(cast<Constant>(op)));
    o["agg"] = std::move(a);
    o["t"] = typeJson(C->getType());
    return o;
  }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    if (auto *GEP = dyn_cast<GEPOperator>(CE)) {
      APInt off(64, 0);
      if (GEP->accumulateConstantOffset(*DL, off)) {
        o["cgep"] = constJson(cast<Constant>(GEP->getPointerOperand()));
        o["off"] = off.getSExtValue();
        return o;
      }
    }
    js::Array a;
    for (auto &op : CE->operands()) a.push_back(constJson(cast<Constant>(op)));
    o["ce"] = std::string(CE->getOpcodeName());
    o["ops"] = std::move(a);
    return o;
  }
  o["unk"] = typeStr(C->getType());
  return o;
}

static js::Value valJson(const Value *V) {
  if (auto *C = dyn_cast<Constant>(V)) return constJson(C);
  js::Object o;
  auto it = ids.find(V);
  if (it != ids.end()) {
    o["v"] = it->second;
    return o;
  }
  o["unk"] = "value";
  return o;
}

static void flattenInit(const Constant *C, Type *T, int64_t base, js::Array &out) {
  if (auto *S = dyn_cast<StructType>(T)) {
    auto *L = DL->getStructLayout(S);
    for (unsigned i = 0; i < S->getNumElements(); ++i)
      flattenInit(C->getAggregateElement(i), S->getElementType(i), base + L->getElementOffset(i), out);
    return;
  }
  if (auto *A = dyn_cast<ArrayType>(T)) {
    int64_t es = DL->getTypeAllocSize(A->getElementType());
    uint64_t n = std::min<uint64_t>(A->getNumElements(), 4096);
    for (uint64_t i = 0; i < n; ++i)
      flattenInit(C->getAggregateElement(i), A->getElementType(), base + i * es, out);
    return;
  }
  if (!C) return;
  js::Object o;
  o["off"] = base;
  o["t"] = typeJson(T);
  o["c"] = constJson(C);
  out.push_back(std::move(o));
}

// qualified function name without parameter types
static std::string functionName(const std::string &mangled) {
  ItaniumPartialDemangler D;
  if (D.partialDemangle(mangled.c_str())) return mangled;
  std::string out;
  if (char *c = D.getFunctionDeclContextName(nullptr, nullptr)) {
    out = c;
    free(c);
  }
  if (char *b = D.getFunctionBaseName(nullptr, nullptr)) {
    if (!out.empty()) out += "::";
    out += b;
    free(b);
  }
  return out.empty() ? demangle(mangled) : out;
}

static js::Value locJson(const Instruction &I) {
  // chain of (file, line, function), innermost first, of the frames that belong
  // to the analysed library or to the client
  js::Array a;
  const DILocation *L = I.getDebugLoc().get();
  int n = 0;
  for (; L && n < 12; L = L->getInlinedAt()) {
    auto *sp = L->getScope()->getSubprogram();
    StringRef fn = L->getFilename();
    if (fn.contains("/eigen3/") || fn.contains("/c++/") || L->getLine() == 0) continue;
    js::Array e;
    SmallString<128> p;
    StringRef d = L->getDirectory(), f = L->getFilename();
    if (!f.starts_with("/") && !d.empty()) {
      p += d;
      p += "/";
    }
    p += f;
    e.push_back(std::string(p));
    e.push_back((int64_t)L->getLine());
    e.push_back(sp ? sp->getName().str() : "");
    a.push_back(std::move(e));
    ++n;
  }
  return a;
}

static js::Value instJson(const Instruction &I, std::map<const BasicBlock *, int> &bb) {
  js::Object o;
  o["op"] = std::string(I.getOpcodeName());
  auto it = ids.find(&I);
  if (it != ids.end()) o["id"] = it->second;
  o["t"] = typeJson(I.getType());
  if (I.getDebugLoc()) o["loc"] = locJson(I);
  js::Array ops;
  if (auto *P = dyn_cast<PHINode>(&I)) {
    js::Array in;
    for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) {
      js::Array e;
      e.push_back(bb[P->getIncomingBlock(i)]);
      e.push_back(valJson(P->getIncomingValue(i)));
      in.push_back(std::move(e));
    }
    o["in"] = std::move(in);
    return o;
  }
  if (auto *B = dyn_cast<BranchInst>(&I)) {
    js::Array s;
    for (unsigned i = 0; i < B->getNumSuccessors(); ++i) s.push_back(bb[B->getSuccessor(i)]);
    o["succ"] = std::move(s);
    if (B->isConditional()) o["cond"] = valJson(B->getCondition());
    return o;
  }
  if (auto *S = dyn_cast<SwitchInst>(&I)) {
    o["cond"] = valJson(S->getCondition());
    o["def"] = bb[S->getDefaultDest()];
    js::Array cs;
    for (auto &c : S->cases()) {
      js::Array e;
      e.push_back(constJson(c.getCaseValue()));
      e.push_back(bb[c.getCaseSuccessor()]);
      cs.push_back(std::move(e));
    }
    o["cases"] = std::move(cs);
    return o;
  }
  if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
    MapVector<Value *, APInt> var;
    APInt off(64, 0);
    if (G->collectOffset(*DL, 64, var, off)) {
      o["base"] = valJson(G->getPointerOperand());
      o["off"] = off.getSExtValue();
      js::Array vs;
      for (auto &p : var) {
        js::Array e;
        e.push_back(valJson(p.first));
        e.push_back(p.second.getSExtValue());
        vs.push_back(std::move(e));
      }
      o["var"] = std::move(vs);
    }
    return o;
  }
  if (auto *A = dyn_cast<AllocaInst>(&I)) {
    o["at"] = typeJson(A->getAllocatedType());
    return o;
  }
  if (auto *CB = dyn_cast<CallBase>(&I)) {
    for (auto &a : CB->args()) {
      if (isa<MetadataAsValue>(a)) {
        js::Object m;
        m["md"] = true;
        ops.push_back(std::move(m));
      } else
        ops.push_back(valJson(a));
    }
    o["args"] = std::move(ops);
    js::Array byval;
    for (unsigned i = 0; i < CB->arg_size(); ++i)
      if (CB->paramHasAttr(i, Attribute::StructRet)) o["sret"] = (int64_t)i;
    if (auto *F = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) {
      o["callee"] = F->getName().str();
      if (F->doesNotAccessMemory()) o["const"] = true;
      if (F->doesNotReturn() || CB->doesNotReturn()) o["noreturn"] = true;
      if (F->onlyReadsMemory()) o["ro"] = true;
    } else if (isa<InlineAsm>(CB->getCalledOperand()))
      o["asm"] = true;
    else
      o["fptr"] = valJson(CB->getCalledOperand());
    if (CB->doesNotReturn()) o["noreturn"] = true;
    if (auto *Inv = dyn_cast<InvokeInst>(&I)) {
      js::Array s;
      s.push_back(bb[Inv->getNormalDest()]);
      s.push_back(bb[Inv->getUnwindDest()]);
      o["succ"] = std::move(s);
    }
    return o;
  }
  if (auto *L = dyn_cast<LandingPadInst>(&I)) {
    js::Array cl;
    for (unsigned i = 0; i < L->getNumClauses(); ++i) cl.push_back(constJson(L->getClause(i)));
    o["clauses"] = std::move(cl);
    o["cleanup"] = L->isCleanup();
    return o;
  }
  if (auto *C = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(C->getPredicate()).str();
  if (auto *E = dyn_cast<ExtractValueInst>(&I)) {
    js::Array ix;
    for (auto i : E->indices()) ix.push_back((int64_t)i);
    o["idx"] = std::move(ix);
  }
  if (auto *E = dyn_cast<InsertValueInst>(&I)) {
    js::Array ix;
    for (auto i : E->indices()) ix.push_back((int64_t)i);
    o["idx"] = std::move(ix);
  }
  if (auto *S = dyn_cast<ShuffleVectorInst>(&I)) {
    js::Array m;
    for (int i : S->getShuffleMask()) m.push_back((int64_t)i);
    o["mask"] = std::move(m);
  }
  for (auto &op : I.operands())
    if (!isa<BasicBlock>(op)) ops.push_back(valJson(op));
  o["ops"] = std::move(ops);
  if (auto *S = dyn_cast<StoreInst>(&I)) o["st"] = typeJson(S->getValueOperand()->getType());
  if (I.isCast()) o["ft"] = typeJson(I.getOperand(0)->getType());
  if (isa<CmpInst>(&I)) o["ct"] = typeJson(I.getOperand(0)->getType());
  return o;
}

int main(int argc, char **argv) {
  if (argc < 3) {
    errs() << "usage: irx in.bc out.json [--opaque RE]... [--keep-unwind]\n";
    return 2;
  }
  std::vector<std::regex> opaque;
  bool keepUnwind = false, noinline_ = false;
  std::string ll;
  int shard = 0, shards = 1, nroot = 0;
  for (int i = 3; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--opaque" && i + 1 < argc)
      opaque.emplace_back(argv[++i], std::regex::ECMAScript | std::regex::optimize);
    else if (a == "--keep-unwind")
      keepUnwind = true;
    else if (a == "--no-inline")
      noinline_ = true;
    else if (a == "--shard" && i + 2 < argc) {
      shard = atoi(argv[++i]);
      shards = atoi(argv[++i]);
    } else if (a == "--ll" && i + 1 < argc)
      ll = argv[++i];
  }
  const char *clargs[] = {"irx", "-unroll-threshold=20000", "-unroll-max-iteration-count-to-analyze=64"};
  cl::ParseCommandLineOptions(3, clargs);
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) {
    err.print("irx", errs());
    return 2;
  }
  DL = &M->getDataLayout();
  js::Array opaqued;
  std::set<std::string> opq;
  for (auto &F : *M) {
    std::string n = F.getName().str(), d = functionName(n);
    if (F.isDeclaration()) continue;
    bool root = n.rfind("vp_", 0) == 0;
    F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::NoInline);
    if (root && nroot++ % shards != shard) {
      F.deleteBody();
      F.setComdat(nullptr);
      F.setLinkage(GlobalValue::ExternalLinkage);
      continue;
    }
    if (root) {
      F.setLinkage(GlobalValue::ExternalLinkage);
      continue;
    }
    bool op = false;
    for (auto &r : opaque)
      if (std::regex_search(d, r)) op = true;
    if (op) {
      F.deleteBody();
      F.setComdat(nullptr);
      F.setLinkage(GlobalValue::ExternalLinkage);
      opq.insert(n);
      continue;
    }
    if (!noinline_) {
      F.addFnAttr(Attribute::AlwaysInline);
      F.setComdat(nullptr);
      F.setLinkage(GlobalValue::InternalLinkage);
    }
  }
  for (auto &s : opq) opaqued.push_back(s);
  for (auto &G : M->globals())
    if (!G.isDeclaration() && (G.hasLinkOnceLinkage() || G.hasWeakLinkage())) {
      G.setComdat(nullptr);
      G.setLinkage(GlobalValue::InternalLinkage);
    }

  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PipelineTuningOptions PTO;
  PTO.LoopVectorization = false;
  PTO.SLPVectorization = false;
  PTO.LoopUnrolling = false;
  PassBuilder PB(nullptr, PTO);
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  std::string pipe;
  if (shards > 1) pipe += "globaldce,";
  if (!keepUnwind) pipe += "function(lowerinvoke,simplifycfg),";
  pipe += "always-inline,globaldce,default<O1>";
  pipe += ",function(loop-simplify,lcssa)";
  if (auto e = PB.parsePassPipeline(MPM, pipe)) {
    errs() << "irx: pipeline: " << toString(std::move(e)) << "\n";
    return 2;
  }
  MPM.run(*M, MAM);
  if (!ll.empty()) {
    std::error_code ec;
    raw_fd_ostream os(ll, ec);
    M->print(os, nullptr);
  }

  js::Object top;
  js::Array fns;
  std::set<std::string> called;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    ids.clear();
    std::map<const BasicBlock *, int> bb;
    int n = 0, b = 0;
    js::Object fo;
    js::Array args, blocks;
    for (auto &A : F.args()) {
      ids[&A] = n++;
      js::Object a;
      a["t"] = typeJson(A.getType());
      a["n"] = A.getName().str();
      args.push_back(std::move(a));
    }
    for (auto &B : F) bb[&B] = b++;
    for (auto &I : instructions(F))
      if (!I.getType()->isVoidTy()) ids[&I] = n++;
    for (auto &B : F) {
      js::Array is;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        is.push_back(instJson(I, bb));
      }
      blocks.push_back(std::move(is));
    }
    fo["name"] = F.getName().str();
    fo["dem"] = functionName(F.getName().str());
    fo["root"] = F.getName().starts_with("vp_");
    fo["args"] = std::move(args);
    fo["ret"] = typeJson(F.getReturnType());
    fo["blocks"] = std::move(blocks);
    fns.push_back(std::move(fo));
  }
  top["functions"] = std::move(fns);
  js::Object gl;
  std::set<const GlobalVariable *> done;
  while (true) {
    auto todo = usedGlobals;
    bool any = false;
    for (auto *G : todo) {
      if (!done.insert(G).second) continue;
      any = true;
      js::Object g;
      g["const"] = G->isConstant();
      js::Array cells;
      if (G->hasInitializer() && G->isConstant())
        flattenInit(G->getInitializer(), G->getValueType(), 0, cells);
      g["cells"] = std::move(cells);
      g["dem"] = demangle(G->getName().str());
      gl[G->getName().str()] = std::move(g);
    }
    if (!any) break;
  }
  top["globals"] = std::move(gl);
  js::Object dm;
  for (auto &F : *M) dm[F.getName().str()] = functionName(F.getName().str());
  top["dem"] = std::move(dm);
  js::Object fm;
  for (auto &F : *M)
    if (F.isDeclaration()) fm[F.getName().str()] = demangle(F.getName().str());
  top["full"] = std::move(fm);
  top["opaqued"] = std::move(opaqued);
  std::error_code ec;
  raw_fd_ostream os(argv[2], ec);
  if (ec) return 2;
  os << js::Value(std::move(top)) << "\n";
  return 0;
}
