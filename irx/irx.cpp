// irx: normalises a bitcode module (inlining of repository-local functions, SSA
// construction, jump threading) and exports the resolved program as JSON.
#include "llvm/ADT/StringExtras.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <regex>
#include <set>
using namespace llvm;
namespace {
std::vector<std::string> ReposPrefixes;
std::map<std::string, std::string> DemCache;
std::string dem(StringRef n) {
  auto it = DemCache.find(n.str());
  if (it != DemCache.end()) return it->second;
  return DemCache[n.str()] = demangle(n.str());
}
std::string filePath(const DIFile *F) {
  if (!F) return "";
  std::string f = F->getFilename().str(), d = F->getDirectory().str();
  std::string p = (!f.empty() && f[0] == '/') ? f : d + "/" + f;
  // normalise a/../b
  std::vector<std::string> parts; std::string cur;
  for (size_t i = 0; i <= p.size(); i++) {
    if (i == p.size() || p[i] == '/') {
      if (cur == "..") { if (!parts.empty()) parts.pop_back(); }
      else if (!cur.empty() && cur != ".") parts.push_back(cur);
      cur.clear();
    } else cur += p[i];
  }
  std::string r; for (auto &s : parts) r += "/" + s;
  return r;
}
bool inRepo(const Function &F) {
  if (auto *SP = F.getSubprogram()) {
    std::string p = filePath(SP->getFile());
    for (auto &pre : ReposPrefixes) if (p.rfind(pre, 0) == 0) return true;
  }
  return false;
}
std::string diTypeName(const DIType *T, int depth = 0) {
  if (!T) return "void";
  if (depth > 12) return "...";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    std::string b = diTypeName(D->getBaseType(), depth + 1);
    switch (D->getTag()) {
    case dwarf::DW_TAG_pointer_type: return b + "*";
    case dwarf::DW_TAG_reference_type: return b + "&";
    case dwarf::DW_TAG_rvalue_reference_type: return b + "&&";
    case dwarf::DW_TAG_const_type: return "const " + b;
    case dwarf::DW_TAG_volatile_type: return "volatile " + b;
    case dwarf::DW_TAG_typedef: return D->getName().str();
    default: return b;
    }
  }
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    if (C->getTag() == dwarf::DW_TAG_array_type) {
      std::string n = diTypeName(C->getBaseType(), depth + 1) + "[";
      for (auto *E : C->getElements())
        if (auto *SR = dyn_cast<DISubrange>(E))
          if (auto *CI = dyn_cast_if_present<ConstantInt *>(SR->getCount())) n += itostr(CI->getSExtValue());
      return n + "]";
    }
    std::string id = C->getIdentifier().str();
    if (!id.empty() && id.rfind("_ZTS", 0) == 0) {
      std::string d = dem(id);
      const std::string p = "typeinfo name for ";
      if (d.rfind(p, 0) == 0) return d.substr(p.size());
      return d;
    }
    std::string s;
    for (auto *Sc = C->getScope(); Sc; Sc = Sc->getScope()) {
      if (auto *N = dyn_cast<DINamespace>(Sc)) s = N->getName().str() + "::" + s;
      else if (auto *CT = dyn_cast<DICompositeType>(Sc)) s = CT->getName().str() + "::" + s;
    }
    return s + C->getName().str();
  }
  return T->getName().str();
}
const DIType *strip(const DIType *T) {
  while (auto *D = dyn_cast_or_null<DIDerivedType>(T)) {
    switch (D->getTag()) {
    case dwarf::DW_TAG_const_type: case dwarf::DW_TAG_volatile_type: case dwarf::DW_TAG_typedef: T = D->getBaseType(); continue;
    default: return T;
    }
  }
  return T;
}
std::string pointee(const DIType *T) {
  T = strip(T);
  if (auto *D = dyn_cast_or_null<DIDerivedType>(T))
    if (D->getTag() == dwarf::DW_TAG_pointer_type || D->getTag() == dwarf::DW_TAG_reference_type || D->getTag() == dwarf::DW_TAG_rvalue_reference_type)
      return diTypeName(strip(D->getBaseType()));
  return "";
}
std::string tyStr(Type *T) { std::string s; raw_string_ostream o(s); T->print(o, false, true); return o.str(); }

struct Exporter {
  Module &M; const DataLayout &DL;
  std::set<const DICompositeType *> Comps;
  Exporter(Module &M) : M(M), DL(M.getDataLayout()) {}
  DenseMap<const Value *, int> Id;

  json::Value val(const Value *V) {
    if (auto it = Id.find(V); it != Id.end())
      return json::Array{isa<Argument>(V) ? "a" : "v", it->second};
    if (auto *C = dyn_cast<ConstantInt>(V)) {
      SmallString<40> s; C->getValue().toStringSigned(s);
      return json::Array{"c", s.str().str(), (int64_t)C->getBitWidth()};
    }
    if (auto *F = dyn_cast<Function>(V)) return json::Array{"F", F->getName().str()};
    if (auto *A = dyn_cast<GlobalAlias>(V)) return val(A->getAliasee());
    if (auto *G = dyn_cast<GlobalVariable>(V)) return json::Array{"g", G->getName().str(), 0};
    if (isa<ConstantPointerNull>(V)) return json::Array{"n"};
    if (isa<UndefValue>(V)) return json::Array{"u"};
    if (auto *C = dyn_cast<ConstantFP>(V)) {
      SmallString<40> s; C->getValueAPF().toString(s); return json::Array{"f", s.str().str()};
    }
    if (auto *CE = dyn_cast<ConstantExpr>(V)) {
      APInt Off(64, 0);
      const Value *B = CE->stripAndAccumulateConstantOffsets(DL, Off, true);
      if (B != CE) {
        if (auto *G = dyn_cast<GlobalVariable>(B)) return json::Array{"g", G->getName().str(), Off.getSExtValue()};
        if (auto *F = dyn_cast<Function>(B)) return json::Array{"F", F->getName().str()};
      }
      json::Array a{"e", CE->getOpcodeName()};
      for (auto &O : CE->operands()) a.push_back(val(O.get()));
      return a;
    }
    if (isa<ConstantAggregateZero>(V)) return json::Array{"z"};
    if (auto *CD = dyn_cast<ConstantAggregate>(V)) {
      json::Array a{"A"};
      for (auto &O : CD->operands()) a.push_back(val(O.get()));
      return a;
    }
    if (auto *CD = dyn_cast<ConstantDataSequential>(V)) {
      if (CD->isString(8)) {
        StringRef s = CD->getAsString(); bool ok = true;
        for (unsigned char c : s) if (c >= 127 || (c < 32 && c != 0 && c != '\n' && c != '\t')) ok = false;
        if (ok) return json::Array{"s", s.str()};
      }
      json::Array a{"A"};
      if (CD->getNumElements() <= 70000)
        for (unsigned i = 0; i < CD->getNumElements(); i++) a.push_back(val(CD->getElementAsConstant(i)));
      return a;
    }
    if (auto *IA = dyn_cast<InlineAsm>(V)) return json::Array{"asm", IA->getAsmString()};
    if (auto *MV = dyn_cast<MetadataAsValue>(V)) { (void)MV; return json::Array{"m"}; }
    return json::Array{"?", tyStr(V->getType())};
  }
  json::Value loc(const DebugLoc &L) {
    if (!L) return nullptr;
    json::Array a;
    const DILocation *D = L.get();
    a.push_back(filePath(D->getFile())); a.push_back((int64_t)D->getLine());
    json::Array chain;
    while (D) {
      auto *SP = D->getScope()->getSubprogram();
      chain.push_back(SP ? (SP->getLinkageName().empty() ? SP->getName().str() : SP->getLinkageName().str()) : "");
      D = D->getInlinedAt();
      if (D) { chain.push_back(filePath(D->getFile()) + ":" + itostr(D->getLine())); }
    }
    a.push_back(std::move(chain));
    return a;
  }
  void noteType(const DIType *T, int depth = 0) {
    if (!T || depth > 8) return;
    if (auto *D = dyn_cast<DIDerivedType>(T)) return noteType(D->getBaseType(), depth + 1);
    if (auto *C = dyn_cast<DICompositeType>(T)) Comps.insert(C);
  }
  json::Value func(Function &F) {
    Id.clear();
    int n = 0;
    for (auto &A : F.args()) Id[&A] = n++;
    DenseMap<const BasicBlock *, int> BId; int bn = 0;
    for (auto &B : F) { BId[&B] = bn++; for (auto &I : B) Id[&I] = n++; }
    json::Object o;
    o["name"] = F.getName().str(); o["dem"] = dem(F.getName());
    o["nounwind"] = F.doesNotThrow(); o["linkage"] = (int64_t)F.getLinkage();
    o["ret"] = tyStr(F.getReturnType());
    if (auto *SP = F.getSubprogram()) { o["file"] = filePath(SP->getFile()); o["line"] = (int64_t)SP->getLine(); o["artificial"] = SP->isArtificial(); o["spname"] = SP->getName().str(); 
      if (auto *ST = SP->getType()) { json::Array ta; for (auto *t : ST->getTypeArray()) { ta.push_back(diTypeName(t)); } o["ditypes"] = std::move(ta); } }
    json::Array params;
    for (auto &A : F.args()) {
      json::Object p; p["ty"] = tyStr(A.getType()); p["name"] = A.getName().str();
      if (A.hasByValAttr()) p["byval"] = tyStr(A.getParamByValType());
      if (A.hasStructRetAttr()) p["sret"] = tyStr(A.getParamStructRetType());
      params.push_back(std::move(p));
    }
    o["params"] = std::move(params);
    json::Array facts; // typed pointer facts
    json::Array blocks;
    for (auto &B : F) {
      json::Array insts;
      for (auto &I : B) {
        if (auto *DVI = dyn_cast<DbgVariableIntrinsic>(&I)) {
          auto *Var = DVI->getVariable();
          if (!Var || DVI->getNumVariableLocationOps() != 1) continue;
          Value *V = DVI->getVariableLocationOp(0);
          if (!V || !Id.count(V)) continue;
          bool isDecl = isa<DbgDeclareInst>(DVI);
          std::string t = diTypeName(strip(Var->getType()));
          noteType(Var->getType());
          facts.push_back(json::Array{val(V), isDecl ? "d" : "v", Var->getName().str(), t, pointee(Var->getType()), (int64_t)Var->getArg(),
              Var->getScope()->getSubprogram() ? Var->getScope()->getSubprogram()->getName().str() : "", (int64_t)DVI->getExpression()->getNumElements()});
          continue;
        }
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        json::Object x;
        x["i"] = Id[&I]; x["op"] = I.getOpcodeName(); x["ty"] = tyStr(I.getType());
        if (I.getDebugLoc()) x["loc"] = loc(I.getDebugLoc());
        if (auto *P = dyn_cast<PHINode>(&I)) {
          json::Array inc;
          for (unsigned k = 0; k < P->getNumIncomingValues(); k++)
            inc.push_back(json::Array{val(P->getIncomingValue(k)), BId[P->getIncomingBlock(k)]});
          x["inc"] = std::move(inc);
        } else if (auto *CB = dyn_cast<CallBase>(&I)) {
          json::Array args; for (auto &A : CB->args()) args.push_back(val(A.get()));
          x["args"] = std::move(args);
          const Value *cv = CB->getCalledOperand()->stripPointerCasts();
          if (auto *GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliasee()->stripPointerCasts();
          if (auto *CF = dyn_cast<Function>(cv)) { x["callee"] = CF->getName().str(); x["dem"] = dem(CF->getName()); }
          else x["cv"] = val(cv);
          if (CB->doesNotThrow()) x["nounwind"] = true;
          if (auto *II = dyn_cast<InvokeInst>(CB)) { x["norm"] = BId[II->getNormalDest()]; x["unw"] = BId[II->getUnwindDest()]; }
          json::Array at;
          for (unsigned k = 0; k < CB->arg_size(); k++) {
            if (CB->paramHasAttr(k, Attribute::StructRet)) at.push_back(json::Array{(int64_t)k, "sret"});
            if (CB->paramHasAttr(k, Attribute::ByVal)) at.push_back(json::Array{(int64_t)k, "byval"});
          }
          if (!at.empty()) x["pattr"] = std::move(at);
        } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          json::Array ops; for (auto &O : G->operands()) ops.push_back(val(O.get()));
          x["ops"] = std::move(ops); x["src"] = tyStr(G->getSourceElementType());
          APInt Off(64, 0);
          if (G->accumulateConstantOffset(DL, Off)) x["off"] = Off.getSExtValue();
          else {
            MapVector<Value *, APInt> VO; APInt C(64, 0);
            if (G->collectOffset(DL, 64, VO, C)) {
              x["coff"] = C.getSExtValue(); json::Array vo;
              for (auto &kv : VO) vo.push_back(json::Array{val(kv.first), kv.second.getSExtValue()});
              x["voff"] = std::move(vo);
            }
          }
        } else {
          json::Array ops; for (auto &O : I.operands()) if (!isa<BasicBlock>(O.get())) ops.push_back(val(O.get()));
          x["ops"] = std::move(ops);
          if (auto *OB = dyn_cast<OverflowingBinaryOperator>(&I)) { if (OB->hasNoSignedWrap()) x["nsw"] = true; if (OB->hasNoUnsignedWrap()) x["nuw"] = true; }
          if (auto *C = dyn_cast<CmpInst>(&I)) x["pred"] = CmpInst::getPredicateName(C->getPredicate()).str();
          if (auto *A = dyn_cast<AllocaInst>(&I)) {
            x["aty"] = tyStr(A->getAllocatedType());
            if (auto sz = A->getAllocationSize(DL)) x["size"] = (int64_t)sz->getFixedValue();
            x["nm"] = A->getName().str();
          }
          if (auto *L = dyn_cast<LoadInst>(&I)) { if (L->isAtomic()) x["atomic"] = toIRString(L->getOrdering()); if (L->isVolatile()) x["volatile"] = true; x["size"] = (int64_t)DL.getTypeStoreSize(L->getType()).getFixedValue(); }
          if (auto *L = dyn_cast<StoreInst>(&I)) { if (L->isAtomic()) x["atomic"] = toIRString(L->getOrdering()); if (L->isVolatile()) x["volatile"] = true; x["size"] = (int64_t)DL.getTypeStoreSize(L->getValueOperand()->getType()).getFixedValue(); }
          if (auto *R = dyn_cast<AtomicRMWInst>(&I)) { x["rmw"] = AtomicRMWInst::getOperationName(R->getOperation()).str(); x["atomic"] = toIRString(R->getOrdering()); }
          if (isa<AtomicCmpXchgInst>(&I)) x["atomic"] = "cmpxchg";
          if (auto *E = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (auto k : E->indices()) ix.push_back((int64_t)k); x["idx"] = std::move(ix); }
          if (auto *E = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (auto k : E->indices()) ix.push_back((int64_t)k); x["idx"] = std::move(ix); }
          if (auto *LP = dyn_cast<LandingPadInst>(&I)) {
            x["cleanup"] = LP->isCleanup(); json::Array cl;
            for (unsigned k = 0; k < LP->getNumClauses(); k++)
              cl.push_back(json::Array{LP->isCatch(k) ? "catch" : "filter", val(LP->getClause(k))});
            x["clauses"] = std::move(cl);
          }
          if (auto *S = dyn_cast<SwitchInst>(&I)) {
            json::Array cs; for (auto &c : S->cases()) cs.push_back(json::Array{val(c.getCaseValue()), BId[c.getCaseSuccessor()]});
            x["cases"] = std::move(cs); x["def"] = BId[S->getDefaultDest()];
          }
          if (auto *Br = dyn_cast<BranchInst>(&I)) {
            json::Array s; for (unsigned q = 0; q < Br->getNumSuccessors(); q++) s.push_back(BId[Br->getSuccessor(q)]); x["succ"] = std::move(s);
          }
        }
        insts.push_back(std::move(x));
      }
      blocks.push_back(json::Object{{"b", BId[&B]}, {"insts", std::move(insts)}});
    }
    o["blocks"] = std::move(blocks); o["facts"] = std::move(facts);
    return o;
  }
  json::Value globals() {
    json::Object r;
    for (auto &G : M.globals()) {
      json::Object o;
      o["dem"] = dem(G.getName()); o["const"] = G.isConstant(); o["tls"] = G.isThreadLocal(); o["ty"] = tyStr(G.getValueType());
      o["decl"] = G.isDeclaration(); o["size"] = G.getValueType()->isSized() ? (int64_t)DL.getTypeAllocSize(G.getValueType()).getFixedValue() : -1;
      SmallVector<DIGlobalVariableExpression *, 1> gv; G.getDebugInfo(gv);
      for (auto *e : gv) { o["file"] = filePath(e->getVariable()->getFile()); o["line"] = (int64_t)e->getVariable()->getLine();
        o["dity"] = diTypeName(e->getVariable()->getType()); o["diname"] = e->getVariable()->getName().str();
        noteType(e->getVariable()->getType());
        o["local"] = isa<DISubprogram>(e->getVariable()->getScope() ? e->getVariable()->getScope() : e->getVariable()->getFile()) || (e->getVariable()->getScope() && isa<DILocalScope>(e->getVariable()->getScope())); }
      if (G.hasInitializer() && DL.getTypeAllocSize(G.getValueType()).getFixedValue() <= 600000) o["init"] = val(G.getInitializer());
      r[G.getName().str()] = std::move(o);
    }
    return r;
  }
  json::Value structs() {
    DebugInfoFinder DF; DF.processModule(M);
    for (auto *T : DF.types()) if (auto *C = dyn_cast<DICompositeType>(T)) Comps.insert(C);
    json::Object r;
    for (auto *C : Comps) {
      if (C->isForwardDecl() || C->getTag() == dwarf::DW_TAG_array_type || C->getTag() == dwarf::DW_TAG_enumeration_type) continue;
      std::string nm = diTypeName(C);
      bool rep = false; std::string fp = filePath(C->getFile());
      for (auto &pre : ReposPrefixes) if (fp.rfind(pre, 0) == 0) rep = true;
      if (fp.find("gmp") != std::string::npos) rep = true;
      if (!rep) continue;
      json::Array mem;
      for (auto *E : C->getElements())
        if (auto *D = dyn_cast<DIDerivedType>(E)) {
          if (D->getTag() != dwarf::DW_TAG_member && D->getTag() != dwarf::DW_TAG_inheritance) continue;
          if (D->isStaticMember()) continue;
          mem.push_back(json::Object{{"name", D->getTag() == dwarf::DW_TAG_inheritance ? "<base>" : D->getName().str()},
            {"off", (int64_t)D->getOffsetInBits() / 8}, {"size", (int64_t)D->getSizeInBits() / 8}, {"type", diTypeName(D->getBaseType())}, {"line", (int64_t)D->getLine()}});
        }
      r[nm] = json::Object{{"file", fp}, {"line", (int64_t)C->getLine()}, {"size", (int64_t)C->getSizeInBits() / 8}, {"members", std::move(mem)}};
    }
    return r;
  }
};
bool anyMatch(const std::vector<std::regex> &rs, const std::string &s) {
  for (auto &r : rs) if (std::regex_search(s, r)) return true;
  return false;
}
} // namespace
int main(int argc, char **argv) {
  { const char *av[] = {"irx", "-jump-threading-threshold=60", "-jump-threading-implication-search-threshold=8"}; cl::ParseCommandLineOptions(3, av); }
  std::string in, passes = "always-inline,function(sroa<modify-cfg>,jump-threading,sroa<modify-cfg>,simplifycfg<no-hoist-common-insts;no-sink-common-insts;no-switch-range-to-icmp;no-switch-to-lookup>)";
  std::vector<std::regex> roots, keep, extra, only;
  std::set<std::string> keepNames, rootNames;
  bool allfuncs = false, cg = false, noinline_ = false, listOnly = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--root") roots.emplace_back(nx(), std::regex::optimize);
    else if (a == "--keep") keep.emplace_back(nx(), std::regex::optimize);
    else if (a == "--also") extra.emplace_back(nx(), std::regex::optimize);
    else if (a == "--repo") ReposPrefixes.push_back(nx());
    else if (a == "--passes") passes = nx();
    else if (a == "--all") allfuncs = true;
    else if (a == "--no-inline") noinline_ = true;
    else if (a == "--keep-names") { auto b = MemoryBuffer::getFile(nx()); SmallVector<StringRef, 0> l; (*b)->getBuffer().split(l, '\n'); for (auto x : l) keepNames.insert(x.str()); }
    else if (a == "--root-names") { auto b = MemoryBuffer::getFile(nx()); SmallVector<StringRef, 0> l; (*b)->getBuffer().split(l, '\n'); for (auto x : l) if (!x.empty()) rootNames.insert(x.str()); }
    else if (a == "--cg") cg = true;
    else if (a == "--list") listOnly = true;
    else in = a;
  }
  if (ReposPrefixes.empty()) ReposPrefixes.push_back("/repo/");
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(in, Err, Ctx);
  if (!M) { Err.print("irx", errs()); return 2; }
  std::set<Function *> rootF;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline);
    std::string d = dem(F.getName());
    bool rep = inRepo(F);
    if (rootNames.count(F.getName().str()) || anyMatch(roots, d)) { rootF.insert(&F); continue; }
    if (allfuncs && rep) rootF.insert(&F);
    if (noinline_) continue;
    bool ex = anyMatch(extra, d);
    if ((rep || ex) && !keepNames.count(F.getName().str()) && !anyMatch(keep, d)) {
      F.removeFnAttr(Attribute::NoInline);
      F.addFnAttr(Attribute::AlwaysInline);
    } else { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
  }
  if (listOnly) {
    for (auto &F : *M) if (!F.isDeclaration() && inRepo(F)) outs() << filePath(F.getSubprogram()->getFile()) << "\t" << F.getName() << "\t" << dem(F.getName()) << "\n";
    return 0;
  }
  // drop non-root repo functions' linkage so that nothing forces work on them
  if (!passes.empty()) {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    ModulePassManager MPM;
    // drop bodies of functions unreachable from the roots first (speed)
    std::set<Function *> reach(rootF.begin(), rootF.end());
    std::vector<Function *> wl(rootF.begin(), rootF.end());
    while (!wl.empty()) {
      Function *F = wl.back(); wl.pop_back();
      for (auto &I : instructions(*F)) {
        std::vector<const Value *> vs; for (auto &O : I.operands()) vs.push_back(O.get());
        while (!vs.empty()) {
          const Value *v = vs.back(); vs.pop_back();
          if (auto *A = dyn_cast<GlobalAlias>(v)) v = A->getAliasee();
          if (auto *FF = dyn_cast<Function>(v)) { auto *nf = const_cast<Function *>(FF); if (!nf->isDeclaration() && reach.insert(nf).second) wl.push_back(nf); }
          else if (auto *CE = dyn_cast<ConstantExpr>(v)) for (auto &O : CE->operands()) vs.push_back(O.get());
        }
      }
    }
    if (!allfuncs)
      for (auto &F : *M) if (!F.isDeclaration() && !reach.count(&F) && !F.hasLocalLinkage()) { F.deleteBody(); F.setComdat(nullptr); }
    if (auto E = PB.parsePassPipeline(MPM, passes)) { errs() << toString(std::move(E)) << "\n"; return 2; }
    MPM.run(*M, MAM);
  }
  Exporter X(*M);
  json::Object out;
  if (cg) {
    json::Object edges;
    auto refs = [&](const Value *root, std::set<std::string> &o) {
      std::vector<const Value *> vs{root}; std::set<const Value *> seen;
      while (!vs.empty()) {
        const Value *v = vs.back(); vs.pop_back();
        if (!seen.insert(v).second) continue;
        if (auto *A = dyn_cast<GlobalAlias>(v)) { vs.push_back(A->getAliasee()); continue; }
        if (isa<Function>(v)) { o.insert(v->getName().str()); continue; }
        if (isa<GlobalVariable>(v)) { o.insert(v->getName().str()); continue; }
        if (auto *C = dyn_cast<Constant>(v)) for (auto &op : C->operands()) vs.push_back(op.get());
      }
    };
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      std::set<std::string> o;
      for (auto &I : instructions(F)) for (auto &op : I.operands()) if (isa<Constant>(op.get())) refs(op.get(), o);
      json::Array a; for (auto &x : o) a.push_back(x);
      edges[F.getName().str()] = std::move(a);
    }
    for (auto &G : M->globals()) if (G.hasInitializer()) {
      std::set<std::string> o; refs(G.getInitializer(), o); o.erase(G.getName().str());
      if (!o.empty()) { json::Array a; for (auto &x : o) a.push_back(x); edges[G.getName().str()] = std::move(a); }
    }
    out["edges"] = std::move(edges);
  }
   json::Array fs; json::Array decls;
  for (auto &F : *M) {
    if (F.isIntrinsic() && F.isDeclaration()) continue;
    if (rootF.count(&F) && !F.isDeclaration()) fs.push_back(X.func(F));
    else decls.push_back(json::Object{{"name", F.getName().str()}, {"dem", dem(F.getName())}, {"nounwind", F.doesNotThrow()}, {"def", !F.isDeclaration()}});
  }
  out["funcs"] = std::move(fs); out["decls"] = std::move(decls);
  out["globals"] = X.globals(); out["structs"] = X.structs();
  outs() << json::Value(std::move(out));
  outs().flush();
  return 0;
}
