// irx: LLVM IR exporter / transformer used by the static checks in /verif.
//   irx dump IN.bc OUT.json           resolved program as JSON (functions, CFG, instrs, debug types, globals)
//   irx xform IN.bc OUT.bc [ops...]   partial-evaluation edits:
//        --const-global NAME=INT      every load of @NAME yields INT
//        --const-ret SUBSTR=INT       calls to functions whose demangled name contains SUBSTR yield INT
//        --arg FN:IDX=INT             argument IDX of function FN is replaced with INT
//        --nounwind REGEX             declarations matching REGEX (mangled) get nounwind
//        --keep-roots A,B             internalize everything else
#include "llvm/ADT/StringExtras.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <functional>
#include <map>
#include <set>
using namespace llvm;

static std::string tyname(Type *T) { std::string s; raw_string_ostream o(s); T->print(o, false, true); return o.str(); }

struct Dumper {
  Module &M; const DataLayout &DL; json::OStream J;
  DenseMap<const Value *, unsigned> id; DenseMap<const BasicBlock *, unsigned> bid; DenseMap<const Value *, unsigned> aid;
  Dumper(Module &M, raw_ostream &os) : M(M), DL(M.getDataLayout()), J(os) {}

  std::string ref(const Value *V) {
    if (auto *A = dyn_cast<Argument>(V)) return "a" + utostr(A->getArgNo());
    if (auto *I = dyn_cast<Instruction>(V)) return "v" + utostr(id[I]);
    if (auto *B = dyn_cast<BasicBlock>(V)) return "b" + utostr(bid[B]);
    if (auto *C = dyn_cast<ConstantInt>(V)) { SmallString<40> s; C->getValue().toStringSigned(s); return ("c" + s).str(); }
    if (isa<ConstantPointerNull>(V)) return "n";
    if (isa<UndefValue>(V)) return "u";
    if (isa<ConstantFP>(V)) { std::string s; raw_string_ostream o(s); V->print(o); return "f" + o.str(); }
    if (isa<ConstantAggregateZero>(V)) return "z";
    if (isa<MetadataAsValue>(V)) return "m";
    if (isa<InlineAsm>(V)) return "asm";
    if (auto *C = dyn_cast<Constant>(V)) {
      if (C->getType()->isPointerTy()) {
        APInt off(DL.getIndexTypeSizeInBits(C->getType()), 0);
        const Value *B = C->stripAndAccumulateConstantOffsets(DL, off, true);
        if (auto *G = dyn_cast<GlobalValue>(B)) {
          if (auto *GA = dyn_cast<GlobalAlias>(G)) if (auto *AO = GA->getAliaseeObject()) G = AO;
          std::string s = "g" + G->getName().str();
          if (off.getSExtValue()) s += "@" + itostr(off.getSExtValue());
          return s;
        }
      }
      if (auto *CE = dyn_cast<ConstantExpr>(C)) {
        if (CE->getOpcode() == Instruction::PtrToInt) return "p(" + ref(CE->getOperand(0)) + ")";
        if (CE->getOpcode() == Instruction::IntToPtr) return "i(" + ref(CE->getOperand(0)) + ")";
      }
      std::string s; raw_string_ostream o(s); C->printAsOperand(o, false); return "x" + o.str();
    }
    return "?";
  }
  static std::string scopeName(const DIScope *S) {
    std::string s;
    while (S) {
      if (isa<DICompileUnit>(S) || isa<DIFile>(S)) break;
      StringRef n = S->getName();
      if (isa<DISubprogram>(S)) { s = n.str() + (s.empty() ? "" : "::" + s); S = cast<DISubprogram>(S)->getScope(); continue; }
      if (isa<DILexicalBlockBase>(S)) { S = cast<DILexicalBlockBase>(S)->getScope(); continue; }
      std::string part = n.empty() ? "(anonymous)" : n.str();
      if (auto *NS = dyn_cast<DINamespace>(S)) if (NS->getExportSymbols()) { S = S->getScope(); continue; }
      s = part + (s.empty() ? "" : "::" + s);
      S = S->getScope();
    }
    return s;
  }
  void loc(const DILocation *L) {
    if (!L) return;
    J.attributeArray("loc", [&] {
      for (; L; L = L->getInlinedAt()) {
        J.value(L->getLine());
        std::string f = L->getFilename().str(); 
        J.value(f);
        const DISubprogram *sp = L->getScope()->getSubprogram();
        J.value(sp ? (sp->getLinkageName().empty() ? sp->getName() : sp->getLinkageName()) : "");
      }
    });
  }
  void inst(const Instruction &I) {
    J.object([&] {
      J.attribute("i", id[&I]);
      J.attribute("op", I.getOpcodeName());
      J.attribute("ty", tyname(I.getType()));
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        J.attribute("callee", ref(CB->getCalledOperand()->stripPointerCasts()));
        if (!CB->getCalledFunction()) J.attribute("fty", tyname(CB->getFunctionType()));
        J.attributeArray("ops", [&] { for (auto &A : CB->args()) J.value(ref(A)); });
        if (CB->doesNotThrow()) J.attribute("nounwind", true);
        if (CB->doesNotReturn()) J.attribute("noreturn", true);
        if (CB->isTailCall()) J.attribute("tail", true);
        if (CB->arg_size() && CB->paramHasAttr(0, Attribute::StructRet)) J.attribute("sret", true);
        if (auto *II = dyn_cast<InvokeInst>(&I)) {
          J.attribute("normal", bid[II->getNormalDest()]); J.attribute("unwind", bid[II->getUnwindDest()]);
        }
      } else if (auto *P = dyn_cast<PHINode>(&I)) {
        J.attributeArray("phi", [&] { for (unsigned k = 0; k < P->getNumIncomingValues(); k++) J.array([&] {
          J.value(ref(P->getIncomingValue(k))); J.value(bid[P->getIncomingBlock(k)]); }); });
      } else {
        J.attributeArray("ops", [&] { for (auto &O : I.operands()) J.value(ref(O)); });
      }
      if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        J.attribute("sty", tyname(G->getSourceElementType()));
        APInt off(64, 0); MapVector<Value *, APInt> var;
        if (G->collectOffset(DL, 64, var, off)) {
          J.attribute("off", off.getSExtValue());
          if (!var.empty()) J.attributeArray("var", [&] { for (auto &kv : var) J.array([&] { J.value(ref(kv.first)); J.value(kv.second.getSExtValue()); }); });
        } else J.attribute("off", nullptr);
        if (G->isInBounds()) J.attribute("inb", true);
      }
      if (auto *C = dyn_cast<CmpInst>(&I)) J.attribute("pred", CmpInst::getPredicateName(C->getPredicate()));
      if (auto *S = dyn_cast<SwitchInst>(&I)) {
        J.attribute("default", bid[S->getDefaultDest()]);
        J.attributeArray("cases", [&] { for (auto &c : S->cases()) J.array([&] { J.value(c.getCaseValue()->getSExtValue()); J.value(bid[c.getCaseSuccessor()]); }); });
      }
      if (auto *A = dyn_cast<AllocaInst>(&I)) { J.attribute("aty", tyname(A->getAllocatedType()));
        if (auto s = A->getAllocationSize(DL)) J.attribute("size", (int64_t)s->getKnownMinValue()); J.attribute("name", A->getName()); }
      if (auto *L = dyn_cast<LoadInst>(&I)) { if (L->isAtomic()) J.attribute("atomic", true); if (L->isVolatile()) J.attribute("vol", true); }
      if (auto *L = dyn_cast<StoreInst>(&I)) { if (L->isAtomic()) J.attribute("atomic", true);
        J.attribute("sz", (int64_t)DL.getTypeStoreSize(L->getValueOperand()->getType()).getKnownMinValue());
        J.attribute("vty", tyname(L->getValueOperand()->getType())); }
      if (auto *L = dyn_cast<LandingPadInst>(&I)) {
        if (L->isCleanup()) J.attribute("cleanup", true);
        J.attributeArray("clauses", [&] { for (unsigned k = 0; k < L->getNumClauses(); k++) J.value((L->isCatch(k) ? "" : "filter:") + ref(L->getClause(k))); });
      }
      if (auto *E = dyn_cast<ExtractValueInst>(&I)) J.attributeArray("idx", [&] { for (unsigned k : E->indices()) J.value(k); });
      if (auto *E = dyn_cast<InsertValueInst>(&I)) J.attributeArray("idx", [&] { for (unsigned k : E->indices()) J.value(k); });
      if (auto *O = dyn_cast<PossiblyExactOperator>(&I)) { if (O->isExact()) J.attribute("exact", true); }
      if (auto *O = dyn_cast<OverflowingBinaryOperator>(&I)) { if (O->hasNoUnsignedWrap()) J.attribute("nuw", true); if (O->hasNoSignedWrap()) J.attribute("nsw", true); }
      if (I.isTerminator()) J.attributeArray("succ", [&] { for (unsigned k = 0; k < I.getNumSuccessors(); k++) J.value(bid[I.getSuccessor(k)]); });
      loc(I.getDebugLoc());
    });
  }
  void func(const Function &F) {
    id.clear(); bid.clear();
    unsigned n = 0, b = 0;
    for (auto &B : F) { bid[&B] = b++; for (auto &I : B) id[&I] = n++; }
    J.object([&] {
      J.attribute("name", F.getName());
      J.attribute("dem", demangle(F.getName()));
      if (F.isDeclaration()) J.attribute("decl", true);
      if (F.isIntrinsic()) J.attribute("intrinsic", true);
      J.attribute("ret", tyname(F.getReturnType()));
      J.attribute("fty", tyname(F.getFunctionType()));
      auto has = [&](Attribute::AttrKind k, const char *nm) { if (F.hasFnAttribute(k)) J.attribute(nm, true); };
      has(Attribute::NoInline, "noinline"); has(Attribute::NoReturn, "noreturn"); has(Attribute::NoUnwind, "nounwind"); has(Attribute::AlwaysInline, "alwaysinline"); has(Attribute::OptimizeNone, "optnone");
      has(Attribute::ReturnsTwice, "returns_twice");
      if (F.doesNotAccessMemory()) J.attribute("readnone", true);
      if (F.onlyReadsMemory()) J.attribute("readonly", true);
      if (F.hasLocalLinkage()) J.attribute("internal", true);
      if (F.isInterposable() == false && !F.isDeclaration()) J.attribute("exact", true);
      J.attribute("linkage", (int)F.getLinkage());
      if (F.isVarArg()) J.attribute("vararg", true);
      J.attributeArray("args", [&] { for (auto &A : F.args()) J.object([&] {
        J.attribute("ty", tyname(A.getType())); J.attribute("n", A.getName());
        if (A.hasStructRetAttr()) { J.attribute("sret", true); J.attribute("sretty", tyname(A.getParamStructRetType())); }
        if (A.hasByValAttr()) J.attribute("byval", true);
      }); });
      if (auto *SP = F.getSubprogram()) {
        J.attribute("file", SP->getFilename()); J.attribute("line", SP->getLine()); J.attribute("spname", SP->getName());
        J.attribute("scope", scopeName(SP->getScope()));
        if (SP->getFlags() & DINode::FlagPublic) J.attribute("public", true);
      }
      // local variable names for allocas / params
      if (!F.isDeclaration()) {
        J.attributeArray("vars", [&] { for (auto &B : F) for (auto &I : B) if (auto *D = dyn_cast<DbgDeclareInst>(&I)) {
          if (D->getAddress()) J.array([&] { J.value(ref(D->getAddress())); J.value(D->getVariable()->getName()); J.value(D->getVariable()->getArg());
             J.value(D->getVariable()->getType() ? scopeName(dyn_cast<DIScope>(D->getVariable()->getType())) : ""); }); } });
        J.attributeArray("blocks", [&] { for (auto &B : F) J.array([&] { for (auto &I : B) { if (isa<DbgInfoIntrinsic>(I)) continue; inst(I); } }); });
      }
    });
  }
  void constant(const Constant *C, unsigned depth) {
    if (auto *S = dyn_cast<ConstantDataSequential>(C)) { if (S->isString()) { J.object([&] { std::string s = S->getAsString().str(); J.attribute("str", json::fixUTF8(s)); }); return; } }
    if (isa<ConstantAggregate>(C) && depth < 4) { J.array([&] { for (auto &o : C->operands()) constant(cast<Constant>(o), depth + 1); }); return; }
    J.value(ref(C));
  }
  void run() {
    J.object([&] {
      J.attributeArray("globals", [&] { for (auto &G : M.globals()) J.object([&] {
        J.attribute("name", G.getName()); J.attribute("dem", demangle(G.getName()));
        J.attribute("ty", tyname(G.getValueType()));
        if (G.isConstant()) J.attribute("const", true);
        if (G.isThreadLocal()) J.attribute("tls", true);
        if (G.isDeclaration()) J.attribute("decl", true); else J.attribute("size", (int64_t)DL.getTypeAllocSize(G.getValueType()).getKnownMinValue());
        SmallVector<DIGlobalVariableExpression *, 1> gs; G.getDebugInfo(gs);
        if (!gs.empty()) { auto *v = gs[0]->getVariable(); J.attribute("file", v->getFilename()); J.attribute("line", v->getLine()); J.attribute("dname", v->getName()); J.attribute("dscope", scopeName(v->getScope()));
          if (v->getType()) { const DIType *t = v->getType(); std::string n; while (t) { n = scopeName(t); if (auto *d = dyn_cast<DIDerivedType>(t)) { if (!n.empty() && n != "(anonymous)" && d->getTag()==dwarf::DW_TAG_typedef) break; t = d->getBaseType(); } else break; } J.attribute("dtype", n);
            bool dc = false; for (const DIType *q = v->getType(); q;) { auto *d = dyn_cast<DIDerivedType>(q); if (!d) { if (auto *ct = dyn_cast<DICompositeType>(q); ct && ct->getTag() == dwarf::DW_TAG_array_type) { q = ct->getBaseType(); continue; } break; }
              if (d->getTag() == dwarf::DW_TAG_const_type) { dc = true; break; } if (d->getTag() == dwarf::DW_TAG_typedef || d->getTag() == dwarf::DW_TAG_volatile_type) { q = d->getBaseType(); continue; } break; }
            if (dc) J.attribute("dconst", true); } }
        if (G.hasInitializer()) { J.attributeBegin("init"); constant(G.getInitializer(), 0); J.attributeEnd(); }
      }); });
      DebugInfoFinder DF; DF.processModule(M);
      J.attributeArray("dtypes", [&] { std::set<std::string> seen; for (auto *T : DF.types()) if (auto *C = dyn_cast<DICompositeType>(T)) {
        if (C->isForwardDecl()) continue;
        if (C->getTag() != dwarf::DW_TAG_structure_type && C->getTag() != dwarf::DW_TAG_class_type && C->getTag() != dwarf::DW_TAG_union_type && C->getTag() != dwarf::DW_TAG_enumeration_type) continue;
        std::string n = scopeName(C);
        if (n.empty()) n = "(anonymous)";
        std::string file = C->getFilename().str();
        std::string key = n + "|" + C->getIdentifier().str() + "|" + utostr(C->getLine()); if (!seen.insert(key).second) continue;
        J.object([&] { J.attribute("name", n); J.attribute("ident", C->getIdentifier()); J.attribute("file", file); J.attribute("line", C->getLine()); J.attribute("size", C->getSizeInBits() / 8); J.attribute("tag", (int)C->getTag());
          J.attributeArray("members", [&] { for (auto *E : C->getElements()) {
            if (auto *D = dyn_cast_or_null<DIDerivedType>(E)) { if ((D->getTag() == dwarf::DW_TAG_member || D->getTag() == dwarf::DW_TAG_inheritance) && !D->isStaticMember())
              J.object([&] { J.attribute("n", D->getTag() == dwarf::DW_TAG_inheritance ? "<base>" : D->getName()); J.attribute("off", D->getOffsetInBits() / 8); J.attribute("size", D->getSizeInBits() / 8);
                 const DIType *t = D->getBaseType(); std::string tn; uint64_t sz = 0; while (t) { tn = scopeName(t); if (t->getSizeInBits() && !sz) sz = t->getSizeInBits() / 8; auto *dd = dyn_cast<DIDerivedType>(t); if (dd && (dd->getTag() == dwarf::DW_TAG_const_type || dd->getTag() == dwarf::DW_TAG_volatile_type)) { t = dd->getBaseType(); continue; } if (dd && dd->getTag() == dwarf::DW_TAG_pointer_type) { tn = "*"; } break; }
                 J.attribute("t", tn); J.attribute("tsize", (int64_t)sz); if (t) J.attribute("tline", (int64_t)t->getLine()); }); }
            else if (auto *En = dyn_cast_or_null<DIEnumerator>(E)) J.object([&] { J.attribute("n", En->getName()); J.attribute("val", En->getValue().getSExtValue()); });
          } }); });
      } });
      J.attributeArray("functions", [&] { for (auto &F : M) func(F); });
    });
  }
};

static int xform(int argc, char **argv, Module &M) {
  auto num = [](StringRef s) { int64_t v = 0; s.getAsInteger(0, v); return v; };
  for (int i = 4; i < argc; i++) {
    StringRef a = argv[i];
    auto val = [&] { if (i + 1 >= argc) { errs() << "missing value\n"; exit(2); } return StringRef(argv[++i]); };
    if (a == "--const-global") {
      auto [n, v] = val().rsplit('='); auto *G = M.getGlobalVariable(n, true);
      if (!G) { errs() << "no global " << n << "\n"; return 3; }
      unsigned cnt = 0; SmallVector<Instruction *, 16> ls;
      for (auto &F : M) for (auto &B : F) for (auto &I : B) if (auto *L = dyn_cast<LoadInst>(&I)) if (L->getPointerOperand()->stripPointerCasts() == G || (isa<IntrinsicInst>(L->getPointerOperand()) && cast<IntrinsicInst>(L->getPointerOperand())->getIntrinsicID() == Intrinsic::threadlocal_address && cast<IntrinsicInst>(L->getPointerOperand())->getArgOperand(0) == G) || (isa<Constant>(L->getPointerOperand()) && getUnderlyingObject(L->getPointerOperand()) == G)) ls.push_back(L);
      for (auto *I : ls) { if (!I->getType()->isIntegerTy()) continue; I->replaceAllUsesWith(ConstantInt::get(I->getType(), num(v), true)); I->eraseFromParent(); cnt++; }
      outs() << "const-global " << n << " " << cnt << "\n";
    } else if (a == "--const-ret") {
      auto [n, v] = val().rsplit('='); unsigned cnt = 0; SmallVector<CallBase *, 16> cs;
      for (auto &F : M) if (F.getName() == n) for (auto *U : F.users()) if (auto *C = dyn_cast<CallBase>(U)) if (C->getCalledFunction() == &F) cs.push_back(C);
      for (auto *C : cs) if (C->getType()->isIntegerTy()) { C->replaceAllUsesWith(ConstantInt::get(C->getType(), num(v), true)); cnt++; }
      outs() << "const-ret " << n << " " << cnt << "\n";
    } else if (a == "--arg") {
      auto [l, v] = val().rsplit('='); auto [fn, idx] = l.rsplit(':');
      auto *F = M.getFunction(fn); if (!F) { errs() << "no function " << fn << "\n"; return 3; }
      auto *A = F->getArg(num(idx)); A->replaceAllUsesWith(ConstantInt::get(A->getType(), num(v), true));
    } else if (a == "--fold-flags") { // loads of a one-byte flag in a local yield the only constant whose store can reach them
      auto &DL = M.getDataLayout();
      for (auto &F : M) for (auto &B : F) for (auto &I : B) if (auto *A = dyn_cast<AllocaInst>(&I)) {
        SmallVector<std::pair<LoadInst *, int64_t>, 16> loads; bool all = false;
        struct Acc { int64_t off, n; ConstantInt *c; bool life; };
        std::map<Instruction *, SmallVector<Acc, 2>> accs; // writes
        SmallVector<std::tuple<Value *, int64_t, bool>, 32> st{{A, 0, false}}; std::set<Value *> seen;
        while (!st.empty() && !all) {
          auto [v, off, mix] = st.pop_back_val();
          if (!seen.insert(v).second) continue;
          for (auto &U : v->uses()) {
            auto *us = dyn_cast<Instruction>(U.getUser());
            if (!us) { all = true; continue; }
            if (auto *G = dyn_cast<GetElementPtrInst>(us)) { APInt o(64, 0); if (G->accumulateConstantOffset(DL, o)) st.push_back({G, off + o.getSExtValue(), mix}); else all = true; }
            else if (isa<PHINode>(us) || isa<SelectInst>(us)) st.push_back({us, off, true});
            else if (auto *L = dyn_cast<LoadInst>(us)) { if (!mix && L->getType()->isIntegerTy(8)) loads.push_back({L, off}); }
            else if (auto *S = dyn_cast<StoreInst>(us)) {
              if (S->getValueOperand() == v) { all = true; continue; }
              int64_t n = DL.getTypeStoreSize(S->getValueOperand()->getType());
              accs[us].push_back({off, n, !mix && n == 1 ? dyn_cast<ConstantInt>(S->getValueOperand()) : nullptr, false}); }
            else if (auto *C = dyn_cast<CallBase>(us)) {
              if (C->isLifetimeStartOrEnd()) { if (v == A) accs[us].push_back({0, 1 << 20, nullptr, true}); continue; }
              if (!C->isArgOperand(&U)) { all = true; continue; }
              unsigned k = C->getArgOperandNo(&U); int64_t n = 0;
              if (auto *MI = dyn_cast<MemIntrinsic>(C)) { if (k) continue; auto *sz = dyn_cast<ConstantInt>(MI->getLength()); n = sz ? sz->getSExtValue() : 1 << 20; }
              else if (C->onlyReadsMemory(k)) continue;
              else { n = C->getParamDereferenceableBytes(k); if (auto *G = C->getCalledFunction()) if (k < G->arg_size()) n = std::max<int64_t>(n, G->getArg(k)->getDereferenceableBytes());
                if (auto *T = C->getParamStructRetType(k)) n = std::max<int64_t>(n, DL.getTypeAllocSize(T)); if (!n) n = 1 << 20; }
              accs[us].push_back({off, n, nullptr, false}); }
            else if (isa<ICmpInst>(us)) continue;
            else all = true; } }
        if (all) continue;
        for (auto &[L, o] : loads) {
          ConstantInt *c = nullptr; bool ok = true; std::set<BasicBlock *> vis; SmallVector<std::pair<BasicBlock *, Instruction *>, 16> wk{{L->getParent(), L}};
          while (!wk.empty() && ok) {
            auto [bb, from] = wk.pop_back_val(); bool done = false;
            for (auto *x = from ? from->getPrevNode() : &bb->back(); x && !done; x = x->getPrevNode()) {
              auto it = accs.find(x); if (it == accs.end()) continue;
              for (auto &q : it->second) if (q.off <= o && o < q.off + q.n) { done = true; if (q.life) continue;
                if (!q.c || (c && c != q.c)) ok = false; else c = q.c; } }
            if (!done) for (auto *p : predecessors(bb)) if (vis.insert(p).second) wk.push_back({p, nullptr}); }
          if (ok && c) L->replaceAllUsesWith(c); } }
    } else if (a == "--const-load") {
      // FN:ARG.OFF0.OFF1...=VAL: every integer load in FN from [...[ARG+OFF0]+OFF1]... yields VAL
      auto [l, v] = val().rsplit('='); auto [fn, path] = l.rsplit(':'); SmallVector<StringRef, 4> ps; path.split(ps, '.');
      auto *F = M.getFunction(fn); if (!F || F->isDeclaration()) { errs() << "no function " << fn << "\n"; return 3; }
      auto &DL = M.getDataLayout(); unsigned cnt = 0; SmallVector<LoadInst *, 16> ls;
      auto match = [&](const LoadInst *L) { for (size_t k = ps.size() - 1; k >= 1; k--) {
          APInt off(64, 0); const Value *b = L->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, off, true);
          if (off.getSExtValue() != num(ps[k])) return false;
          if (k == 1) { auto *A = dyn_cast<Argument>(b); return A && (int64_t)A->getArgNo() == num(ps[0]); }
          L = dyn_cast<LoadInst>(b); if (!L) return false; } return false; };
      for (auto &B : *F) for (auto &I : B) if (auto *L = dyn_cast<LoadInst>(&I)) if (L->getType()->isIntegerTy() && match(L)) ls.push_back(L);
      for (auto *I : ls) { I->replaceAllUsesWith(ConstantInt::get(I->getType(), num(v), true)); I->eraseFromParent(); cnt++; }
      outs() << "const-load " << fn << " " << cnt << "\n";
    } else if (a == "--nounwind") {
      Regex R(val()); for (auto &F : M) if (F.isDeclaration() && R.match(F.getName())) F.addFnAttr(Attribute::NoUnwind);
    } else if (a == "--noinline") {
      Regex R(val()); for (auto &F : M) if (!F.isDeclaration() && R.match(F.getName())) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
    } else if (a == "--inline-all") { // make every function inlinable
      for (auto &F : M) { F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone); }
    } else if (a == "--alwaysinline") {
      Regex R(val()); for (auto &F : M) if (!F.isDeclaration() && R.match(F.getName())) { F.removeFnAttr(Attribute::NoInline); F.addFnAttr(Attribute::AlwaysInline); }
    } else if (a == "--exact") { // linkonce/weak definitions become exact (whole program)
      for (auto &F : M) if (!F.isDeclaration() && (F.hasLinkOnceLinkage() || F.hasWeakLinkage())) { F.setComdat(nullptr); F.setLinkage(GlobalValue::InternalLinkage); }
    } else if (a == "--keep-roots") {
      SmallVector<StringRef, 16> ks; val().split(ks, ','); std::set<StringRef> k(ks.begin(), ks.end());
      for (auto &F : M) if (!F.isDeclaration() && !k.count(F.getName())) { F.setComdat(nullptr); F.setVisibility(GlobalValue::DefaultVisibility); F.setLinkage(GlobalValue::InternalLinkage); }
      for (auto &G : M.globals()) if (!G.isDeclaration() && !G.getName().starts_with("llvm.") && !k.count(G.getName())) { G.setComdat(nullptr); G.setVisibility(GlobalValue::DefaultVisibility); G.setLinkage(GlobalValue::InternalLinkage); }
    } else if (a == "--slice") {
      // ROOTS;;INCLUDE;;STOP (regexes on demangled names): keep roots and the local/linkonce/INCLUDE functions they reach
      // (all marked alwaysinline); every other definition becomes a declaration
      SmallVector<StringRef, 3> ps; val().split(ps, ";;");
      auto names = [](StringRef p) { std::set<StringRef> k; if (p.starts_with("=")) { SmallVector<StringRef, 16> v; p.drop_front().split(v, ','); k.insert(v.begin(), v.end()); } return k; };
      std::set<StringRef> rn = names(ps[0]), in = ps.size() > 1 ? names(ps[1]) : std::set<StringRef>();
      Regex R(rn.empty() ? ps[0] : "^$a"), Inc(in.empty() && ps.size() > 1 && !ps[1].empty() ? ps[1] : "^$a"), Stop(ps.size() > 2 && !ps[2].empty() ? ps[2].ltrim('~') : "^$a"), Keep(ps.size() > 3 && !ps[3].empty() ? ps[3] : "^$a");
      bool smangled = ps.size() > 2 && ps[2].starts_with("~"); // ~REGEX: stop/keep match mangled names
      { SmallVector<GlobalAlias *, 16> as; for (auto &A : M.aliases()) as.push_back(&A);
        for (auto *A : as) { A->replaceAllUsesWith(A->getAliasee()); A->eraseFromParent(); } }
      std::map<Function *, std::string> dn; for (auto &F : M) dn[&F] = demangle(F.getName());
      std::set<Function *> roots, keep; std::vector<Function *> wl;
      for (auto &F : M) if (!F.isDeclaration() && (rn.count(F.getName()) || R.match(dn[&F]))) { roots.insert(&F); keep.insert(&F); wl.push_back(&F); }
      auto ok = [&](Function *G) { if (G->isDeclaration() || (Stop.match(smangled ? G->getName() : StringRef(dn[G])) && !Keep.match(smangled ? G->getName() : StringRef(dn[G])))) return false; return G->hasLocalLinkage() || G->hasLinkOnceLinkage() || G->hasWeakLinkage() || in.count(G->getName()) || Inc.match(dn[G]); };
      std::function<void(const Value *, std::set<const Value *> &)> mark = [&](const Value *V, std::set<const Value *> &seen) {
        if (!isa<Constant>(V) || !seen.insert(V).second) return;
        if (auto *G = dyn_cast<Function>(V)) { auto *GF = const_cast<Function *>(G); if (ok(GF) && keep.insert(GF).second) wl.push_back(GF); return; }
        if (isa<GlobalVariable>(V)) return;
        for (auto &O : cast<User>(V)->operands()) mark(O, seen);
      };
      while (!wl.empty()) { Function *F = wl.back(); wl.pop_back(); std::set<const Value *> seen;
        for (auto &B : *F) for (auto &I : B) for (auto &O : I.operands()) mark(O, seen); }
      for (auto &F : M) { if (F.isDeclaration()) continue;
        if (!keep.count(&F)) { F.deleteBody(); F.setComdat(nullptr); F.setLinkage(GlobalValue::ExternalLinkage); F.setVisibility(GlobalValue::DefaultVisibility); continue; }
        F.removeFnAttr(Attribute::OptimizeNone);
        if (roots.count(&F)) { F.setComdat(nullptr); F.setLinkage(GlobalValue::ExternalLinkage); F.setVisibility(GlobalValue::DefaultVisibility); F.addFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::AlwaysInline); continue; }
        F.removeFnAttr(Attribute::NoInline); F.addFnAttr(Attribute::AlwaysInline); }
      outs() << "slice roots " << roots.size() << " keep " << keep.size() << "\n";
    } else { errs() << "unknown op " << a << "\n"; return 2; }
  }
  return 0;
}

int main(int argc, char **argv) {
  if (argc < 4) { errs() << "usage: irx dump|xform in out ...\n"; return 2; }
  LLVMContext C; SMDiagnostic E;
  auto M = parseIRFile(argv[2], E, C);
  if (!M) { E.print("irx", errs()); return 2; }
  std::error_code ec; raw_fd_ostream os(argv[3], ec);
  if (ec) { errs() << ec.message() << "\n"; return 2; }
  if (StringRef(argv[1]) == "dump") { Dumper(*M, os).run(); return 0; }
  if (StringRef(argv[1]) == "xform") { if (int r = xform(argc, argv, *M)) return r; WriteBitcodeToFile(*M, os); return 0; }
  return 2;
}
