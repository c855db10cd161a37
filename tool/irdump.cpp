// Dumps an LLVM module as JSON for the deductive verifier (vc/).  It is a
// mechanical, semantics-preserving transcription: every defined function, every
// global initialiser, every instruction; nothing is rewritten or dropped except
// debug intrinsics and lifetime markers.
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <map>
#include <set>

using namespace llvm;
using json::Array;
using json::Object;
using JV = json::Value;

static const DataLayout *DL;
static std::map<Type *, int> type_ids;
static Array type_table;

static int tid(Type *t) {
  auto it = type_ids.find(t);
  if (it != type_ids.end()) return it->second;
  Object o;
  bool sized = t->isSized();
  uint64_t sz = 0;
  if (t->isIntegerTy()) {
    o["k"] = "i";
    o["w"] = (int64_t)t->getIntegerBitWidth();
  } else if (t->isDoubleTy()) {
    o["k"] = "d";
  } else if (t->isFloatTy()) {
    o["k"] = "f";
  } else if (t->isX86_FP80Ty()) {
    o["k"] = "x";
  } else if (t->isPointerTy()) {
    o["k"] = "p";
  } else if (t->isVoidTy()) {
    o["k"] = "v";
  } else if (auto *st = dyn_cast<StructType>(t)) {
    o["k"] = "s";
    if (sized) {
      Array f, off;
      const StructLayout *sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) {
        f.push_back(tid(st->getElementType(i)));
        off.push_back((int64_t)sl->getElementOffset(i));
      }
      o["f"] = std::move(f);
      o["o"] = std::move(off);
    }
  } else if (auto *at = dyn_cast<ArrayType>(t)) {
    o["k"] = "a";
    o["n"] = (int64_t)at->getNumElements();
    o["e"] = tid(at->getElementType());
  } else if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    o["k"] = "vec";
    o["n"] = (int64_t)vt->getNumElements();
    o["e"] = tid(vt->getElementType());
  } else {
    o["k"] = "other";
  }
  if (sized) sz = DL->getTypeAllocSize(t).getKnownMinValue();
  o["sz"] = (int64_t)sz;
  int id = (int)type_table.size();
  type_ids[t] = id;
  type_table.push_back(std::move(o));
  return id;
}

static JV dumpConst(const Constant *c);
static std::map<const llvm::Value *, int> instIdx;
static std::map<const BasicBlock *, int> bbIdx;

static std::string fpHex(const APFloat &f) {
  SmallString<40> s;
  if (f.isNaN()) return "nan";
  if (f.isInfinity()) return f.isNegative() ? "-inf" : "inf";
  APFloat g = f;
  if (&g.getSemantics() == &APFloat::x87DoubleExtended()) {
    // exact decimal with plenty of digits
    SmallVector<char, 64> buf;
    g.toString(buf, 60, 0);
    return std::string("D") + std::string(buf.begin(), buf.end());
  }
  char hex[64];
  unsigned n = g.convertToHexString(hex, 0, false, APFloat::rmNearestTiesToEven);
  return std::string(hex, n);
}

static JV gepJson(const GEPOperator *g, JV base) {
  APInt off(64, 0);
  MapVector<llvm::Value *, APInt> var;
  Object o;
  if (!g->collectOffset(*DL, 64, var, off)) {
    o["k"] = "badgep";
    return o;
  }
  o["k"] = "gep";
  o["base"] = std::move(base);
  o["off"] = (int64_t)off.getSExtValue();
  return o;
}

static JV dumpConst(const Constant *c) {
  Object o;
  o["t"] = tid(c->getType());
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    o["k"] = "int";
    if (ci->getBitWidth() <= 64)
      o["v"] = ci->getBitWidth() == 1 ? (int64_t)ci->getZExtValue() : (int64_t)ci->getSExtValue();
    else {
      SmallString<40> s;
      ci->getValue().toString(s, 10, true);
      o["vs"] = std::string(s.str());
    }
  } else if (auto *cf = dyn_cast<ConstantFP>(c)) {
    o["k"] = "fp";
    o["v"] = fpHex(cf->getValueAPF());
  } else if (isa<ConstantPointerNull>(c)) {
    o["k"] = "null";
  } else if (isa<UndefValue>(c)) {
    o["k"] = isa<PoisonValue>(c) ? "poison" : "undef";
  } else if (isa<ConstantAggregateZero>(c)) {
    o["k"] = "zero";
  } else if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
    if (cds->isString() || (cds->getElementType()->isIntegerTy(8))) {
      o["k"] = "bytes";
      static const char *hx = "0123456789abcdef";
      std::string s;
      for (unsigned char b : cds->getRawDataValues()) {
        s += hx[b >> 4];
        s += hx[b & 15];
      }
      o["v"] = s;
    } else {
      o["k"] = "agg";
      Array a;
      for (unsigned i = 0; i < cds->getNumElements(); i++)
        a.push_back(dumpConst(cds->getElementAsConstant(i)));
      o["e"] = std::move(a);
    }
  } else if (isa<ConstantAggregate>(c)) {
    o["k"] = "agg";
    Array a;
    for (unsigned i = 0; i < c->getNumOperands(); i++)
      a.push_back(dumpConst(cast<Constant>(c->getOperand(i))));
    o["e"] = std::move(a);
  } else if (auto *f = dyn_cast<Function>(c)) {
    o["k"] = "fn";
    o["v"] = f->getName().str();
  } else if (auto *ga = dyn_cast<GlobalAlias>(c)) {
    return dumpConst(ga->getAliasee());
  } else if (auto *gv = dyn_cast<GlobalVariable>(c)) {
    o["k"] = "g";
    o["v"] = gv->getName().str();
  } else if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *g = dyn_cast<GEPOperator>(ce)) {
      JV v = gepJson(g, dumpConst(cast<Constant>(g->getPointerOperand())));
      (*v.getAsObject())["t"] = tid(c->getType());
      return v;
    }
    o["k"] = "ce";
    o["op"] = ce->getOpcodeName();
    Array a;
    for (unsigned i = 0; i < ce->getNumOperands(); i++)
      a.push_back(dumpConst(cast<Constant>(ce->getOperand(i))));
    o["e"] = std::move(a);
  } else {
    o["k"] = "otherconst";
  }
  return o;
}

// operand: int >=0 instr idx ; {"a":n} argument ; {"k":...} constant ; {"m":} metadata
static JV dumpOp(const llvm::Value *v) {
  if (auto *i = dyn_cast<Instruction>(v)) return (int64_t)instIdx[i];
  if (auto *a = dyn_cast<Argument>(v)) {
    Object o;
    o["k"] = "arg";
    o["v"] = (int64_t)a->getArgNo();
    return o;
  }
  if (auto *c = dyn_cast<Constant>(v)) return dumpConst(c);
  Object o;
  o["k"] = isa<InlineAsm>(v) ? "asm" : "meta";
  return o;
}

static JV dumpInst(const Instruction &I) {
  Object o;
  o["i"] = (int64_t)instIdx[&I];
  o["op"] = I.getOpcodeName();
  o["t"] = tid(I.getType());
  if (I.getDebugLoc()) {
    o["ln"] = (int64_t)I.getDebugLoc().getLine();
  }
  if (auto *bo = dyn_cast<OverflowingBinaryOperator>(&I)) {
    if (bo->hasNoSignedWrap()) o["nsw"] = true;
    if (bo->hasNoUnsignedWrap()) o["nuw"] = true;
  }
  if (auto *ex = dyn_cast<PossiblyExactOperator>(&I))
    if (ex->isExact()) o["exact"] = true;
  auto ops = [&]() {
    Array a;
    for (const Use &u : I.operands()) a.push_back(dumpOp(u.get()));
    return a;
  };
  if (auto *c = dyn_cast<CmpInst>(&I)) {
    o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
    o["ops"] = ops();
  } else if (auto *al = dyn_cast<AllocaInst>(&I)) {
    o["at"] = tid(al->getAllocatedType());
    o["ops"] = ops();
  } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
    APInt off(64, 0);
    MapVector<llvm::Value *, APInt> var;
    if (!cast<GEPOperator>(g)->collectOffset(*DL, 64, var, off)) o["bad"] = true;
    o["base"] = dumpOp(g->getPointerOperand());
    o["off"] = (int64_t)off.getSExtValue();
    o["inb"] = g->isInBounds();
    Array a;
    for (auto &p : var) {
      Array e;
      e.push_back(dumpOp(p.first));
      e.push_back((int64_t)p.second.getSExtValue());
      e.push_back(tid(p.first->getType()));
      a.push_back(std::move(e));
    }
    o["var"] = std::move(a);
  } else if (auto *ph = dyn_cast<PHINode>(&I)) {
    Array a;
    for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) {
      Array e;
      e.push_back((int64_t)bbIdx[ph->getIncomingBlock(i)]);
      e.push_back(dumpOp(ph->getIncomingValue(i)));
      a.push_back(std::move(e));
    }
    o["in"] = std::move(a);
  } else if (auto *br = dyn_cast<BranchInst>(&I)) {
    if (br->isConditional()) o["cond"] = dumpOp(br->getCondition());
    Array a;
    for (unsigned i = 0; i < br->getNumSuccessors(); i++) a.push_back((int64_t)bbIdx[br->getSuccessor(i)]);
    o["succ"] = std::move(a);
  } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
    o["cond"] = dumpOp(sw->getCondition());
    o["def"] = (int64_t)bbIdx[sw->getDefaultDest()];
    Array a;
    for (auto &cs : sw->cases()) {
      Array e;
      e.push_back((int64_t)cs.getCaseValue()->getSExtValue());
      e.push_back((int64_t)bbIdx[cs.getCaseSuccessor()]);
      a.push_back(std::move(e));
    }
    o["cases"] = std::move(a);
  } else if (auto *cb = dyn_cast<CallBase>(&I)) {
    o["fn"] = dumpOp(cb->getCalledOperand());
    Array a;
    for (const Use &u : cb->args()) a.push_back(dumpOp(u.get()));
    o["ops"] = std::move(a);
    Array at;
    for (unsigned i = 0; i < cb->arg_size(); i++) at.push_back(tid(cb->getArgOperand(i)->getType()));
    o["ats"] = std::move(at);
    Array bv;
    for (unsigned i = 0; i < cb->arg_size(); i++)
      if (cb->isByValArgument(i)) {
        Array e;
        e.push_back((int64_t)i);
        e.push_back(tid(cb->getParamByValType(i)));
        bv.push_back(std::move(e));
      }
    if (!bv.empty()) o["byval"] = std::move(bv);
    if (auto *inv = dyn_cast<InvokeInst>(&I)) {
      o["normal"] = (int64_t)bbIdx[inv->getNormalDest()];
      o["unwind"] = (int64_t)bbIdx[inv->getUnwindDest()];
    }
  } else if (auto *lp = dyn_cast<LandingPadInst>(&I)) {
    Array a;
    for (unsigned i = 0; i < lp->getNumClauses(); i++) {
      Object cl;
      cl["catch"] = lp->isCatch(i);
      cl["v"] = dumpConst(lp->getClause(i));
      a.push_back(std::move(cl));
    }
    o["clauses"] = std::move(a);
    o["cleanup"] = lp->isCleanup();
  } else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
    o["ops"] = ops();
    Array a;
    for (unsigned x : ev->indices()) a.push_back((int64_t)x);
    o["idx"] = std::move(a);
  } else if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
    o["ops"] = ops();
    Array a;
    for (unsigned x : iv->indices()) a.push_back((int64_t)x);
    o["idx"] = std::move(a);
  } else {
    o["ops"] = ops();
    Array ot;
    for (const Use &u : I.operands()) ot.push_back(tid(u.get()->getType()));
    o["ots"] = std::move(ot);
    if (auto *rmw = dyn_cast<AtomicRMWInst>(&I)) o["rmw"] = (int64_t)rmw->getOperation();
  }
  return o;
}

int main(int argc, char **argv) {
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) {
    err.print("irdump", errs());
    return 2;
  }
  DL = &M->getDataLayout();
  Object funcs, globals;
  for (Function &F : *M) {
    Object o;
    o["dem"] = demangle(F.getName().str());
    o["decl"] = F.isDeclaration();
    o["ret"] = tid(F.getReturnType());
    Array ps;
    for (Argument &a : F.args()) ps.push_back(tid(a.getType()));
    o["params"] = std::move(ps);
    o["vararg"] = F.isVarArg();
    if (!F.isDeclaration()) {
      if (auto *sp = F.getSubprogram()) {
        o["file"] = sp->getFilename().str();
        o["line"] = (int64_t)sp->getLine();
      }
      instIdx.clear();
      bbIdx.clear();
      int n = 0, b = 0;
      for (BasicBlock &B : F) {
        bbIdx[&B] = b++;
        for (Instruction &I : B) instIdx[&I] = n++;
      }
      Array blocks;
      for (BasicBlock &B : F) {
        Array insts;
        for (Instruction &I : B) {
          if (isa<DbgInfoIntrinsic>(I)) continue;
          if (auto *ii = dyn_cast<IntrinsicInst>(&I))
            if (ii->isLifetimeStartOrEnd()) continue;
          insts.push_back(dumpInst(I));
        }
        blocks.push_back(std::move(insts));
      }
      o["blocks"] = std::move(blocks);
      DominatorTree DT(F);
      LoopInfo LI(DT);
      Array loops;
      for (Loop *L : LI.getLoopsInPreorder()) {
        Object lo;
        lo["header"] = (int64_t)bbIdx[L->getHeader()];
        lo["depth"] = (int64_t)L->getLoopDepth();
        Array bl;
        for (BasicBlock *B : L->blocks()) bl.push_back((int64_t)bbIdx[B]);
        lo["blocks"] = std::move(bl);
        loops.push_back(std::move(lo));
      }
      o["loops"] = std::move(loops);
    }
    funcs[F.getName().str()] = std::move(o);
  }
  for (GlobalVariable &G : M->globals()) {
    Object o;
    o["t"] = tid(G.getValueType());
    o["const"] = G.isConstant();
    o["dem"] = demangle(G.getName().str());
    if (G.hasInitializer()) o["init"] = dumpConst(G.getInitializer());
    globals[G.getName().str()] = std::move(o);
  }
  Object root;
  Object aliases;
  for (GlobalAlias &A : M->aliases()) {
    aliases[A.getName().str()] = dumpConst(A.getAliasee());
  }
  root["aliases"] = std::move(aliases);
  root["functions"] = std::move(funcs);
  root["globals"] = std::move(globals);
  root["types"] = std::move(type_table);
  outs() << JV(std::move(root)) << "\n";
  return 0;
}
