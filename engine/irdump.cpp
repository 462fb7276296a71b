// Dumps an LLVM module (bitcode) as JSON lines for the VC generator.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/Operator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <map>
using namespace llvm;
static const DataLayout* DL;
static std::map<const Value*, int> ids;
static std::map<const BasicBlock*, int> bids;
typedef json::Value JV;

static JV ty(Type* t) {
  if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
  if (t->isPointerTy()) return "ptr";
  if (t->isDoubleTy()) return "double";
  if (t->isFloatTy()) return "float";
  if (t->isVoidTy()) return "void";
  if (t->isX86_FP80Ty()) return "fp80";
  if (t->isHalfTy()) return "half";
  if (t->isFP128Ty()) return "fp128";
  if (auto s = dyn_cast<StructType>(t)) {
    json::Array a, offs;
    if (s->isOpaque()) return "opaque";
    auto sl = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++) { a.push_back(ty(s->getElementType(i))); offs.push_back((int64_t)sl->getElementOffset(i)); }
    return json::Object{{"s", std::move(a)}, {"o", std::move(offs)}, {"z", (int64_t)DL->getTypeAllocSize(t)}};
  }
  if (auto s = dyn_cast<ArrayType>(t))
    return json::Object{{"a", ty(s->getElementType())}, {"n", (int64_t)s->getNumElements()}, {"z", (int64_t)DL->getTypeAllocSize(t)}, {"e", (int64_t)DL->getTypeAllocSize(s->getElementType())}};
  if (auto s = dyn_cast<FixedVectorType>(t))
    return json::Object{{"v", ty(s->getElementType())}, {"n", (int64_t)s->getNumElements()}};
  return "other";
}
static JV val(const Value* v);
static JV cval(const Constant* c) {
  if (auto ci = dyn_cast<ConstantInt>(c)) {
    SmallString<40> s; ci->getValue().toStringUnsigned(s);
    return json::Array{"i", (int64_t)ci->getBitWidth(), std::string(s.str())};
  }
  if (isa<ConstantPointerNull>(c)) return json::Array{"null"};
  if (isa<UndefValue>(c)) return json::Array{"undef", ty(c->getType())};
  if (auto cf = dyn_cast<ConstantFP>(c)) {
    SmallString<40> s; cf->getValueAPF().bitcastToAPInt().toStringUnsigned(s);
    return json::Array{"f", ty(c->getType()), std::string(s.str())};
  }
  if (auto f = dyn_cast<Function>(c)) return json::Array{"fn", f->getName().str()};
  if (auto f = dyn_cast<GlobalAlias>(c)) return cval(f->getAliasee());
  if (auto g = dyn_cast<GlobalVariable>(c)) return json::Array{"g", g->getName().str(), 0};
  if (isa<ConstantAggregateZero>(c)) return json::Array{"zero", ty(c->getType())};
  if (auto a = dyn_cast<ConstantAggregate>(c)) {
    json::Array el; for (auto& o : a->operands()) el.push_back(cval(cast<Constant>(o)));
    return json::Array{"agg", ty(c->getType()), std::move(el)};
  }
  if (auto ce = dyn_cast<ConstantExpr>(c)) {
    if (auto ge = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (ge->accumulateConstantOffset(*DL, off)) {
        JV b = cval(cast<Constant>(ge->getPointerOperand()));
        if (auto* arr = b.getAsArray()) {
          if ((*arr)[0].getAsString() && *(*arr)[0].getAsString() == "g") {
            int64_t o0 = *(*arr)[2].getAsInteger();
            return json::Array{"g", (*arr)[1], o0 + off.getSExtValue()};
          }
          if ((*arr)[0].getAsString() && *(*arr)[0].getAsString() == "null") return json::Array{"ci2p", std::to_string(off.getZExtValue())};
        }
      }
    }
    if (ce->getOpcode() == Instruction::BitCast) return cval(ce->getOperand(0));
    if (ce->getOpcode() == Instruction::IntToPtr)
      if (auto ci = dyn_cast<ConstantInt>(ce->getOperand(0))) { SmallString<40> s; ci->getValue().toStringUnsigned(s); return json::Array{"ci2p", std::string(s.str())}; }
    if (ce->getOpcode() == Instruction::PtrToInt) return json::Array{"p2i", cval(ce->getOperand(0))};
    return json::Array{"cexpr", std::string(ce->getOpcodeName())};
  }
  return json::Array{"unsup", "const"};
}
static JV val(const Value* v) {
  if (auto c = dyn_cast<Constant>(v)) return cval(c);
  auto it = ids.find(v);
  if (it != ids.end()) return json::Array{"v", it->second};
  return json::Array{"unsup", "value"};
}
static void globinit(const Constant* c, uint64_t off, json::Array& cells) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c)) { cells.push_back(json::Array{(int64_t)off, (int64_t)DL->getTypeAllocSize(t), json::Array{"zeros"}}); return; }
  if (auto cd = dyn_cast<ConstantDataSequential>(c)) {
    if (cd->getElementType()->isIntegerTy(8)) {
      std::string hex; static const char* H = "0123456789abcdef";
      for (unsigned char ch : cd->getRawDataValues()) { hex += H[ch >> 4]; hex += H[ch & 15]; }
      cells.push_back(json::Array{(int64_t)off, (int64_t)cd->getNumElements(), json::Array{"hex", hex}}); return;
    }
    uint64_t es = DL->getTypeAllocSize(cd->getElementType());
    for (unsigned i = 0; i < cd->getNumElements(); i++) globinit(cd->getElementAsConstant(i), off + i * es, cells);
    return;
  }
  if (auto s = dyn_cast<ConstantStruct>(c)) {
    auto sl = DL->getStructLayout(s->getType());
    for (unsigned i = 0; i < s->getNumOperands(); i++) globinit(s->getOperand(i), off + sl->getElementOffset(i), cells);
    return;
  }
  if (auto s = dyn_cast<ConstantArray>(c)) {
    uint64_t es = DL->getTypeAllocSize(s->getType()->getElementType());
    for (unsigned i = 0; i < s->getNumOperands(); i++) globinit(s->getOperand(i), off + i * es, cells);
    return;
  }
  if (isa<UndefValue>(c)) return;
  cells.push_back(json::Array{(int64_t)off, (int64_t)DL->getTypeStoreSize(t), cval(c)});
}
static std::string scopeName(const DIScope* s) {
  if (!s) return "";
  std::string p = scopeName(s->getScope());
  if (isa<DINamespace>(s) || isa<DICompositeType>(s) ) {
    std::string n = s->getName().str(); if (n.empty()) n = "(anon)";
    return p.empty() ? n : p + "::" + n;
  }
  return p;
}
int main(int argc, char** argv) {
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print("irdump", errs()); return 2; }
  DL = &M->getDataLayout();
  std::error_code ec; raw_fd_ostream out(argv[2], ec);
  auto emit = [&](json::Object o) { out << JV(std::move(o)) << "\n"; };
  DebugInfoFinder F; F.processModule(*M);
  for (auto* t : F.types()) if (auto* c = dyn_cast<DICompositeType>(t)) {
    if (c->isForwardDecl()) continue;
    if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
      json::Array e; for (auto* el : c->getElements()) if (auto* en = dyn_cast<DIEnumerator>(el)) e.push_back(json::Array{en->getName().str(), (int64_t)en->getValue().getSExtValue()});
      emit(json::Object{{"k", "enum"}, {"name", scopeName(c)}, {"e", std::move(e)}}); continue;
    }
    if (c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_structure_type && c->getTag() != dwarf::DW_TAG_union_type) continue;
    json::Array ms;
    for (auto* el : c->getElements()) if (auto* m = dyn_cast<DIDerivedType>(el)) {
      if (m->isStaticMember()) continue;
      std::string bt; const DIType* b = m->getBaseType(); 
      while (b && isa<DIDerivedType>(b) && b->getName().empty() && b->getTag() != dwarf::DW_TAG_pointer_type) b = cast<DIDerivedType>(b)->getBaseType();
      if (b) bt = b->getTag() == dwarf::DW_TAG_pointer_type ? std::string("*") : scopeName(b->getScope()) + "::" + b->getName().str();
      uint64_t sz = m->getSizeInBits(); if (!sz && m->getBaseType()) sz = m->getBaseType()->getSizeInBits();
      bool inh = m->getTag() == dwarf::DW_TAG_inheritance;
      ms.push_back(json::Array{inh ? std::string("<base>") : m->getName().str(), (int64_t)(m->getOffsetInBits() / 8), (int64_t)(sz / 8), bt});
    }
    emit(json::Object{{"k", "struct"}, {"name", scopeName(c)}, {"size", (int64_t)(c->getSizeInBits() / 8)}, {"m", std::move(ms)}});
  }
  for (auto& g : M->globals()) {
    json::Object o{{"k", "global"}, {"name", g.getName().str()}, {"const", g.isConstant()}, {"size", (int64_t)DL->getTypeAllocSize(g.getValueType())}};
    if (g.hasInitializer()) { json::Array cells; if (DL->getTypeAllocSize(g.getValueType()) <= 262144) globinit(g.getInitializer(), 0, cells); o["cells"] = std::move(cells); }
    emit(std::move(o));
  }
  for (auto& f : *M) {
    json::Object o{{"k", "fn"}, {"name", f.getName().str()}, {"dem", demangle(f.getName().str())}, {"ret", ty(f.getReturnType())}, {"decl", f.isDeclaration()}, {"noreturn", f.doesNotReturn()}};
    json::Array ps; for (auto& a : f.args()) { json::Object po{{"ty", ty(a.getType())}}; if (a.hasStructRetAttr()) { po["sret"] = (int64_t)DL->getTypeAllocSize(a.getParamStructRetType()); } if (a.hasByValAttr()) po["byval"] = (int64_t)DL->getTypeAllocSize(a.getParamByValType()); if (auto d = a.getDereferenceableBytes()) po["deref"] = (int64_t)d; ps.push_back(std::move(po)); }
    o["params"] = std::move(ps); o["vararg"] = f.isVarArg();
    if (f.isDeclaration()) { emit(std::move(o)); continue; }
    if (auto* sp = f.getSubprogram()) { o["line"] = (int64_t)sp->getLine(); o["file"] = sp->getFilename().str(); }
    ids.clear(); bids.clear(); int n = 0, bn = 0;
    for (auto& a : f.args()) ids[&a] = n++;
    for (auto& b : f) { bids[&b] = bn++; for (auto& i : b) ids[&i] = n++; }
    DominatorTree DT(f); LoopInfo LI(DT);
    json::Array loops;
    for (auto* L : LI.getLoopsInPreorder()) {
      json::Array bl; for (auto* b : L->blocks()) bl.push_back(bids[b]);
      int64_t line = 0; if (auto dl = L->getStartLoc()) line = dl.getLine();
      loops.push_back(json::Object{{"h", bids[L->getHeader()]}, {"b", std::move(bl)}, {"line", line}, {"depth", (int64_t)L->getLoopDepth()}});
    }
    o["loops"] = std::move(loops);
    json::Array blocks;
    for (auto& b : f) {
      json::Array ins;
      for (auto& i : b) {
        if (isa<DbgInfoIntrinsic>(&i)) continue;
        json::Object j{{"op", std::string(i.getOpcodeName())}, {"id", ids[&i]}};
        if (!i.getType()->isVoidTy()) j["ty"] = ty(i.getType());
        if (auto& dl = i.getDebugLoc()) { j["ln"] = (int64_t)dl.getLine(); }
        auto opnd = [&]() { json::Array a; for (auto& op : i.operands()) a.push_back(val(op)); return a; };
        if (auto* x = dyn_cast<AllocaInst>(&i)) {
          auto sz = x->getAllocationSize(*DL);
          j["size"] = sz ? (int64_t)sz->getFixedValue() : (int64_t)-1;
        } else if (auto* x = dyn_cast<LoadInst>(&i)) { j["p"] = val(x->getPointerOperand()); j["sz"] = (int64_t)DL->getTypeStoreSize(x->getType()); }
        else if (auto* x = dyn_cast<StoreInst>(&i)) { j["p"] = val(x->getPointerOperand()); j["x"] = val(x->getValueOperand()); j["vt"] = ty(x->getValueOperand()->getType()); j["sz"] = (int64_t)DL->getTypeStoreSize(x->getValueOperand()->getType()); }
        else if (auto* x = dyn_cast<GetElementPtrInst>(&i)) {
          MapVector<Value*, APInt> vo; APInt co(64, 0);
          if (!x->getType()->isVectorTy() && cast<GEPOperator>(x)->collectOffset(*DL, 64, vo, co)) {
            json::Array ix; for (auto& kv : vo) { ix.push_back(json::Array{val(kv.first), kv.second.getSExtValue(), (int64_t)kv.first->getType()->getIntegerBitWidth()}); }
            j["p"] = val(x->getPointerOperand()); j["off"] = co.getSExtValue(); j["ix"] = std::move(ix); j["inb"] = x->isInBounds();
          } else j["op"] = "unsup_gep";
        } else if (auto* x = dyn_cast<PHINode>(&i)) {
          json::Array a; for (unsigned k = 0; k < x->getNumIncomingValues(); k++) a.push_back(json::Array{bids[x->getIncomingBlock(k)], val(x->getIncomingValue(k))});
          j["in"] = std::move(a);
        } else if (auto* x = dyn_cast<CmpInst>(&i)) { j["pred"] = CmpInst::getPredicateName(x->getPredicate()).str(); j["a"] = opnd(); j["ot"] = ty(x->getOperand(0)->getType()); }
        else if (auto* x = dyn_cast<BranchInst>(&i)) {
          json::Array s; for (unsigned k = 0; k < x->getNumSuccessors(); k++) s.push_back(bids[x->getSuccessor(k)]);
          j["s"] = std::move(s); if (x->isConditional()) j["c"] = val(x->getCondition());
        } else if (auto* x = dyn_cast<SwitchInst>(&i)) {
          j["c"] = val(x->getCondition()); j["d"] = bids[x->getDefaultDest()]; json::Array cs;
          for (auto& cse : x->cases()) cs.push_back(json::Array{val(cse.getCaseValue()), bids[cse.getCaseSuccessor()]});
          j["cs"] = std::move(cs);
        } else if (auto* x = dyn_cast<CallBase>(&i)) {
          json::Array a; for (auto& op : x->args()) a.push_back(val(op)); j["a"] = std::move(a);
          json::Array at; for (auto& op : x->args()) at.push_back(ty(op->getType())); j["at"] = std::move(at);
          if (isa<InlineAsm>(x->getCalledOperand())) j["f"] = json::Array{"asm"}; else j["f"] = val(x->getCalledOperand());
          if (auto* iv = dyn_cast<InvokeInst>(x)) { j["n"] = bids[iv->getNormalDest()]; j["u"] = bids[iv->getUnwindDest()]; }
          if (x->doesNotReturn()) j["nr"] = true;
          if (x->doesNotThrow()) j["nu"] = true;
        } else if (auto* x = dyn_cast<ExtractValueInst>(&i)) { j["a"] = opnd(); json::Array ix; for (auto k : x->indices()) ix.push_back((int64_t)k); j["ix"] = std::move(ix); }
        else if (auto* x = dyn_cast<InsertValueInst>(&i)) { j["a"] = opnd(); json::Array ix; for (auto k : x->indices()) ix.push_back((int64_t)k); j["ix"] = std::move(ix); }
        else if (auto* x = dyn_cast<LandingPadInst>(&i)) {
          json::Array cl; for (unsigned k = 0; k < x->getNumClauses(); k++) cl.push_back(json::Array{x->isCatch(k) ? "catch" : "filter", cval(x->getClause(k))});
          j["cl"] = std::move(cl); j["cleanup"] = x->isCleanup();
        } else {
          j["a"] = opnd();
          if (i.getNumOperands()) j["ot"] = ty(i.getOperand(0)->getType());
          if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&i)) { if (ob->hasNoSignedWrap()) j["nsw"] = true; if (ob->hasNoUnsignedWrap()) j["nuw"] = true; }
        }
        ins.push_back(std::move(j));
      }
      blocks.push_back(std::move(ins));
    }
    o["blocks"] = std::move(blocks);
    emit(std::move(o));
  }
  return 0;
}
