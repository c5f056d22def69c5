// irdump: prints an LLVM bitcode module as JSON for the verifier in vc.py.
// GEPs are lowered to byte offsets with the module's DataLayout; member names/offsets come from
// the debug info, so that specifications can name fields of the real classes.
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/ADT/SmallString.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;
static const DataLayout* DL;
static raw_ostream& O = outs();

static void str(StringRef s) {
  O << '"';
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') O << '\\' << c;
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); O << b; }
    else O << c;
  }
  O << '"';
}
static void type(Type* t) {
  if (t->isIntegerTy()) O << "\"i" << t->getIntegerBitWidth() << "\"";
  else if (t->isPointerTy()) O << "\"ptr\"";
  else if (t->isVoidTy()) O << "\"void\"";
  else if (t->isDoubleTy()) O << "\"double\"";
  else if (t->isFloatTy()) O << "\"float\"";
  else if (auto* s = dyn_cast<StructType>(t)) {
    if (s->isOpaque()) { O << "\"opaque\""; return; }
    auto* L = DL->getStructLayout(s);
    O << "[\"s\"," << DL->getTypeAllocSize(t) << ",[";
    for (unsigned i = 0; i < s->getNumElements(); i++) {
      if (i) O << ",";
      O << "[" << L->getElementOffset(i) << ","; type(s->getElementType(i)); O << "]";
    }
    O << "]]";
  } else if (auto* a = dyn_cast<ArrayType>(t)) {
    O << "[\"a\"," << a->getNumElements() << "," << DL->getTypeAllocSize(a->getElementType()) << ",";
    type(a->getElementType()); O << "]";
  } else if (auto* v = dyn_cast<FixedVectorType>(t)) {
    O << "[\"v\"," << v->getNumElements() << ","; type(v->getElementType()); O << "]";
  } else if (t->isX86_FP80Ty()) O << "\"x86_fp80\"";
  else O << "\"other\"";
}
static std::map<const Value*, std::string>* names;
static void constant(Constant* c);
static void operand(Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) { constant(c); return; }
  if (isa<MetadataAsValue>(v)) { O << "[\"md\"]"; return; }
  if (isa<InlineAsm>(v)) { O << "[\"asm\"]"; return; }
  auto it = names->find(v);
  O << "[\"v\","; str(it == names->end() ? "?" : it->second); O << "]";
}
static void gepBody(GEPOperator* g) {
  // base, constant offset, [[operand, width, scale]...]
  int64_t off = 0; std::vector<std::pair<Value*, uint64_t>> var;
  for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
    Value* idx = gti.getOperand();
    if (StructType* st = gti.getStructTypeOrNull()) {
      off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
    } else {
      uint64_t sz = DL->getTypeAllocSize(gti.getIndexedType());
      if (auto* ci = dyn_cast<ConstantInt>(idx)) off += ci->getSExtValue() * (int64_t)sz;
      else var.push_back({idx, sz});
    }
  }
  operand(g->getPointerOperand());
  O << "," << off << ",[";
  bool first = true;
  for (auto& p : var) { if (!first) O << ","; first = false; O << "["; operand(p.first); O << "," << p.first->getType()->getIntegerBitWidth() << "," << p.second << "]"; }
  O << "]," << (g->isInBounds() ? 1 : 0);
}
static void constant(Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    SmallString<40> s; ci->getValue().toString(s, 10, false);
    O << "[\"c\"," << ci->getBitWidth() << "," << s << "]"; return;
  }
  if (isa<ConstantPointerNull>(c)) { O << "[\"null\"]"; return; }
  if (isa<UndefValue>(c)) { O << "[\"undef\","; type(c->getType()); O << "]"; return; }
  if (auto* f = dyn_cast<ConstantFP>(c)) {
    if (f->getType()->isDoubleTy() || f->getType()->isFloatTy()) {
      double d = f->getType()->isDoubleTy() ? f->getValueAPF().convertToDouble() : (double)f->getValueAPF().convertToFloat();
      char b[64]; snprintf(b, 64, "\"%a\"", d); O << "[\"f\"," << b << "]";
    } else O << "[\"f\",\"?\"]";
    return;
  }
  if (auto* g = dyn_cast<GlobalValue>(c)) {
    if (auto* ga = dyn_cast<GlobalAlias>(g)) { constant(ga->getAliasee()); return; }
    O << "[\"g\","; str(g->getName()); O << ",0]"; return;
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    if (auto* g = dyn_cast<GEPOperator>(ce)) { O << "[\"gep\","; gepBody(g); O << "]"; return; }
    O << "[\"ce\","; str(ce->getOpcodeName()); O << ","; type(ce->getType());
    for (auto& op : ce->operands()) { O << ","; operand(op); O << ","; type(op->getType()); }
    O << "]"; return;
  }
  if (isa<ConstantAggregateZero>(c)) { O << "[\"zero\","; type(c->getType()); O << "]"; return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    if (cd->getElementType()->isIntegerTy()) {
      O << "[\"data\"," << cd->getElementType()->getIntegerBitWidth() << ",[";
      for (unsigned i = 0; i < cd->getNumElements(); i++) { if (i) O << ","; O << cd->getElementAsInteger(i); }
      O << "]"; if (isa<VectorType>(c->getType())) O << ",1";
      O << "]"; return;
    }
  }
  if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c) || isa<ConstantDataSequential>(c)) {
    O << "[\"agg\","; type(c->getType()); O << ",[";
    unsigned n = isa<ConstantDataSequential>(c) ? cast<ConstantDataSequential>(c)->getNumElements() : c->getNumOperands();
    for (unsigned i = 0; i < n; i++) { if (i) O << ","; constant(c->getAggregateElement(i)); }
    O << "]]"; return;
  }
  O << "[\"unk\"]";
}

static void field(const DIDerivedType* m, std::string& prefix, uint64_t base, bool& first, int depth);
static const DIType* strip(const DIType* t) {
  while (t) {
    auto* d = dyn_cast<DIDerivedType>(t);
    if (!d) break;
    if (d->getTag() == dwarf::DW_TAG_typedef || d->getTag() == dwarf::DW_TAG_const_type || d->getTag() == dwarf::DW_TAG_volatile_type) t = d->getBaseType();
    else break;
  }
  return t;
}
static std::string tyname(const DIType* t0) {
  const DIType* t = strip(t0);
  if (!t) return "void";
  if (auto* d = dyn_cast<DIDerivedType>(t)) {
    if (d->getTag() == dwarf::DW_TAG_pointer_type || d->getTag() == dwarf::DW_TAG_reference_type || d->getTag() == dwarf::DW_TAG_rvalue_reference_type) return tyname(d->getBaseType()) + "*";
    return std::string(d->getName());
  }
  if (auto* s = dyn_cast<DISubroutineType>(t)) return "fn";
  std::string r(t->getName());
  if (auto* ct = dyn_cast<DICompositeType>(t)) {
    if (ct->getTag() == dwarf::DW_TAG_array_type) return tyname(ct->getBaseType()) + "[" + std::to_string(ct->getSizeInBits() / 8) + "]";
    const DIScope* sc = ct->getScope();
    while (sc && (isa<DICompositeType>(sc))) { r = std::string(sc->getName()) + "::" + r; sc = sc->getScope(); }
    if (ct->getTag() == dwarf::DW_TAG_enumeration_type) r = "enum " + r;
  }
  return r;
}

int main(int argc, char** argv) {
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print(argv[0], errs()); return 2; }
  DL = &M->getDataLayout();
  O << "{\"globals\":{";
  bool first = true;
  for (auto& g : M->globals()) {
    if (g.getName().starts_with("llvm.")) continue;
    if (!first) O << ",\n"; first = false;
    str(g.getName()); O << ":{\"size\":" << (g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 0)
      << ",\"const\":" << (g.isConstant() ? 1 : 0) << ",\"local\":" << (g.hasLocalLinkage() ? 1 : 0) << ",\"type\":"; type(g.getValueType());
    O << ",\"dem\":"; str(demangle(g.getName().str()));
    if (g.hasInitializer()) { O << ",\"init\":"; constant(g.getInitializer()); }
    O << "}";
  }
  O << "},\n\"functions\":{"; first = true;
  for (auto& F : *M) {
    if (F.isIntrinsic()) continue;
    if (!first) O << ",\n"; first = false;
    str(F.getName()); O << ":{\"dem\":"; str(demangle(F.getName().str()));
    O << ",\"ret\":"; type(F.getReturnType()); O << ",\"local\":" << (F.hasLocalLinkage() ? 1 : 0);
    O << ",\"va\":" << (F.isVarArg() ? 1 : 0);
    O << ",\"noret\":" << (F.doesNotReturn() ? 1 : 0);
    if (auto* sp = F.getSubprogram()) { O << ",\"file\":"; str(sp->getFilename()); O << ",\"line\":" << sp->getLine(); }
    std::map<const Value*, std::string> nm; names = &nm; int n = 0;
    for (auto& A : F.args()) nm[&A] = "a" + std::to_string(n++);
    n = 0; int b = 0;
    for (auto& BB : F) { nm[&BB] = "b" + std::to_string(b++); for (auto& I : BB) if (!I.getType()->isVoidTy()) nm[&I] = "t" + std::to_string(n++); }
    O << ",\"args\":[";
    bool f2 = true;
    for (auto& A : F.args()) { if (!f2) O << ","; f2 = false; O << "["; str(nm[&A]); O << ","; type(A.getType()); O << ",";
      str(A.getName()); O << "," << (A.hasByValAttr() ? (int64_t)DL->getTypeAllocSize(A.getParamByValType()) : A.hasStructRetAttr() ? -(int64_t)DL->getTypeAllocSize(A.getParamStructRetType()) : 0) << "]"; }
    O << "]";
    if (!F.isDeclaration()) {
      O << ",\"blocks\":["; bool f3 = true;
      for (auto& BB : F) {
        if (!f3) O << ",\n"; f3 = false;
        O << "["; str(nm[&BB]); O << ",["; bool f4 = true;
        for (auto& I : BB) {
          if (isa<DbgInfoIntrinsic>(I)) continue;
          if (auto* ii = dyn_cast<IntrinsicInst>(&I)) if (ii->getIntrinsicID() == Intrinsic::lifetime_start || ii->getIntrinsicID() == Intrinsic::lifetime_end || ii->getIntrinsicID() == Intrinsic::experimental_noalias_scope_decl) continue;
          if (!f4) O << ","; f4 = false;
          O << "["; str(I.getOpcodeName()); O << ","; str(I.getType()->isVoidTy() ? "" : nm[&I]); O << ",";
          type(I.getType()); O << "," << (I.getDebugLoc() ? I.getDebugLoc().getLine() : 0) << ",";
          str(I.getName());
          O << ",";
          if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
            if (g->getType()->isVectorTy()) O << "null"; else { O << "["; gepBody(cast<GEPOperator>(g)); O << "]"; }
          } else if (auto* p = dyn_cast<PHINode>(&I)) {
            O << "["; for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { if (i) O << ","; O << "["; operand(p->getIncomingValue(i)); O << ","; str(nm[p->getIncomingBlock(i)]); O << "]"; } O << "]";
          } else if (auto* br = dyn_cast<BranchInst>(&I)) {
            O << "["; if (br->isConditional()) { operand(br->getCondition()); O << ","; str(nm[br->getSuccessor(0)]); O << ","; str(nm[br->getSuccessor(1)]); } else str(nm[br->getSuccessor(0)]); O << "]";
          } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
            O << "["; operand(sw->getCondition()); O << "," << sw->getCondition()->getType()->getIntegerBitWidth() << ","; str(nm[sw->getDefaultDest()]); O << ",[";
            bool f5 = true; for (auto& c : sw->cases()) { if (!f5) O << ","; f5 = false; O << "["; SmallString<40> s; c.getCaseValue()->getValue().toString(s, 10, false); O << s << ","; str(nm[c.getCaseSuccessor()]); O << "]"; }
            O << "]]";
          } else if (auto* cb = dyn_cast<CallBase>(&I)) {
            O << "{\"fn\":"; operand(cb->getCalledOperand()); 
            if (auto* cf = cb->getCalledFunction()) { if (cf->isIntrinsic()) O << ",\"intr\":1"; O << ",\"va\":" << (cf->isVarArg() ? 1 : 0); }
            O << ",\"noret\":" << (cb->doesNotReturn() ? 1 : 0);
            O << ",\"args\":["; bool f6 = true;
            for (unsigned i = 0; i < cb->arg_size(); i++) { if (!f6) O << ","; f6 = false; O << "["; operand(cb->getArgOperand(i)); O << ","; type(cb->getArgOperand(i)->getType()); O << "," << (cb->isByValArgument(i) ? (uint64_t)DL->getTypeAllocSize(cb->getParamByValType(i)) : 0) << "]"; }
            O << "]";
            if (auto* iv = dyn_cast<InvokeInst>(&I)) { O << ",\"normal\":"; str(nm[iv->getNormalDest()]); O << ",\"unwind\":"; str(nm[iv->getUnwindDest()]); }
            O << "}";
          } else {
            O << "{\"ops\":["; bool f7 = true;
            for (auto& op : I.operands()) { if (!f7) O << ","; f7 = false; if (isa<BasicBlock>(op)) { str(nm[op]); continue; } O << "["; operand(op); O << ","; type(op->getType()); O << "]"; }
            O << "]";
            if (auto* c = dyn_cast<CmpInst>(&I)) { O << ",\"pred\":"; str(CmpInst::getPredicateName(c->getPredicate())); }
            if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&I)) O << ",\"nsw\":" << ob->hasNoSignedWrap() << ",\"nuw\":" << ob->hasNoUnsignedWrap();
            if (auto* al = dyn_cast<AllocaInst>(&I)) { O << ",\"asize\":" << (uint64_t)DL->getTypeAllocSize(al->getAllocatedType()) << ",\"aty\":"; type(al->getAllocatedType()); }
            if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { O << ",\"idx\":["; for (unsigned i = 0; i < ev->getNumIndices(); i++) { if (i) O << ","; O << ev->getIndices()[i]; } O << "]"; }
            if (auto* ev = dyn_cast<InsertValueInst>(&I)) { O << ",\"idx\":["; for (unsigned i = 0; i < ev->getNumIndices(); i++) { if (i) O << ","; O << ev->getIndices()[i]; } O << "]"; }
            O << "}";
          }
          O << "]";
        }
        O << "]]";
      }
      O << "]";
    }
    O << "}";
  }
  O << "},\n\"types\":{"; first = true;
  DebugInfoFinder DF; DF.processModule(*M);
  std::set<std::string> seen;
  std::map<std::string, std::string> out;
  for (auto* t : DF.types()) {
    auto* ct = dyn_cast<DICompositeType>(t);
    if (!ct || ct->isForwardDecl()) continue;
    if (ct->getTag() == dwarf::DW_TAG_enumeration_type) {
      std::string nm2 = tyname(ct);
      if (nm2 == "enum " || !seen.insert(nm2).second) continue;
      if (!first) O << ",\n"; first = false;
      str(nm2); O << ":{\"size\":" << ct->getSizeInBits() / 8 << ",\"enum\":{"; bool f1 = true;
      for (auto* e : ct->getElements()) if (auto* en = dyn_cast<DIEnumerator>(e)) { if (!f1) O << ","; f1 = false; str(en->getName()); O << ":" << en->getValue().getSExtValue(); }
      O << "}}"; continue;
    }
    if (ct->getTag() != dwarf::DW_TAG_class_type && ct->getTag() != dwarf::DW_TAG_structure_type && ct->getTag() != dwarf::DW_TAG_union_type) continue;
    std::string nm2 = tyname(ct);
    if (nm2.empty() || !seen.insert(nm2).second) continue;
    if (!first) O << ",\n"; first = false;
    str(nm2); O << ":{\"size\":" << ct->getSizeInBits() / 8 << ",\"fields\":["; bool f1 = true;
    for (auto* e : ct->getElements()) {
      auto* m = dyn_cast<DIDerivedType>(e); if (!m) continue;
      if (m->getFlags() & DINode::FlagStaticMember) continue;
      if (m->getTag() != dwarf::DW_TAG_member && m->getTag() != dwarf::DW_TAG_inheritance) continue;
      if (!f1) O << ","; f1 = false;
      const DIType* bt = strip(m->getBaseType());
      uint64_t sz = bt ? bt->getSizeInBits() / 8 : 0;
      O << "["; str(m->getTag() == dwarf::DW_TAG_inheritance ? "<base>" : m->getName()); O << "," << m->getOffsetInBits() / 8 << "," << sz << ","; str(tyname(m->getBaseType()));
      O << "," << (m->isBitField() ? (int64_t)(m->getOffsetInBits()) : -1) << "," << m->getSizeInBits() << "]";
    }
    O << "]}";
  }
  O << "}}\n";
  return 0;
}
