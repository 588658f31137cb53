// Dumps an LLVM-18 module as JSON for the symbolic executor: types are lowered
// to byte sizes, GEPs to byte offsets, constants flattened, and immediate
// post-dominators computed, so the Python side needs no LLVM knowledge.
#include "llvm/IR/Module.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/SmallString.h"
#include <map>
#include <string>
using namespace llvm;
static const DataLayout *DL;
static raw_ostream *O;
static std::map<const Value *, int> ids;
static std::map<const BasicBlock *, int> bbid;

static void str(StringRef s) {
  *O << '"';
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') *O << '\\' << c;
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); *O << b; }
    else *O << c;
  }
  *O << '"';
}
static std::string kind(Type *t) {
  if (t->isIntegerTy()) return "i";
  if (t->isPointerTy()) return "p";
  if (t->isDoubleTy() || t->isFloatTy() || t->isX86_FP80Ty()) return "d";
  if (t->isVoidTy()) return "v";
  if (t->isStructTy() || t->isArrayTy()) return "a";
  return "?";
}
static unsigned wid(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isSized()) return (unsigned)DL->getTypeSizeInBits(t).getFixedValue();
  return 0;
}
static uint64_t sz(Type *t) { return DL->getTypeStoreSize(t).getFixedValue(); }
static uint64_t asz(Type *t) { return DL->getTypeAllocSize(t).getFixedValue(); }

static void op(const Value *v);
static void constant(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    SmallString<64> s; ci->getValue().toString(s, 10, false);
    *O << "[1,"; str(s); *O << "," << ci->getBitWidth() << "]"; return;
  }
  if (isa<ConstantPointerNull>(c)) { *O << "[1,\"0\",64]"; return; }
  if (auto *f = dyn_cast<Function>(c)) { *O << "[3,"; str(f->getName()); *O << "]"; return; }
  if (auto *a = dyn_cast<GlobalAlias>(c)) { constant(a->getAliasee()); return; }
  if (auto *g = dyn_cast<GlobalVariable>(c)) { *O << "[2,"; str(g->getName()); *O << ",0]"; return; }
  if (isa<UndefValue>(c)) { *O << "[4," << wid(c->getType()) << ",\"" << kind(c->getType()) << "\"]"; return; }
  if (auto *fp = dyn_cast<ConstantFP>(c)) {
    APFloat f = fp->getValueAPF(); bool l;
    f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l);
    char b[64]; snprintf(b, 64, "%.17g", f.convertToDouble());
    *O << "[5,\"" << b << "\"]"; return;
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *gep = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (gep->accumulateConstantOffset(*DL, off)) {
        *O << "[7,"; op(gep->getPointerOperand()); *O << "," << off.getSExtValue() << "]"; return;
      }
    }
    if (ce->isCast()) { *O << "[8,"; op(ce->getOperand(0)); *O << "," << wid(ce->getType()) << "]"; return; }
    if (ce->getOpcode() == Instruction::Sub || ce->getOpcode() == Instruction::Add) {
      *O << "[9,\"" << ce->getOpcodeName() << "\","; op(ce->getOperand(0)); *O << ","; op(ce->getOperand(1)); *O << "," << wid(ce->getType()) << "]"; return;
    }
  }
  if (c->getType()->isAggregateType()) {
    *O << "[6,[";
    unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) { if (i) *O << ","; op(c->getAggregateElement(i)); }
    *O << "]]"; return;
  }
  std::string s; raw_string_ostream ss(s); c->print(ss);
  *O << "[99,"; str(ss.str()); *O << "]";
}
static void op(const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) { constant(c); return; }
  auto it = ids.find(v);
  if (it != ids.end()) { *O << "[0," << it->second << "]"; return; }
  *O << "[99,\"?\"]";
}
// Flatten a global initialiser into [off,size,kind,operand] cells.
static bool first;
static void flat(const Constant *c, uint64_t off) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c)) return;              // default zero
  if (isa<UndefValue>(c)) return;
  if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
    if (cds->getElementByteSize() == 1) {
      if (!first) *O << ","; first = false;
      *O << "[" << off << "," << cds->getNumElements() << ",\"s\",";
      str(cds->getRawDataValues()); *O << "]"; return;
    }
    for (unsigned i = 0; i < cds->getNumElements(); i++) flat(cds->getElementAsConstant(i), off + i * cds->getElementByteSize());
    return;
  }
  if (t->isStructTy()) {
    auto *sl = DL->getStructLayout(cast<StructType>(t));
    for (unsigned i = 0; i < t->getStructNumElements(); i++) flat(c->getAggregateElement(i), off + sl->getElementOffset(i));
    return;
  }
  if (t->isArrayTy()) {
    uint64_t es = asz(t->getArrayElementType());
    for (unsigned i = 0; i < t->getArrayNumElements(); i++) flat(c->getAggregateElement(i), off + i * es);
    return;
  }
  if (!first) *O << ","; first = false;
  *O << "[" << off << "," << sz(t) << ",\"" << kind(t) << "\","; op(c); *O << "]";
}
static void inst(const Instruction &I) {
  int d = ids[&I];
  if (isa<LoadInst>(I)) {
    auto &l = cast<LoadInst>(I);
    *O << "[\"load\"," << d << "," << sz(I.getType()) << ",\"" << kind(I.getType()) << "\"," << wid(I.getType()) << ","; op(l.getPointerOperand()); *O << "]";
  } else if (isa<StoreInst>(I)) {
    auto &s = cast<StoreInst>(I); Type *t = s.getValueOperand()->getType();
    *O << "[\"store\",-1," << sz(t) << ",\"" << kind(t) << "\"," << wid(t) << ","; op(s.getValueOperand()); *O << ","; op(s.getPointerOperand()); *O << "]";
  } else if (auto *a = dyn_cast<AllocaInst>(&I)) {
    *O << "[\"alloca\"," << d << "," << asz(a->getAllocatedType()) << ","; op(a->getArraySize()); *O << "]";
  } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
    int64_t c = 0; std::string rest; 
    *O << "[\"gep\"," << d << ","; op(g->getPointerOperand());
    std::vector<std::pair<const Value *, int64_t>> v;
    for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
      const Value *idx = it.getOperand();
      if (StructType *st = it.getStructTypeOrNull()) c += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
      else {
        int64_t s = asz(it.getIndexedType());
        if (auto *ci = dyn_cast<ConstantInt>(idx)) c += ci->getSExtValue() * s; else v.push_back({idx, s});
      }
    }
    *O << "," << c << ",[";
    for (size_t i = 0; i < v.size(); i++) { if (i) *O << ","; *O << "["; op(v[i].first); *O << "," << v[i].second << "," << wid(v[i].first->getType()) << "]"; }
    *O << "]]";
  } else if (auto *b = dyn_cast<BranchInst>(&I)) {
    if (b->isConditional()) { *O << "[\"br\",-1,"; op(b->getCondition()); *O << "," << bbid[b->getSuccessor(0)] << "," << bbid[b->getSuccessor(1)] << "]"; }
    else *O << "[\"jmp\",-1," << bbid[b->getSuccessor(0)] << "]";
  } else if (auto *s = dyn_cast<SwitchInst>(&I)) {
    *O << "[\"switch\",-1," << wid(s->getCondition()->getType()) << ","; op(s->getCondition()); *O << "," << bbid[s->getDefaultDest()] << ",[";
    bool f = true; for (auto c : s->cases()) { if (!f) *O << ","; f = false; *O << "["; op(c.getCaseValue()); *O << "," << bbid[c.getCaseSuccessor()] << "]"; }
    *O << "]]";
  } else if (auto *r = dyn_cast<ReturnInst>(&I)) {
    *O << "[\"ret\",-1,"; if (r->getReturnValue()) op(r->getReturnValue()); else *O << "null"; *O << "]";
  } else if (isa<UnreachableInst>(I)) *O << "[\"unreachable\",-1]";
  else if (auto *p = dyn_cast<PHINode>(&I)) {
    *O << "[\"phi\"," << d << ",[";
    for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { if (i) *O << ","; *O << "[" << bbid[p->getIncomingBlock(i)] << ","; op(p->getIncomingValue(i)); *O << "]"; }
    *O << "]]";
  } else if (auto *cb = dyn_cast<CallBase>(&I)) {
    if (cb->isInlineAsm()) { *O << "[\"asm\"," << d << "]"; return; }
    *O << "[\"call\"," << d << ","; op(cb->getCalledOperand()); *O << ",[";
    for (unsigned i = 0; i < cb->arg_size(); i++) { if (i) *O << ","; op(cb->getArgOperand(i)); }
    *O << "],\"" << kind(I.getType()) << "\"," << wid(I.getType()) << ",[";
    for (unsigned i = 0; i < cb->arg_size(); i++) { if (i) *O << ","; Type *t = cb->getArgOperand(i)->getType();
      *O << "[\"" << kind(t) << "\"," << wid(t) << "," << (cb->isByValArgument(i) ? (long)asz(cb->getParamByValType(i)) : 0L) << "]"; }
    *O << "]";
    if (auto *iv = dyn_cast<InvokeInst>(&I)) *O << "," << bbid[iv->getNormalDest()];
    else *O << ",-1";
    *O << "," << (I.getDebugLoc() ? I.getDebugLoc().getLine() : 0) << "]";
  } else if (auto *c = dyn_cast<ICmpInst>(&I)) {
    *O << "[\"icmp\"," << d << ",\"" << CmpInst::getPredicateName(c->getPredicate()) << "\"," << wid(c->getOperand(0)->getType()) << ",\"" << kind(c->getOperand(0)->getType()) << "\","; op(c->getOperand(0)); *O << ","; op(c->getOperand(1)); *O << "]";
  } else if (auto *c = dyn_cast<FCmpInst>(&I)) {
    *O << "[\"fcmp\"," << d << ",\"" << CmpInst::getPredicateName(c->getPredicate()) << "\","; op(c->getOperand(0)); *O << ","; op(c->getOperand(1)); *O << "]";
  } else if (isa<SelectInst>(I)) {
    *O << "[\"select\"," << d << ","; for (int i = 0; i < 3; i++) { if (i) *O << ","; op(I.getOperand(i)); } *O << "]";
  } else if (auto *b = dyn_cast<BinaryOperator>(&I)) {
    bool nsw = false;
    if (auto *o = dyn_cast<OverflowingBinaryOperator>(&I)) nsw = o->hasNoSignedWrap();
    *O << "[\"bin\"," << d << ",\"" << I.getOpcodeName() << "\"," << wid(I.getType()) << ","; op(b->getOperand(0)); *O << ","; op(b->getOperand(1)); *O << "," << (nsw ? 1 : 0) << "]";
  } else if (isa<CastInst>(I)) {
    *O << "[\"cast\"," << d << ",\"" << I.getOpcodeName() << "\"," << wid(I.getOperand(0)->getType()) << "," << wid(I.getType()) << ","; op(I.getOperand(0)); *O << "]";
  } else if (auto *e = dyn_cast<ExtractValueInst>(&I)) {
    *O << "[\"extractvalue\"," << d << ","; op(e->getAggregateOperand()); *O << ",["; for (unsigned i = 0; i < e->getNumIndices(); i++) { if (i) *O << ","; *O << e->getIndices()[i]; } *O << "]]";
  } else if (auto *e = dyn_cast<InsertValueInst>(&I)) {
    *O << "[\"insertvalue\"," << d << ","; op(e->getAggregateOperand()); *O << ","; op(e->getInsertedValueOperand()); *O << ",["; for (unsigned i = 0; i < e->getNumIndices(); i++) { if (i) *O << ","; *O << e->getIndices()[i]; } *O << "]]";
  } else if (isa<FreezeInst>(I)) { *O << "[\"freeze\"," << d << ","; op(I.getOperand(0)); *O << "]";
  } else if (I.getOpcode() == Instruction::FNeg) { *O << "[\"fneg\"," << d << ","; op(I.getOperand(0)); *O << "]";
  } else { *O << "[\"unsupported\"," << d << ",\"" << I.getOpcodeName() << "\"]"; }
}
int main(int argc, char **argv) {
  LLVMContext x; SMDiagnostic e;
  auto M = parseIRFile(argv[1], e, x);
  if (!M) { e.print("irdump", errs()); return 1; }
  DL = &M->getDataLayout();
  std::error_code ec; raw_fd_ostream out(argv[2], ec); O = &out;
  *O << "{\"globals\":{";
  bool f1 = true;
  for (auto &g : M->globals()) {
    if (!f1) *O << ",\n"; f1 = false;
    str(g.getName()); *O << ":[" << asz(g.getValueType()) << "," << (g.isConstant() ? 1 : 0) << "," << (g.hasInitializer() ? 1 : 0) << ",[";
    first = true; if (g.hasInitializer()) flat(g.getInitializer(), 0);
    *O << "]]";
  }
  *O << "},\n\"aliases\":{"; f1 = true;
  for (auto &a : M->aliases()) { if (!f1) *O << ","; f1 = false; str(a.getName()); *O << ":"; constant(a.getAliasee()); }
  *O << "},\n\"funcs\":{"; f1 = true;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    ids.clear(); bbid.clear(); int n = 0, b = 0;
    for (auto &a : F.args()) ids[&a] = n++;
    for (auto &B : F) { bbid[&B] = b++; for (auto &I : B) ids[&I] = I.getType()->isVoidTy() ? -1 : n++; }
    if (!f1) *O << ",\n"; f1 = false;
    PostDominatorTree PDT(F);
    str(F.getName()); *O << ":{\"n\":" << n << ",\"nargs\":" << F.arg_size() << ",\"va\":" << (F.isVarArg() ? 1 : 0) << ",\"file\":";
    if (auto *sp = F.getSubprogram()) str(sp->getFilename()); else *O << "\"\"";
    *O << ",\"byval\":["; { bool f = true; for (auto &a : F.args()) { if (!f) *O << ","; f = false; *O << (a.hasByValAttr() ? (long)asz(a.getParamByValType()) : 0L); } }
    *O << "],\"ipdom\":["; bool f = true;
    for (auto &B : F) { if (!f) *O << ","; f = false; auto *nd = PDT.getNode(&B); auto *id = nd ? nd->getIDom() : nullptr; *O << (id && id->getBlock() ? bbid[id->getBlock()] : -1); }
    *O << "],\"blocks\":["; f = true;
    for (auto &B : F) {
      if (!f) *O << ",\n"; f = false; *O << "["; bool g = true;
      for (auto &I : B) { if (isa<DbgInfoIntrinsic>(I)) continue; if (!g) *O << ","; g = false; inst(I); }
      *O << "]";
    }
    *O << "]}";
  }
  *O << "},\n\"decls\":["; f1 = true;
  for (auto &F : *M) if (F.isDeclaration()) { if (!f1) *O << ","; f1 = false; str(F.getName()); }
  *O << "]}\n";
  return 0;
}
