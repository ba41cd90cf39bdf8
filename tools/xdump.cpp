// xdump: print an LLVM module as JSON (types resolved, GEPs reduced to byte offsets, inlining chains kept),
// for the Python analyses. Usage: xdump in.bc > out.json
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/ADT/SmallString.h>
#include <map>
using namespace llvm;
static raw_ostream& O = outs();
static const DataLayout* DL;
static std::map<const Value*, int> ids;

static void str(StringRef s) {
    O << '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') O << '\\' << c;
        else if (c < 0x20 || c >= 0x7f) O << format("\\u%04x", c);
        else O << c;
    }
    O << '"';
}
static void type(Type* t) {
    if (auto* i = dyn_cast<IntegerType>(t)) { O << "[\"i\"," << i->getBitWidth() << "]"; return; }
    if (t->isFloatTy()) { O << "[\"f\",32]"; return; }
    if (t->isDoubleTy()) { O << "[\"f\",64]"; return; }
    if (t->isX86_FP80Ty()) { O << "[\"f\",80]"; return; }
    if (t->isFP128Ty()) { O << "[\"f\",128]"; return; }
    if (t->isPointerTy()) { O << "[\"p\"]"; return; }
    if (t->isVoidTy()) { O << "[\"void\"]"; return; }
    if (auto* v = dyn_cast<FixedVectorType>(t)) {
        O << "[\"v\"," << v->getNumElements() << ","; type(v->getElementType()); O << "]"; return; }
    if (auto* a = dyn_cast<ArrayType>(t)) {
        O << "[\"a\"," << a->getNumElements() << ","; type(a->getElementType());
        O << "," << DL->getTypeAllocSize(a->getElementType()).getFixedValue() << "]"; return; }
    if (auto* s = dyn_cast<StructType>(t)) {
        if (s->isOpaque()) { O << "[\"?\"]"; return; }
        auto* L = DL->getStructLayout(s);
        O << "[\"s\",[";
        for (unsigned i = 0; i < s->getNumElements(); ++i) {
            if (i) O << ",";
            O << "[" << L->getElementOffset(i).getFixedValue() << ","; type(s->getElementType(i)); O << "]"; }
        O << "]," << L->getSizeInBytes().getFixedValue() << "]"; return; }
    O << "[\"?\"]";
}
static void intval(const APInt& v) { SmallString<64> s; v.toString(s, 10, false); O << "\"" << s << "\""; }
static void fpval(const APFloat& f) {
    if (f.isNaN()) { O << "\"nan\""; return; }
    if (f.isInfinity()) { O << (f.isNegative() ? "\"-inf\"" : "\"inf\""); return; }
    // exact hexadecimal significand
    SmallString<64> s;
    char buf[128];
    f.convertToHexString(buf, 0, false, APFloat::rmNearestTiesToEven);
    O << "\"" << buf << "\"";
}
static void operand(const Value* v, bool withType = true);
static void gepParts(const GEPOperator* g) {
    unsigned bits = DL->getIndexSizeInBits(0);
    MapVector<Value*, APInt> vars; APInt c(bits, 0);
    O << "\"base\":"; operand(g->getPointerOperand());
    if (g->collectOffset(*DL, bits, vars, c)) {
        SmallString<32> s; c.toString(s, 10, true);
        O << ",\"off\":" << s << ",\"idx\":[";
        bool first = true;
        for (auto& kv : vars) { if (!first) O << ","; first = false;
            O << "["; operand(kv.first); SmallString<32> t; kv.second.toString(t, 10, true); O << "," << t << "]"; }
        O << "]";
    } else O << ",\"bad\":1";
    O << ",\"inbounds\":" << (g->isInBounds() ? 1 : 0);
}
static void constant(const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) { O << "\"k\":\"ci\",\"v\":"; intval(ci->getValue()); }
    else if (auto* cf = dyn_cast<ConstantFP>(c)) { O << "\"k\":\"cf\",\"v\":"; fpval(cf->getValueAPF()); }
    else if (isa<ConstantPointerNull>(c)) O << "\"k\":\"null\"";
    else if (isa<PoisonValue>(c)) O << "\"k\":\"poison\"";
    else if (isa<UndefValue>(c)) O << "\"k\":\"undef\"";
    else if (isa<ConstantAggregateZero>(c)) O << "\"k\":\"zero\"";
    else if (auto* g = dyn_cast<GlobalValue>(c)) { O << "\"k\":\"g\",\"n\":"; str(g->getName()); }
    else if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
        O << "\"k\":\"agg\",\"e\":[";
        for (unsigned i = 0; i < d->getNumElements(); ++i) { if (i) O << ","; operand(d->getElementAsConstant(i)); }
        O << "]"; }
    else if (auto* a = dyn_cast<ConstantAggregate>(c)) {
        O << "\"k\":\"agg\",\"e\":[";
        for (unsigned i = 0; i < a->getNumOperands(); ++i) { if (i) O << ","; operand(a->getOperand(i)); }
        O << "]"; }
    else if (auto* e = dyn_cast<ConstantExpr>(c)) {
        if (auto* g = dyn_cast<GEPOperator>(e)) { O << "\"k\":\"gep\","; gepParts(g); }
        else {
            O << "\"k\":\"ce\",\"op\":"; str(e->getOpcodeName());
            O << ",\"ops\":[";
            for (unsigned i = 0; i < e->getNumOperands(); ++i) { if (i) O << ","; operand(e->getOperand(i)); }
            O << "]"; }
    }
    else { O << "\"k\":\"?\",\"s\":"; std::string s; raw_string_ostream os(s); c->print(os); str(os.str()); }
}
static void operand(const Value* v, bool withType) {
    O << "{";
    if (auto* c = dyn_cast<Constant>(v)) constant(c);
    else if (auto* bb = dyn_cast<BasicBlock>(v)) O << "\"k\":\"bb\",\"id\":" << ids[bb];
    else if (isa<MetadataAsValue>(v)) O << "\"k\":\"md\"";
    else if (isa<InlineAsm>(v)) O << "\"k\":\"asm\"";
    else O << "\"k\":\"v\",\"id\":" << ids[v];
    if (!isa<BasicBlock>(v) && !isa<MetadataAsValue>(v)) { O << ",\"t\":"; type(v->getType()); }
    O << "}";
}
static void loc(const Instruction& I) {
    const DILocation* d = I.getDebugLoc();
    if (!d) return;
    O << ",\"loc\":[";
    bool first = true;
    for (; d; d = d->getInlinedAt()) {
        if (!first) O << ","; first = false;
        std::string f = d->getFilename().str();
        if (!f.empty() && f[0] != '/') f = (d->getDirectory() + "/" + f).str();
        O << "["; str(f); O << "," << d->getLine() << ",";
        auto* sp = d->getScope() ? d->getScope()->getSubprogram() : nullptr;
        str(sp ? sp->getName() : ""); O << "]";
    }
    O << "]";
}
static void tbaa(const Instruction& I) {       // name of the type the access is made as
    auto* n = I.getMetadata(LLVMContext::MD_tbaa);
    if (!n || n->getNumOperands() < 2) return;
    if (auto* a = dyn_cast_or_null<MDNode>(n->getOperand(1))) if (a->getNumOperands()) if (auto* s = dyn_cast<MDString>(a->getOperand(0))) { O << ",\"tbaa\":"; str(s->getString()); }
}
static const char* ordering(AtomicOrdering o) { return toIRString(o); }
int main(int argc, char** argv) {
    LLVMContext C; SMDiagnostic E;
    auto M = parseIRFile(argv[1], E, C);
    if (!M) { E.print("xdump", errs()); return 2; }
    DL = &M->getDataLayout();
    O << "{\"globals\":{";
    bool first = true;
    for (auto& g : M->globals()) {
        if (!first) O << ",\n"; first = false;
        str(g.getName()); O << ":{\"t\":"; type(g.getValueType());
        O << ",\"const\":" << (g.isConstant() ? 1 : 0);
        O << ",\"size\":" << (g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 0);
        if (g.hasInitializer()) { O << ",\"init\":"; operand(g.getInitializer()); }
        O << "}";
    }
    O << "},\n\"functions\":{";
    first = true;
    for (auto& F : *M) {
        if (F.isIntrinsic() && F.isDeclaration()) continue;
        if (!first) O << ",\n"; first = false;
        ids.clear(); int n = 0;
        for (auto& a : F.args()) ids[&a] = n++;
        int b = 0;
        for (auto& B : F) { ids[&B] = b++; }
        for (auto& B : F) for (auto& I : B) ids[&I] = n++;
        str(F.getName()); O << ":{\"decl\":" << (F.isDeclaration() ? 1 : 0) << ",\"nounwind\":" << (F.doesNotThrow() ? 1 : 0) << ",\"ret\":"; type(F.getReturnType());
        O << ",\"args\":[";
        for (auto& a : F.args()) { if (a.getArgNo()) O << ","; O << "{\"id\":" << ids[&a] << ",\"t\":"; type(a.getType());
            if (a.hasByValAttr()) O << ",\"byval\":" << DL->getTypeAllocSize(a.getParamByValType()).getFixedValue();
            if (a.hasStructRetAttr()) O << ",\"sret\":" << DL->getTypeAllocSize(a.getParamStructRetType()).getFixedValue();
            O << "}"; }
        O << "]";
        if (auto* sp = F.getSubprogram()) { O << ",\"dbg\":["; std::string f = sp->getFilename().str();
            if (!f.empty() && f[0] != '/') f = (sp->getDirectory() + "/" + f).str();
            str(f); O << "," << sp->getLine() << ","; str(sp->getName()); O << "]"; }
        O << ",\"blocks\":[";
        bool fb = true;
        for (auto& B : F) {
            if (!fb) O << ",\n"; fb = false;
            O << "{\"id\":" << ids[&B] << ",\"ins\":[";
            bool fi = true;
            for (auto& I : B) {
                if (isa<DbgInfoIntrinsic>(I)) continue;
                if (!fi) O << ",\n "; fi = false;
                O << "{\"id\":" << ids[&I] << ",\"op\":"; str(I.getOpcodeName());
                O << ",\"t\":"; type(I.getType());
                if (auto* g = dyn_cast<GetElementPtrInst>(&I)) { O << ","; gepParts(cast<GEPOperator>(g)); }
                else if (auto* p = dyn_cast<PHINode>(&I)) {
                    O << ",\"inc\":[";
                    for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) { if (i) O << ",";
                        O << "["; operand(p->getIncomingValue(i)); O << "," << ids[p->getIncomingBlock(i)] << "]"; }
                    O << "]"; }
                else if (auto* cb = dyn_cast<CallBase>(&I)) {
                    O << ",\"callee\":"; operand(cb->getCalledOperand());
                    O << ",\"args\":[";
                    for (unsigned i = 0; i < cb->arg_size(); ++i) { if (i) O << ","; operand(cb->getArgOperand(i)); }
                    O << "],\"nounwind\":" << (cb->doesNotThrow() ? 1 : 0) << ",\"noreturn\":" << (cb->doesNotReturn() ? 1 : 0);
                    if (auto* inv = dyn_cast<InvokeInst>(&I)) O << ",\"normal\":" << ids[inv->getNormalDest()] << ",\"unwind\":" << ids[inv->getUnwindDest()];
                }
                else if (auto* br = dyn_cast<BranchInst>(&I)) {
                    if (br->isConditional()) { O << ",\"cond\":"; operand(br->getCondition());
                        O << ",\"succ\":[" << ids[br->getSuccessor(0)] << "," << ids[br->getSuccessor(1)] << "]"; }
                    else O << ",\"succ\":[" << ids[br->getSuccessor(0)] << "]"; }
                else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
                    O << ",\"cond\":"; operand(sw->getCondition()); O << ",\"default\":" << ids[sw->getDefaultDest()] << ",\"cases\":[";
                    bool fc = true;
                    for (auto& cs : sw->cases()) { if (!fc) O << ","; fc = false;
                        O << "["; intval(cs.getCaseValue()->getValue()); O << "," << ids[cs.getCaseSuccessor()] << "]"; }
                    O << "]"; }
                else {
                    O << ",\"ops\":[";
                    for (unsigned i = 0; i < I.getNumOperands(); ++i) { if (i) O << ","; operand(I.getOperand(i)); }
                    O << "]";
                    if (auto* c = dyn_cast<CmpInst>(&I)) { O << ",\"pred\":"; str(CmpInst::getPredicateName(c->getPredicate())); }
                    if (auto* l = dyn_cast<LoadInst>(&I)) { O << ",\"align\":" << l->getAlign().value() << ",\"vol\":" << l->isVolatile();
                        if (l->isAtomic()) { O << ",\"ord\":"; str(ordering(l->getOrdering())); } }
                    if (auto* s = dyn_cast<StoreInst>(&I)) { O << ",\"align\":" << s->getAlign().value() << ",\"vol\":" << s->isVolatile();
                        if (s->isAtomic()) { O << ",\"ord\":"; str(ordering(s->getOrdering())); } }
                    if (auto* f = dyn_cast<FenceInst>(&I)) { O << ",\"ord\":"; str(ordering(f->getOrdering())); }
                    if (auto* r = dyn_cast<AtomicRMWInst>(&I)) { O << ",\"ord\":"; str(ordering(r->getOrdering())); O << ",\"rmw\":"; str(AtomicRMWInst::getOperationName(r->getOperation())); }
                    if (auto* x = dyn_cast<AtomicCmpXchgInst>(&I)) { O << ",\"ord\":"; str(ordering(x->getSuccessOrdering())); O << ",\"ord2\":"; str(ordering(x->getFailureOrdering())); }
                    if (auto* e = dyn_cast<ExtractValueInst>(&I)) { O << ",\"ix\":["; for (unsigned i = 0; i < e->getNumIndices(); ++i) { if (i) O << ","; O << e->getIndices()[i]; } O << "]"; }
                    if (auto* e = dyn_cast<InsertValueInst>(&I)) { O << ",\"ix\":["; for (unsigned i = 0; i < e->getNumIndices(); ++i) { if (i) O << ","; O << e->getIndices()[i]; } O << "]"; }
                    if (auto* s = dyn_cast<ShuffleVectorInst>(&I)) { O << ",\"mask\":["; for (unsigned i = 0; i < s->getShuffleMask().size(); ++i) { if (i) O << ","; O << s->getShuffleMask()[i]; } O << "]"; }
                    if (auto* a = dyn_cast<AllocaInst>(&I)) { O << ",\"size\":" << DL->getTypeAllocSize(a->getAllocatedType()).getFixedValue(); }
                    if (auto* l = dyn_cast<LandingPadInst>(&I)) { O << ",\"cleanup\":" << l->isCleanup() << ",\"clauses\":["; for (unsigned i = 0; i < l->getNumClauses(); ++i) { if (i) O << ","; auto* c = l->getClause(i); if (l->isFilter(i)) str("filter"); else if (isa<ConstantPointerNull>(c)) str(""); else str(std::string(c->stripPointerCasts()->getName())); } O << "]"; }
                    if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&I)) O << ",\"nsw\":" << ob->hasNoSignedWrap() << ",\"nuw\":" << ob->hasNoUnsignedWrap();
                    if (auto* fp = dyn_cast<FPMathOperator>(&I)) if (fp->isFast()) O << ",\"fast\":1";
                }
                if (isa<LoadInst>(I) || isa<StoreInst>(I)) tbaa(I);
                loc(I);
                O << "}";
            }
            O << "]}";
        }
        O << "]}";
    }
    O << "}}\n";
    return 0;
}
