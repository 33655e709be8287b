// irdump: reads LLVM bitcode/IR files, links them in memory and writes one JSON
// description of every function reachable from the module's entry points.  The
// engine in vp/ consumes this; nothing of the analysed program is ever executed.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <string>
using namespace llvm;

static const DataLayout *DL;
static std::map<const Value *, int> ids;
static json::Value tyJ(Type *t);

static std::string tyS(Type *t) {
  if (t->isPointerTy()) return "ptr";
  std::string s; raw_string_ostream o(s); t->print(o, false, true); return o.str();
}
// struct types: list of [offset,type]
static json::Value tyJ(Type *t) {
  if (auto *st = dyn_cast<StructType>(t)) {
    json::Array a; a.push_back("struct"); a.push_back((int64_t)DL->getTypeAllocSize(st));
    json::Array f; const StructLayout *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) {
      json::Array e; e.push_back((int64_t)sl->getElementOffset(i)); e.push_back(tyJ(st->getElementType(i)));
      f.push_back(std::move(e));
    }
    a.push_back(std::move(f)); return a;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    json::Array a; a.push_back("array"); a.push_back((int64_t)at->getNumElements());
    a.push_back((int64_t)DL->getTypeAllocSize(at->getElementType())); a.push_back(tyJ(at->getElementType())); return a;
  }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    json::Array a; a.push_back("array"); a.push_back((int64_t)vt->getNumElements());
    a.push_back((int64_t)DL->getTypeAllocSize(vt->getElementType())); a.push_back(tyJ(vt->getElementType())); return a;
  }
  return tyS(t);
}
static json::Value opJ(const Value *v);
static json::Value constJ(const Constant *c) {
  json::Array a;
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    a.push_back("i");
    if (ci->getBitWidth() <= 64) a.push_back(ci->getBitWidth() == 1 ? (int64_t)ci->getZExtValue() : ci->getSExtValue());
    else { SmallString<64> s; ci->getValue().toStringSigned(s); a.push_back(s.str().str()); }
    return a;
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    APFloat f = cf->getValueAPF(); bool lost;
    f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lost);
    char buf[40]; snprintf(buf, sizeof buf, "%016llx", (unsigned long long)f.bitcastToAPInt().getZExtValue());
    a.push_back("f"); a.push_back(std::string(buf)); return a;
  }
  if (isa<ConstantPointerNull>(c)) { a.push_back("n"); return a; }
  if (isa<UndefValue>(c)) { a.push_back("u"); a.push_back(tyJ(c->getType())); return a; }
  if (isa<ConstantAggregateZero>(c)) { a.push_back("z"); a.push_back(tyJ(c->getType())); return a; }
  if (auto *gv = dyn_cast<GlobalValue>(c)) {
    if (auto *al = dyn_cast<GlobalAlias>(c)) if (auto *ao = al->getAliaseeObject()) gv = ao;
    a.push_back("g"); a.push_back(gv->getName().str()); a.push_back(0); return a; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    APInt off(64, 0);
    const Value *b = ce->stripAndAccumulateConstantOffsets(*DL, off, true);
    if (auto *gv = dyn_cast<GlobalValue>(b)) { a.push_back("g"); a.push_back(gv->getName().str()); a.push_back(off.getSExtValue()); return a; }
    if (ce->isCast()) return opJ(ce->getOperand(0));
  }
  if (auto *ds = dyn_cast<ConstantDataSequential>(c)) {
    a.push_back("agg"); a.push_back(tyJ(c->getType())); json::Array e;
    for (unsigned i = 0; i < ds->getNumElements(); i++) e.push_back(constJ(ds->getElementAsConstant(i)));
    a.push_back(std::move(e)); return a;
  }
  if (auto *ag = dyn_cast<ConstantAggregate>(c)) {
    a.push_back("agg"); a.push_back(tyJ(c->getType())); json::Array e;
    for (auto &o : ag->operands()) e.push_back(constJ(cast<Constant>(o.get())));
    a.push_back(std::move(e)); return a;
  }
  a.push_back("x"); a.push_back("const"); return a;
}
static json::Value opJ(const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constJ(c);
  json::Array a;
  auto it = ids.find(v);
  if (it != ids.end()) { a.push_back("l"); a.push_back(it->second); return a; }
  a.push_back("x"); a.push_back(isa<InlineAsm>(v) ? "asm" : "meta"); return a;
}
static void flat(const Constant *c, uint64_t off, json::Array &out) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) {
    json::Array e; e.push_back((int64_t)off); e.push_back("zero"); e.push_back((int64_t)DL->getTypeAllocSize(t)); out.push_back(std::move(e)); return; }
  if (auto *ds = dyn_cast<ConstantDataSequential>(c)) {
    uint64_t es = DL->getTypeAllocSize(ds->getElementType());
    if (ds->isString()) { json::Array e; e.push_back((int64_t)off); e.push_back("bytes"); std::string h;
      for (unsigned char ch : ds->getRawDataValues()) { char b[3]; snprintf(b, 3, "%02x", ch); h += b; }
      e.push_back(h); out.push_back(std::move(e)); return; }
    for (unsigned i = 0; i < ds->getNumElements(); i++) flat(ds->getElementAsConstant(i), off + i * es, out);
    return; }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) {
    const StructLayout *sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); i++) flat(cs->getOperand(i), off + sl->getElementOffset(i), out);
    return; }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
    Type *et = isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<VectorType>(t)->getElementType();
    uint64_t es = DL->getTypeAllocSize(et);
    for (unsigned i = 0; i < ca->getNumOperands(); i++) flat(ca->getOperand(i), off + i * es, out);
    return; }
  json::Array e; e.push_back((int64_t)off); e.push_back("val"); e.push_back((int64_t)DL->getTypeStoreSize(t)); e.push_back(tyJ(t)); e.push_back(constJ(c)); out.push_back(std::move(e));
}
static json::Value instJ(const Instruction &I) {
  json::Object o;
  o["id"] = ids[&I]; o["op"] = std::string(I.getOpcodeName()); o["ty"] = tyJ(I.getType());
  if (auto &dl = I.getDebugLoc()) {
    if (auto *sc = dl->getScope()) if (auto *f = cast<DIScope>(sc)->getFile()) o["loc"] = f->getFilename().str() + ":" + std::to_string(dl.getLine());
  }
  if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
    int64_t off = 0; json::Array vars;
    for (gep_type_iterator it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
      Value *idx = it.getOperand();
      if (StructType *st = it.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
      else {
        int64_t es = DL->getTypeAllocSize(it.getIndexedType());
        if (auto *ci = dyn_cast<ConstantInt>(idx)) off += ci->getSExtValue() * es;
        else { json::Array p; p.push_back(opJ(idx)); p.push_back(es); vars.push_back(std::move(p)); }
      }
    }
    // first element of an array member: later steps stay inside the member
    if (auto *at = dyn_cast<ArrayType>(g->getSourceElementType()))
      if (auto *bg = dyn_cast<GetElementPtrInst>(g->getPointerOperand()))
        if (isa<StructType>(bg->getSourceElementType()) && bg->getNumIndices() > 1 && g->getNumIndices() > 1)
          if (auto *z = dyn_cast<ConstantInt>(g->getOperand(1))) if (z->isZero()) o["arr"] = (int64_t)DL->getTypeAllocSize(at);
    o["base"] = opJ(g->getPointerOperand()); o["off"] = off; o["vars"] = std::move(vars);
    return o;
  }
  if (auto *a = dyn_cast<AllocaInst>(&I)) { o["size"] = (int64_t)DL->getTypeAllocSize(a->getAllocatedType()); o["n"] = opJ(a->getArraySize()); return o; }
  if (auto *l = dyn_cast<LoadInst>(&I)) { o["p"] = opJ(l->getPointerOperand()); o["sz"] = (int64_t)DL->getTypeStoreSize(l->getType()); o["vol"] = l->isVolatile(); return o; }
  if (auto *s = dyn_cast<StoreInst>(&I)) { o["v"] = opJ(s->getValueOperand()); o["vty"] = tyJ(s->getValueOperand()->getType()); o["p"] = opJ(s->getPointerOperand()); o["sz"] = (int64_t)DL->getTypeStoreSize(s->getValueOperand()->getType()); return o; }
  if (auto *p = dyn_cast<PHINode>(&I)) { json::Array a; for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { json::Array e; e.push_back(opJ(p->getIncomingValue(i))); e.push_back(ids[p->getIncomingBlock(i)]); a.push_back(std::move(e)); } o["in"] = std::move(a); return o; }
  if (auto *cb = dyn_cast<CallBase>(&I)) {
    if (isa<DbgInfoIntrinsic>(cb)) { o["op"] = "nop"; return o; }
    const Value *cv = cb->getCalledOperand()->stripPointerCasts();
    o["callee"] = opJ(cv); json::Array a, tys;
    for (unsigned i = 0; i < cb->arg_size(); i++) {
      a.push_back(opJ(cb->getArgOperand(i)));
      if (cb->isByValArgument(i)) tys.push_back((int64_t)DL->getTypeAllocSize(cb->getParamByValType(i))); else tys.push_back(0);
    }
    o["args"] = std::move(a); o["byval"] = std::move(tys);
    o["noreturn"] = cb->doesNotReturn(); o["nounwind"] = cb->doesNotThrow();
    if (auto *iv = dyn_cast<InvokeInst>(cb)) { o["normal"] = ids[iv->getNormalDest()]; o["unwind"] = ids[iv->getUnwindDest()]; }
    return o;
  }
  if (auto *c = dyn_cast<CmpInst>(&I)) { o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str(); o["cty"] = tyJ(c->getOperand(0)->getType()); }
  if (auto *b = dyn_cast<BranchInst>(&I)) {
    if (b->isConditional()) { o["c"] = opJ(b->getCondition()); json::Array t; t.push_back(ids[b->getSuccessor(0)]); t.push_back(ids[b->getSuccessor(1)]); o["t"] = std::move(t); }
    else { json::Array t; t.push_back(ids[b->getSuccessor(0)]); o["t"] = std::move(t); }
    return o; }
  if (auto *s = dyn_cast<SwitchInst>(&I)) {
    o["c"] = opJ(s->getCondition()); o["d"] = ids[s->getDefaultDest()]; json::Array cs;
    for (auto &c : s->cases()) { json::Array e; e.push_back(c.getCaseValue()->getSExtValue()); e.push_back(ids[c.getCaseSuccessor()]); cs.push_back(std::move(e)); }
    o["cases"] = std::move(cs); return o; }
  if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (unsigned i : ev->indices()) ix.push_back((int64_t)i); o["ix"] = std::move(ix); }
  if (auto *iv = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (unsigned i : iv->indices()) ix.push_back((int64_t)i); o["ix"] = std::move(ix); }
  if (auto *lp = dyn_cast<LandingPadInst>(&I)) {
    o["cleanup"] = lp->isCleanup(); json::Array cl;
    for (unsigned i = 0; i < lp->getNumClauses(); i++) cl.push_back(lp->isCatch(i) ? opJ(lp->getClause(i)) : json::Value("filter"));
    o["clauses"] = std::move(cl); return o; }
  if (auto *sv = dyn_cast<ShuffleVectorInst>(&I)) { json::Array m; for (int x : sv->getShuffleMask()) m.push_back((int64_t)x); o["mask"] = std::move(m); }
  if (auto *rm = dyn_cast<AtomicRMWInst>(&I)) o["rmw"] = (int64_t)rm->getOperation();
  json::Array ops, oty; for (auto &u : I.operands()) { ops.push_back(opJ(u.get())); if (!isa<BasicBlock>(u.get())) oty.push_back(tyJ(u->getType())); }
  o["ops"] = std::move(ops); o["oty"] = std::move(oty);
  return o;
}
int main(int argc, char **argv) {
  LLVMContext ctx; std::unique_ptr<Module> M;
  for (int i = 1; i < argc; i++) {
    SMDiagnostic err; auto m = parseIRFile(argv[i], err, ctx);
    if (!m) { err.print(argv[0], errs()); return 1; }
    if (!M) M = std::move(m); else if (Linker::linkModules(*M, std::move(m))) return 1;
  }
  DL = &M->getDataLayout();
  json::Object top; json::Object fns, gls;
  for (auto &G : M->globals()) {
    json::Object o; o["const"] = G.isConstant(); o["tls"] = G.isThreadLocal(); o["decl"] = G.isDeclaration();
    o["size"] = (int64_t)DL->getTypeAllocSize(G.getValueType());
    o["dem"] = demangle(G.getName().str());
    SmallVector<DIGlobalVariableExpression *, 1> gd; G.getDebugInfo(gd);
    if (!gd.empty()) { auto *v = gd[0]->getVariable(); if (auto *f = v->getFile()) o["loc"] = f->getFilename().str() + ":" + std::to_string(v->getLine()); }
    if (G.hasInitializer()) { json::Array in; flat(G.getInitializer(), 0, in); o["init"] = std::move(in); }
    gls[G.getName().str()] = std::move(o);
  }
  for (auto &F : *M) {
    json::Object o; o["dem"] = demangle(F.getName().str()); o["decl"] = F.isDeclaration(); o["vararg"] = F.isVarArg();
    o["noreturn"] = F.doesNotReturn(); o["nounwind"] = F.doesNotThrow(); o["ret"] = tyJ(F.getReturnType());
    if (auto *sp = F.getSubprogram()) o["loc"] = sp->getFilename().str() + ":" + std::to_string(sp->getLine());
    if (F.isDeclaration()) { fns[F.getName().str()] = std::move(o); continue; }
    ids.clear(); int n = 0; json::Array args;
    for (auto &A : F.args()) { ids[&A] = n; args.push_back(n++); }
    for (auto &B : F) { ids[&B] = n++; for (auto &I : B) ids[&I] = n++; }
    o["args"] = std::move(args); o["n"] = n; json::Array bs;
    for (auto &B : F) { json::Object b; b["id"] = ids[&B]; json::Array is; for (auto &I : B) is.push_back(instJ(I)); b["i"] = std::move(is); bs.push_back(std::move(b)); }
    o["blocks"] = std::move(bs); fns[F.getName().str()] = std::move(o);
  }
  top["functions"] = std::move(fns); top["globals"] = std::move(gls);
  outs() << json::Value(std::move(top));
  return 0;
}
