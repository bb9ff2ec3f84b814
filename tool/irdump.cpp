// irdump: whole-program LLVM IR -> JSON for the maf static checks.
// usage: irdump in.bc out.json
#include "llvm/ADT/SmallString.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static std::string esc(StringRef s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 0x20) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else if (c >= 0x80) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
static Module *M;
static const DataLayout *DL;
static std::map<const Metadata *, int> typeIds;
static std::vector<std::string> typeOut;

static std::string scopeName(const DIScope *s) {
  if (!s || isa<DIFile>(s) || isa<DICompileUnit>(s)) return "";
  std::string p = scopeName(s->getScope());
  std::string n = s->getName().str();
  if (isa<DINamespace>(s) && n.empty()) n = "(anonymous namespace)";
  if (auto *ns = dyn_cast<DINamespace>(s)) if (ns->getExportSymbols()) return p; // inline ns
  if (n.empty()) n = "(anon)";
  return p.empty() ? n : p + "::" + n;
}
static int typeId(const DIType *t) {
  while (t) {
    if (auto *d = dyn_cast<DIDerivedType>(t)) {
      auto tag = d->getTag();
      if (tag == dwarf::DW_TAG_typedef || tag == dwarf::DW_TAG_const_type || tag == dwarf::DW_TAG_volatile_type ||
          tag == dwarf::DW_TAG_atomic_type || tag == dwarf::DW_TAG_restrict_type) { t = d->getBaseType(); continue; }
    }
    break;
  }
  if (!t) return -1;
  auto it = typeIds.find(t);
  if (it != typeIds.end()) return it->second;
  // unify by identifier
  static std::map<std::string, int> byIdent;
  if (auto *c = dyn_cast<DICompositeType>(t)) {
    std::string id = c->getIdentifier().str();
    if (!id.empty()) {
      if (c->isForwardDecl()) id = "fwd:" + id;
      auto j = byIdent.find(id);
      if (j != byIdent.end()) { typeIds[t] = j->second; return j->second; }
      byIdent[id] = typeOut.size();
    }
  }
  int id = typeOut.size();
  typeIds[t] = id;
  typeOut.push_back("");
  std::string o;
  if (auto *b = dyn_cast<DIBasicType>(t)) {
    o = "{\"k\":\"basic\",\"n\":" + esc(b->getName()) + ",\"s\":" + std::to_string(b->getSizeInBits() / 8) +
        ",\"u\":" + (b->getEncoding() == dwarf::DW_ATE_unsigned || b->getEncoding() == dwarf::DW_ATE_unsigned_char ? "1" : "0") + "}";
  } else if (auto *d = dyn_cast<DIDerivedType>(t)) {
    o = "{\"k\":\"ptr\",\"tag\":" + esc(dwarf::TagString(d->getTag())) + ",\"s\":8,\"to\":" + std::to_string(typeId(d->getBaseType())) + "}";
  } else if (auto *c = dyn_cast<DICompositeType>(t)) {
    std::string nm = scopeName(c->getScope());
    std::string own = c->getName().str();
    if (own.empty()) own = "(anon:" + std::to_string(c->getLine()) + ")";
    nm = nm.empty() ? own : nm + "::" + own;
    o = "{\"k\":";
    if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
      o += "\"enum\",\"n\":" + esc(nm) + ",\"s\":" + std::to_string(c->getSizeInBits() / 8) + ",\"e\":{";
      bool f = true;
      for (auto *e : c->getElements()) if (auto *en = dyn_cast_or_null<DIEnumerator>(e)) {
        if (!f) o += ","; f = false;
        SmallString<32> sv; en->getValue().toString(sv, 10, en->isUnsigned() ? false : true);
        o += esc(en->getName()) + ":" + std::string(sv);
      }
      o += "}}";
    } else if (c->getTag() == dwarf::DW_TAG_array_type) {
      o += "\"array\",\"s\":" + std::to_string(c->getSizeInBits() / 8) + ",\"to\":" + std::to_string(typeId(c->getBaseType())) + "}";
    } else {
      o += "\"class\",\"n\":" + esc(nm) + ",\"id\":" + esc(c->getIdentifier()) + ",\"s\":" + std::to_string(c->getSizeInBits() / 8) +
           ",\"fwd\":" + (c->isForwardDecl() ? "1" : "0") + ",\"union\":" + (c->getTag() == dwarf::DW_TAG_union_type ? "1" : "0") +
           ",\"file\":" + esc(c->getFilename()) + ",\"line\":" + std::to_string(c->getLine()) + ",\"m\":[";
      bool f = true;
      std::string methods;
      for (auto *e : c->getElements()) {
        if (auto *m = dyn_cast_or_null<DIDerivedType>(e)) {
          if (m->getTag() == dwarf::DW_TAG_member && !m->isStaticMember()) {
            if (!f) o += ","; f = false;
            o += "[" + esc(m->getName()) + "," + std::to_string(m->getOffsetInBits() / 8) + "," + std::to_string(typeId(m->getBaseType())) + "]";
          } else if (m->getTag() == dwarf::DW_TAG_inheritance) {
            if (!f) o += ","; f = false;
            o += "[\"<base>\"," + std::to_string(m->getOffsetInBits() / 8) + "," + std::to_string(typeId(m->getBaseType())) + "]";
          }
        } else if (auto *sp = dyn_cast_or_null<DISubprogram>(e)) {
          if (!methods.empty()) methods += ",";
          const char *acc = sp->isPrivate() ? "private" : sp->isProtected() ? "protected" : sp->isPublic() ? "public" : "default";
          methods += "[" + esc(sp->getName()) + "," + esc(sp->getLinkageName()) + "," + esc(acc) + "," + (sp->isDeleted() ? "1" : "0") + "," + (sp->getVirtuality() ? "1" : "0") + "]";
        }
      }
      o += "],\"methods\":[" + methods + "],\"ta\":[";
      f = true;
      for (auto *p : c->getTemplateParams()) if (auto *tp = dyn_cast_or_null<DITemplateTypeParameter>(p)) {
        if (!f) o += ","; f = false;
        o += std::to_string(typeId(tp->getType()));
      }
      o += "],\"struct\":" + std::string(c->getTag() == dwarf::DW_TAG_structure_type ? "1" : "0") + "}";
    }
  } else {
    o = "{\"k\":\"fn\",\"s\":0}";
  }
  typeOut[id] = o;
  return id;
}

struct FnDump {
  Function &F;
  std::map<const Value *, int> ids;
  std::map<const BasicBlock *, int> bbs;
  std::map<const Value *, std::pair<int, std::string>> dbgTy;  // alloca/arg by declare
  std::map<const Value *, std::pair<int, std::string>> dbgVal; // args by value
  explicit FnDump(Function &f) : F(f) {}

  std::string cst(const Constant *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
      SmallString<32> s;
      if (ci->getBitWidth() == 1) return ci->isZero() ? "[\"c\",0]" : "[\"c\",1]";
      if (ci->getBitWidth() > 64) return "[\"u\"]";
      ci->getValue().toStringSigned(s);
      return "[\"c\"," + std::string(s) + "]";
    }
    if (isa<ConstantPointerNull>(c)) return "[\"c\",0]";
    if (auto *f = dyn_cast<Function>(c)) return "[\"f\"," + esc(f->getName()) + "]";
    if (auto *a = dyn_cast<GlobalAlias>(c)) return cst(a->getAliasee());
    if (auto *g = dyn_cast<GlobalVariable>(c)) return "[\"g\"," + esc(g->getName()) + ",0]";
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      if (ce->getOpcode() == Instruction::GetElementPtr) {
        APInt off(64, 0);
        if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) {
          auto *base = ce->getOperand(0);
          if (auto *g = dyn_cast<GlobalVariable>(base)) return "[\"g\"," + esc(g->getName()) + "," + std::to_string(off.getSExtValue()) + "]";
        }
      }
      if (ce->isCast()) return cst(ce->getOperand(0));
    }
    if (isa<ConstantFP>(c)) return "[\"fp\"]";
    if (isa<UndefValue>(c)) return "[\"u\"]";
    if (auto *za = dyn_cast<ConstantAggregateZero>(c)) { (void)za; return "[\"z\"]"; }
    if (auto *ag = dyn_cast<ConstantStruct>(c)) {
      std::string o = "[\"s\"";
      for (unsigned i = 0; i < ag->getNumOperands(); i++) o += "," + cst(ag->getOperand(i));
      return o + "]";
    }
    return "[\"u\"]";
  }
  std::string v(const Value *x) {
    if (auto *c = dyn_cast<Constant>(x)) return cst(c);
    auto it = ids.find(x);
    if (it != ids.end()) return std::to_string(it->second);
    return "[\"u\"]";
  }
  static int sz(Type *t) { return t->isSized() ? (int)DL->getTypeStoreSize(t).getFixedValue() : 0; }
  static const char *kind(Type *t) { return t->isPointerTy() ? "p" : t->isIntegerTy() ? "i" : t->isFloatingPointTy() ? "f" : "a"; }

  void collectDbg() {
    for (auto &I : instructions(F)) {
      if (auto *d = dyn_cast<DbgDeclareInst>(&I)) {
        if (auto *a = d->getAddress()) { auto *va = d->getVariable(); 
          if (d->getExpression()->getNumElements()==0) dbgTy[a] = {typeId(va->getType()), va->getName().str()}; }
      } else if (auto *d = dyn_cast<DbgValueInst>(&I)) {
        if (d->getNumVariableLocationOps() == 1) if (auto *a = d->getValue()) if (isa<Argument>(a) && !dbgVal.count(a) && d->getExpression()->getNumElements() == 0)
          if (d->getVariable()->getArg() != 0 && d->getVariable()->getScope()->getSubprogram() == F.getSubprogram())
            dbgVal[a] = {typeId(d->getVariable()->getType()), d->getVariable()->getName().str()};
      }
    }
  }
  std::string loc(const Instruction &I) {
    if (auto &dl = I.getDebugLoc()) return std::to_string(dl.getLine());
    return "0";
  }
  // file of debugloc differs from function's only with macros/inlines; ignore.

  std::string dump(raw_ostream &os) {
    collectDbg();
    int n = 0;
    std::string o = "{";
    std::string dem = demangle(F.getName().str());
    o += "\"d\":" + esc(dem);
    auto *sp = F.getSubprogram();
    if (sp) {
      o += ",\"file\":" + esc(sp->getFilename()) + ",\"line\":" + std::to_string(sp->getLine());
      o += ",\"n\":" + esc(sp->getName());
      const DISubprogram *decl = sp->getDeclaration();
      const DIScope *sc = decl ? decl->getScope() : sp->getScope();
      if (auto *ct = dyn_cast_or_null<DICompositeType>(sc)) o += ",\"cls\":" + std::to_string(typeId(ct));
      const DISubprogram *ad = decl ? decl : sp;
      o += std::string(",\"acc\":") + (ad->isPrivate() ? "\"private\"" : ad->isProtected() ? "\"protected\"" : ad->isPublic() ? "\"public\"" : "\"default\"");
      if (auto *st = sp->getType()) {
        o += ",\"dty\":[";
        bool f = true;
        for (auto *t : st->getTypeArray()) { if (!f) o += ","; f = false; o += std::to_string(typeId(t)); }
        o += "]";
      }
    }
    o += std::string(",\"nounwind\":") + (F.doesNotThrow() ? "1" : "0") + ",\"noret\":" + (F.doesNotReturn() ? "1" : "0") +
         ",\"internal\":" + (F.hasLocalLinkage() ? "1" : "0") + ",\"taken\":" + (F.hasAddressTaken(nullptr, false, true) ? "1" : "0");
    o += ",\"va\":" + std::string(F.isVarArg() ? "1" : "0");
    o += ",\"args\":[";
    bool f = true;
    for (auto &A : F.args()) {
      ids[&A] = n++;
      if (!f) o += ","; f = false;
      int t = -1; std::string nm; int ind = 0;
      if (dbgVal.count(&A)) { t = dbgVal[&A].first; nm = dbgVal[&A].second; }
      else if (dbgTy.count(&A)) { t = dbgTy[&A].first; nm = dbgTy[&A].second; ind = 1; }
      o += "[" + std::to_string(t) + "," + std::to_string(ind) + "," + esc(nm) + "," + (A.hasStructRetAttr() ? "1" : "0") + "," + (A.hasByValAttr() ? "1" : "0") + "," + esc(kind(A.getType())) + "," +
           (A.onlyReadsMemory() ? "1" : "0") + "]";
    }
    o += "]";
    if (F.isDeclaration()) return o + "}";
    int b = 0;
    for (auto &B : F) { bbs[&B] = b++; for (auto &I : B) if (!I.getType()->isVoidTy()) ids[&I] = n++; }
    o += ",\"nv\":" + std::to_string(n) + ",\"b\":[";
    bool fb = true;
    for (auto &B : F) {
      if (!fb) o += ","; fb = false;
      o += "[";
      bool fi = true;
      for (auto &I : B) {
        std::string s = inst(I);
        if (s.empty()) continue;
        if (!fi) o += ",\n"; fi = false;
        o += s;
      }
      o += "]";
    }
    o += "]}";
    return o;
  }
  std::string D(const Instruction &I) { return I.getType()->isVoidTy() ? "-1" : std::to_string(ids[&I]); }
  std::string BB(const BasicBlock *b) { return std::to_string(bbs[b]); }

  std::string gepParts(const GEPOperator *g) {
    int64_t off = 0; std::string dyn;
    for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
      Value *idx = gi.getOperand();
      if (auto *st = gi.getStructTypeOrNull()) {
        off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
      } else {
        int64_t stride = DL->getTypeAllocSize(gi.getIndexedType());
        if (auto *ci = dyn_cast<ConstantInt>(idx)) off += ci->getSExtValue() * stride;
        else { if (!dyn.empty()) dyn += ","; dyn += "[" + v(idx) + "," + std::to_string(stride) + "]"; }
      }
    }
    return std::to_string(off) + ",[" + dyn + "]";
  }

  // vtable call recognition
  std::string vtargets(const CallBase &CB) {
    auto *ld = dyn_cast<LoadInst>(CB.getCalledOperand()->stripPointerCasts());
    if (!ld) return "";
    const Value *p = ld->getPointerOperand();
    APInt off(64, 0);
    const Value *base = p->stripAndAccumulateConstantOffsets(*DL, off, true);
    auto *vt = dyn_cast<LoadInst>(base);
    if (!vt) return "";
    std::string tid; bool found = false;
    for (auto *U : vt->users()) if (auto *c = dyn_cast<CallInst>(U)) if (auto *cf = c->getCalledFunction())
      if (cf->getName().starts_with("llvm.type.test") || cf->getName().starts_with("llvm.public.type.test")) {
        auto *md = cast<MetadataAsValue>(c->getArgOperand(1))->getMetadata();
        if (auto *ms = dyn_cast<MDString>(md)) { tid = ms->getString().str(); found = true; }
      }
    if (!found) return "";
    std::string o = "," + esc(tid) + "," + std::to_string(off.getSExtValue()) + ",[";
    std::set<std::string> tg;
    for (auto &G : M->globals()) {
      SmallVector<MDNode *, 4> ts; G.getMetadata(LLVMContext::MD_type, ts);
      for (auto *t : ts) {
        auto *ms = dyn_cast<MDString>(t->getOperand(1));
        if (!ms || ms->getString() != tid) continue;
        uint64_t o2 = mdconst::extract<ConstantInt>(t->getOperand(0))->getZExtValue() + off.getSExtValue();
        if (!G.hasInitializer()) continue;
        Constant *c = G.getInitializer();
        // struct of arrays of ptr
        if (auto *cs = dyn_cast<ConstantStruct>(c)) {
          auto *sl = DL->getStructLayout(cs->getType());
          unsigned e = sl->getElementContainingOffset(o2);
          uint64_t rem = o2 - sl->getElementOffset(e);
          c = cs->getOperand(e);
          if (auto *ca = dyn_cast<ConstantArray>(c)) {
            unsigned k = rem / 8;
            if (k < ca->getNumOperands()) {
              auto *fn = ca->getOperand(k)->stripPointerCasts();
              if (auto *f = dyn_cast<Function>(fn)) { if (f->getName() != "__cxa_pure_virtual") tg.insert(f->getName().str()); }
              else if (auto *al = dyn_cast<GlobalAlias>(fn)) tg.insert(al->getAliaseeObject()->getName().str());
            }
          }
        }
      }
    }
    bool f = true;
    for (auto &s : tg) { if (!f) o += ","; f = false; o += esc(s); }
    return o + "]";
  }

  std::string inst(Instruction &I) {
    std::string L = loc(I);
    if (isa<DbgInfoIntrinsic>(I)) return "";
    if (auto *a = dyn_cast<AllocaInst>(&I)) {
      int t = -1; std::string nm;
      if (dbgTy.count(a)) { t = dbgTy[a].first; nm = dbgTy[a].second; }
      return "[\"al\"," + D(I) + "," + std::to_string(sz(a->getAllocatedType())) + "," + std::to_string(t) + "," + esc(nm) + "," + L + "]";
    }
    if (auto *l = dyn_cast<LoadInst>(&I))
      return "[\"ld\"," + D(I) + "," + v(l->getPointerOperand()) + "," + std::to_string(sz(l->getType())) + "," + esc(kind(l->getType())) + "," + (l->isAtomic() ? "1" : "0") + "," + L + "]";
    if (auto *s = dyn_cast<StoreInst>(&I))
      return "[\"st\",-1," + v(s->getPointerOperand()) + "," + v(s->getValueOperand()) + "," + std::to_string(sz(s->getValueOperand()->getType())) + "," + (s->isAtomic() ? "1" : "0") + "," + L + "]";
    if (auto *g = dyn_cast<GetElementPtrInst>(&I))
      return "[\"gep\"," + D(I) + "," + v(g->getPointerOperand()) + "," + gepParts(cast<GEPOperator>(g)) + "," + L + "]";
    if (auto *cb = dyn_cast<CallBase>(&I)) {
      auto *cal = cb->getCalledOperand()->stripPointerCasts();
      if (auto *al = dyn_cast<GlobalAlias>(cal)) cal = const_cast<GlobalObject*>(al->getAliaseeObject());
      std::string callee, vt;
      if (auto *f = dyn_cast<Function>(cal)) {
        if (f->getName().starts_with("llvm.lifetime.end")) return "[\"lend\",-1," + v(cb->getArgOperand(1)) + "," + L + "]";
        if (f->getName().starts_with("llvm.lifetime") || f->getName().starts_with("llvm.dbg") || f->getName().starts_with("llvm.assume") || f->getName().starts_with("llvm.type.test") || f->getName().starts_with("llvm.public.type") || f->getName().starts_with("llvm.experimental.noalias"))
          return "";
        callee = esc(f->getName());
      } else { callee = v(cal); vt = vtargets(*cb); }
      std::string o = "[\"call\"," + D(I) + "," + callee + ",[";
      bool f = true;
      for (auto &A : cb->args()) { if (!f) o += ","; f = false; 
        if (isa<MetadataAsValue>(A)) o += "[\"u\"]"; else o += v(A); }
      o += "]," + std::string(cb->doesNotThrow() ? "1" : "0");
      if (auto *iv = dyn_cast<InvokeInst>(cb)) o += "," + BB(iv->getNormalDest()) + "," + BB(iv->getUnwindDest());
      else o += ",-1,-1";
      o += "," + L + "," + std::to_string(sz(I.getType())) + "," + (I.getType()->isVoidTy() ? "\"v\"" : esc(kind(I.getType())));
      return o + (vt.empty() ? "" : ",[0" + vt + "]") + "]";
    }
    if (auto *b = dyn_cast<BranchInst>(&I)) {
      if (b->isConditional()) return "[\"cbr\",-1," + v(b->getCondition()) + "," + BB(b->getSuccessor(0)) + "," + BB(b->getSuccessor(1)) + "," + L + "]";
      return "[\"br\",-1," + BB(b->getSuccessor(0)) + "," + L + "]";
    }
    if (auto *s = dyn_cast<SwitchInst>(&I)) {
      std::string o = "[\"sw\",-1," + v(s->getCondition()) + "," + BB(s->getDefaultDest()) + ",[";
      bool f = true;
      for (auto &c : s->cases()) { if (!f) o += ","; f = false; o += "[" + std::to_string(c.getCaseValue()->getSExtValue()) + "," + BB(c.getCaseSuccessor()) + "]"; }
      return o + "]," + L + "]";
    }
    if (auto *r = dyn_cast<ReturnInst>(&I)) return "[\"ret\",-1," + (r->getReturnValue() ? v(r->getReturnValue()) : "null") + "," + L + "]";
    if (isa<ResumeInst>(I)) return "[\"resume\",-1," + v(I.getOperand(0)) + "," + L + "]";
    if (isa<UnreachableInst>(I)) return "[\"unreach\",-1," + L + "]";
    if (auto *p = dyn_cast<PHINode>(&I)) {
      std::string o = "[\"phi\"," + D(I) + ",[";
      for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { if (i) o += ","; o += "[" + v(p->getIncomingValue(i)) + "," + BB(p->getIncomingBlock(i)) + "]"; }
      return o + "]," + L + "]";
    }
    if (auto *c = dyn_cast<ICmpInst>(&I))
      return "[\"icmp\"," + D(I) + "," + esc(CmpInst::getPredicateName(c->getPredicate())) + "," + v(c->getOperand(0)) + "," + v(c->getOperand(1)) + "," + L + "]";
    if (auto *c = dyn_cast<FCmpInst>(&I))
      return "[\"bin\"," + D(I) + ",\"fcmp_" + CmpInst::getPredicateName(c->getPredicate()).str() + "\"," + v(c->getOperand(0)) + "," + v(c->getOperand(1)) + "," + L + "]";
    if (auto *b = dyn_cast<BinaryOperator>(&I))
      return "[\"bin\"," + D(I) + "," + esc(b->getOpcodeName()) + "," + v(b->getOperand(0)) + "," + v(b->getOperand(1)) + "," + L + "]";
    if (auto *c = dyn_cast<CastInst>(&I)) {
      int sb = c->getSrcTy()->isIntegerTy() ? c->getSrcTy()->getIntegerBitWidth() : 64, db = c->getDestTy()->isIntegerTy() ? c->getDestTy()->getIntegerBitWidth() : 64;
      return "[\"cast\"," + D(I) + "," + esc(c->getOpcodeName()) + "," + v(c->getOperand(0)) + "," + std::to_string(sb) + "," + std::to_string(db) + "," + L + "]";
    }
    if (auto *s = dyn_cast<SelectInst>(&I))
      return "[\"sel\"," + D(I) + "," + v(s->getCondition()) + "," + v(s->getTrueValue()) + "," + v(s->getFalseValue()) + "," + L + "]";
    if (auto *e = dyn_cast<ExtractValueInst>(&I)) {
      std::string o = "[\"ev\"," + D(I) + "," + v(e->getAggregateOperand()) + ",[";
      bool f = true; for (auto i : e->indices()) { if (!f) o += ","; f = false; o += std::to_string(i); }
      return o + "]," + L + "]";
    }
    if (auto *e = dyn_cast<InsertValueInst>(&I)) {
      std::string o = "[\"iv\"," + D(I) + "," + v(e->getAggregateOperand()) + "," + v(e->getInsertedValueOperand()) + ",[";
      bool f = true; for (auto i : e->indices()) { if (!f) o += ","; f = false; o += std::to_string(i); }
      return o + "]," + L + "]";
    }
    if (auto *lp = dyn_cast<LandingPadInst>(&I)) {
      std::string o = "[\"lp\"," + D(I) + "," + (lp->isCleanup() ? "1" : "0") + ",[";
      for (unsigned i = 0; i < lp->getNumClauses(); i++) {
        if (i) o += ",";
        auto *c = lp->getClause(i);
        if (auto *g = dyn_cast<GlobalValue>(c->stripPointerCasts())) o += esc(g->getName()); else o += "\"*\"";
      }
      return o + "]," + L + "]";
    }
    if (auto *a = dyn_cast<AtomicCmpXchgInst>(&I))
      return "[\"cas\"," + D(I) + "," + v(a->getPointerOperand()) + "," + v(a->getCompareOperand()) + "," + v(a->getNewValOperand()) + "," + L + "]";
    if (auto *a = dyn_cast<AtomicRMWInst>(&I))
      return "[\"rmw\"," + D(I) + "," + esc(AtomicRMWInst::getOperationName(a->getOperation())) + "," + v(a->getPointerOperand()) + "," + v(a->getValOperand()) + "," + L + "]";
    if (isa<FreezeInst>(I)) return "[\"cast\"," + D(I) + ",\"freeze\"," + v(I.getOperand(0)) + ",64,64," + L + "]";
    if (isa<FenceInst>(I)) return "";
    if (isa<UnaryOperator>(I)) return "[\"bin\"," + D(I) + ",\"neg\"," + v(I.getOperand(0)) + ",[\"u\"]," + L + "]";
    if (I.getType()->isVoidTy()) return "";
    return "[\"unk\"," + D(I) + "," + L + "]";
  }
};

int main(int argc, char **argv) {
  LLVMContext C; SMDiagnostic E;
  auto m = parseIRFile(argv[1], E, C);
  if (!m) { E.print(argv[0], errs()); return 2; }
  M = m.get(); DL = &M->getDataLayout();
  std::error_code ec;
  raw_fd_ostream os(argv[2], ec);
  os << "{\"fns\":{\n";
  bool first = true;
  for (auto &F : *M) {
    if (F.getName().starts_with("llvm.dbg") ) continue;
    if (!first) os << ",\n"; first = false;
    FnDump d(F);
    os << esc(F.getName()) << ":" << d.dump(os);
  }
  os << "},\n\"globals\":{";
  first = true;
  for (auto &G : M->globals()) {
    SmallVector<DIGlobalVariableExpression *, 1> ge; G.getDebugInfo(ge);
    bool tls = G.isThreadLocal();
    bool rtti = G.getName().starts_with("_ZTI") || G.getName().starts_with("_ZTV");
    if (ge.empty() && !rtti && G.getName().starts_with(".str")) continue;
    if (!first) os << ",\n"; first = false;
    os << esc(G.getName()) << ":{\"tls\":" << (tls ? 1 : 0) << ",\"const\":" << (G.isConstant() ? 1 : 0) << ",\"d\":" << esc(demangle(G.getName().str()));
    if (!ge.empty()) { auto *v = ge[0]->getVariable(); os << ",\"n\":" << esc(v->getName()) << ",\"t\":" << typeId(v->getType()) << ",\"line\":" << v->getLine() << ",\"file\":" << esc(v->getFilename()); }
    if (G.hasInitializer()) {
      if (auto *ci = dyn_cast<ConstantInt>(G.getInitializer())) os << ",\"i\":" << ci->getSExtValue();
      else if (G.getInitializer()->isNullValue()) os << ",\"i\":0";
      if (G.getName().starts_with("_ZTI")) { // bases
        os << ",\"refs\":["; bool f = true;
        if (auto *cs = dyn_cast<ConstantStruct>(G.getInitializer()))
          for (auto &op : cs->operands()) if (auto *g = dyn_cast<GlobalVariable>(op->stripPointerCasts())) if (g->getName().starts_with("_ZTI")) { if (!f) os << ","; f = false; os << esc(g->getName()); }
        os << "]";
      }
      if (G.getName().starts_with("_ZTV")) {
        os << ",\"vfns\":["; bool f = true;
        if (auto *cs = dyn_cast<ConstantStruct>(G.getInitializer()))
          for (auto &op : cs->operands()) if (auto *ca = dyn_cast<ConstantArray>(op)) for (auto &e : ca->operands()) {
            if (auto *fn = dyn_cast<Function>(e->stripPointerCasts())) { if (!f) os << ","; f = false; os << esc(fn->getName()); }
          }
        os << "]";
      }
    }
    os << "}";
  }
  os << "},\n\"strings\":{";
  first = true;
  for (auto &G : M->globals()) {
    if (!G.getName().starts_with(".str") || !G.hasInitializer()) continue;
    std::string v;
    if (auto *cd = dyn_cast<ConstantDataSequential>(G.getInitializer())) {
      if (!cd->isCString() || cd->getAsCString().size() > 200) continue;
      v = cd->getAsCString().str();
    } else if (!isa<ConstantAggregateZero>(G.getInitializer())) continue;
    if (!first) os << ",\n"; first = false;
    os << esc(G.getName()) << ":" << esc(v);
  }
  os << "},\n\"types\":[";
  for (size_t i = 0; i < typeOut.size(); i++) { if (i) os << ",\n"; os << typeOut[i]; }
  os << "]}\n";
  return 0;
}
