// irx: normalises an LLVM module (context-insensitive facts removed by inlining
// every function that is not named as a primitive, then SROA) and dumps the
// resolved program as JSON for the rule engine in /verif/sa.
#include "llvm/ADT/SCCIterator.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Support/MemoryBuffer.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

static std::vector<Regex> keepRe, inlineRe;
static std::string repoPrefix;

static std::vector<Regex> readRe(const std::string &path) {
  std::vector<Regex> out;
  if (path.empty()) return out;
  auto mb = MemoryBuffer::getFile(path);
  if (!mb) { errs() << "cannot read " << path << "\n"; exit(3); }
  SmallVector<StringRef, 64> lines;
  (*mb)->getBuffer().split(lines, '\n', -1, false);
  for (auto l : lines) {
    l = l.trim();
    if (l.empty() || l.starts_with("#")) continue;
    out.emplace_back(l);
  }
  return out;
}
static bool matches(const std::vector<Regex> &v, StringRef s) {
  for (auto &r : v) if (r.match(s)) return true;
  return false;
}
static std::string dem(StringRef n) { return demangle(n.str()); }

static std::string spPath(const DISubprogram *sp) {
  if (!sp) return "";
  std::string d = sp->getDirectory().str(), f = sp->getFilename().str();
  if (!f.empty() && f[0] == '/') return f;
  return d + "/" + f;
}
static bool inRepo(const Function &F) {
  auto *sp = F.getSubprogram();
  if (!sp) return false;
  return StringRef(spPath(sp)).starts_with(repoPrefix);
}

// ---- field names -----------------------------------------------------------
struct FieldInfo { uint64_t off, size; std::string name; const DIType *ty; };
static std::map<std::string, std::vector<FieldInfo>> diFields; // "cyclone::RingBuf"

static std::string scopeName(const DIScope *s) {
  if (!s || isa<DIFile>(s) || isa<DICompileUnit>(s)) return "";
  std::string up = scopeName(s->getScope());
  std::string n = s->getName().str();
  if (n.empty()) n = isa<DINamespace>(s) ? "(anonymous namespace)" : "(anon)";
  return up.empty() ? n : up + "::" + n;
}
static std::string tyDesc(const DIType *t) {
  if (!t) return "void";
  if (auto *d = dyn_cast<DIDerivedType>(t)) {
    switch (d->getTag()) {
    case dwarf::DW_TAG_pointer_type: return tyDesc(d->getBaseType()) + "*";
    case dwarf::DW_TAG_reference_type: return tyDesc(d->getBaseType()) + "&";
    case dwarf::DW_TAG_const_type: case dwarf::DW_TAG_volatile_type: return tyDesc(d->getBaseType());
    case dwarf::DW_TAG_typedef: return scopeName(t) + "=" + tyDesc(d->getBaseType());
    default: return tyDesc(d->getBaseType());
    }
  }
  if (auto *c = dyn_cast<DICompositeType>(t))
    if (c->getTag() == dwarf::DW_TAG_array_type) return tyDesc(c->getBaseType()) + "[]";
  if (isa<DISubroutineType>(t)) return "fn";
  return scopeName(t);
}
static void collectDI(Module &M) {
  DebugInfoFinder F;
  F.processModule(M);
  for (auto *t : F.types()) {
    auto *c = dyn_cast<DICompositeType>(t);
    if (!c) continue;
    if (c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_structure_type && c->getTag() != dwarf::DW_TAG_union_type) continue;
    if (c->isForwardDecl()) continue;
    std::string n = scopeName(c);
    std::vector<FieldInfo> fs;
    for (auto *e : c->getElements()) {
      auto *d = dyn_cast<DIDerivedType>(e);
      if (!d) continue;
      if (d->isStaticMember()) continue;
      if (d->getTag() == dwarf::DW_TAG_member) {
        fs.push_back({d->getOffsetInBits() / 8, d->getSizeInBits() / 8, d->getName().str(), d->getBaseType()});
      } else if (d->getTag() == dwarf::DW_TAG_inheritance) {
        fs.push_back({d->getOffsetInBits() / 8, 0, "(base)" + tyDesc(d->getBaseType()), d->getBaseType()});
      }
    }
    if (!fs.empty() && !diFields.count(n)) diFields[n] = fs;
  }
}
static std::string structKey(StringRef n) {
  // "class.cyclone::RingBuf" / "struct.cyclone::X.12" -> "cyclone::RingBuf"
  if (n.starts_with("class.")) n = n.drop_front(6);
  else if (n.starts_with("struct.")) n = n.drop_front(7);
  else if (n.starts_with("union.")) n = n.drop_front(6);
  if (n.ends_with(".base")) n = n.drop_back(5);
  // trailing ".digits"
  size_t p = n.rfind('.');
  if (p != StringRef::npos && p + 1 < n.size()) {
    bool all = true;
    for (char c : n.substr(p + 1)) if (!isdigit((unsigned char)c)) all = false;
    if (all) n = n.substr(0, p);
  }
  return n.str();
}
static std::string fieldName(StructType *ST, unsigned idx, const DataLayout &DL) {
  uint64_t off = DL.getStructLayout(ST)->getElementOffset(idx);
  std::string key = ST->hasName() ? structKey(ST->getName()) : "";
  auto it = diFields.find(key);
  if (it != diFields.end()) {
    const FieldInfo *best = nullptr;
    for (auto &f : it->second)
      if (f.off == off) { if (!best || (best->size == 0 && f.size > 0) ) best = &f; }
    if (best) return best->name;
  }
  return "f" + std::to_string(idx);
}

// ---- dumping ----------------------------------------------------------------
static std::string tyStr(Type *t) {
  std::string s; raw_string_ostream os(s);
  if (auto *st = dyn_cast<StructType>(t)) { if (st->hasName()) return "%" + st->getName().str(); }
  t->print(os, false, true);
  return os.str();
}

struct Dumper {
  Module &M; const DataLayout &DL;
  std::map<const Value *, int> ids;
  std::map<const BasicBlock *, int> bids;
  std::map<std::string, std::map<uint64_t, std::set<std::string>>> vslots; // typeid -> off -> fns
  Dumper(Module &m) : M(m), DL(m.getDataLayout()) {}

  json::Value op(const Value *v) {
    if (auto *ci = dyn_cast<ConstantInt>(v)) {
      if (ci->getBitWidth() <= 64)
        return json::Array{"c", (int64_t)ci->getSExtValue(), (int64_t)ci->getBitWidth()};
      return json::Array{"u"};
    }
    if (isa<ConstantPointerNull>(v)) return json::Array{"n"};
    if (isa<UndefValue>(v)) return json::Array{"u"};
    if (auto *f = dyn_cast<ConstantFP>(v)) return json::Array{"f", f->getValueAPF().convertToDouble()};
    if (auto *g = dyn_cast<GlobalValue>(v)) return json::Array{"g", g->getName()};
    if (auto *a = dyn_cast<Argument>(v)) return json::Array{"a", (int64_t)a->getArgNo()};
    if (auto *ce = dyn_cast<ConstantExpr>(v)) {
      if (auto *gep = dyn_cast<GEPOperator>(ce)) {
        APInt off(64, 0);
        if (gep->accumulateConstantOffset(DL, off)) {
          return json::Array{"ge", op(gep->getPointerOperand()), (int64_t)off.getSExtValue()};
        }
      }
      json::Array a{"e", ce->getOpcodeName()};
      for (auto &o : ce->operands()) a.push_back(op(o.get()));
      return a;
    }
    if (auto *cst = dyn_cast<Constant>(v)) {
      if (cst->isNullValue()) return json::Array{"z", tyStr(cst->getType())};
      if (isa<ConstantStruct>(cst) || isa<ConstantArray>(cst)) {
        json::Array a{"s"};
        for (auto &o : cst->operands()) a.push_back(op(o.get()));
        return a;
      }
      return json::Array{"k", tyStr(cst->getType())};
    }
    if (isa<InlineAsm>(v)) return json::Array{"asm"};
    if (isa<MetadataAsValue>(v)) return json::Array{"m"};
    if (isa<BasicBlock>(v)) return json::Array{"b", bids[cast<BasicBlock>(v)]};
    auto it = ids.find(v);
    if (it != ids.end()) return json::Array{"v", it->second};
    return json::Array{"?"};
  }
  json::Value loc(const Instruction &I) {
    json::Array a;
    const DILocation *d = I.getDebugLoc().get();
    while (d) {
      auto *sp = d->getScope()->getSubprogram();
      std::string f = d->getFilename().str();
      if (!f.empty() && f[0] != '/') f = d->getDirectory().str() + "/" + f;
      if (StringRef(f).starts_with(repoPrefix)) f = f.substr(repoPrefix.size());
      a.push_back(json::Array{(int64_t)d->getLine(), f, sp ? sp->getName() : ""});
      d = d->getInlinedAt();
    }
    return a;
  }
  json::Value initJ(const Constant *c, int depth = 0) {
    if (depth > 4) return nullptr;
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
      if (cd->isString() && cd->getNumElements() < 4096)
        { std::string s = cd->getAsString().str(); bool raw = false; json::Array by;
          for (auto &ch : s) { by.push_back((int64_t)(unsigned char)ch); if ((unsigned char)ch >= 0x80) { ch='?'; raw = true; } }
          if (raw || s.empty() || s.back() != 0) return json::Object{{"str", s}, {"bytes", std::move(by)}};
          return json::Object{{"str", s}}; }
      json::Array a;
      if (cd->getElementType()->isIntegerTy())
        for (unsigned i = 0; i < cd->getNumElements(); i++) a.push_back((int64_t)cd->getElementAsInteger(i));
      return a;
    }
    if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
      json::Array a;
      for (auto &o : ca->operands()) a.push_back(initJ(cast<Constant>(o.get()), depth + 1));
      return a;
    }
    if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() <= 64) return (int64_t)ci->getSExtValue(); return nullptr; }
    if (isa<ConstantAggregateZero>(c)) return json::Object{{"zero", tyStr(c->getType())}};
    return op(c);
  }

  json::Value gepSteps(const GetElementPtrInst &G) {
    json::Array steps;
    Type *cur = G.getSourceElementType();
    bool first = true;
    for (auto it = G.idx_begin(); it != G.idx_end(); ++it) {
      Value *idx = it->get();
      if (first) {
        first = false;
        if (auto *ci = dyn_cast<ConstantInt>(idx)) { if (ci->isZero()) continue; }
        steps.push_back(json::Array{"x", op(idx), (int64_t)DL.getTypeAllocSize(cur).getFixedValue()});
        continue;
      }
      if (auto *st = dyn_cast<StructType>(cur)) {
        unsigned k = cast<ConstantInt>(idx)->getZExtValue();
        steps.push_back(json::Array{"f", st->hasName() ? structKey(st->getName()) : std::string(""), (int64_t)k,
                                    (int64_t)DL.getStructLayout(st)->getElementOffset(k), fieldName(st, k, DL)});
        cur = st->getElementType(k);
      } else if (auto *at = dyn_cast<ArrayType>(cur)) {
        steps.push_back(json::Array{"x", op(idx), (int64_t)DL.getTypeAllocSize(at->getElementType()).getFixedValue(), (int64_t)at->getNumElements()});
        cur = at->getElementType();
      } else {
        steps.push_back(json::Array{"x", op(idx), 1});
      }
    }
    return steps;
  }

  // virtual call resolution: pattern from -fwhole-program-vtables
  json::Value vcall(const CallBase &CB) {
    auto *ld = dyn_cast<LoadInst>(CB.getCalledOperand());
    if (!ld) return nullptr;
    const Value *p = ld->getPointerOperand();
    uint64_t off = 0;
    if (auto *g = dyn_cast<GetElementPtrInst>(p)) {
      APInt o(64, 0);
      if (!g->accumulateConstantOffset(DL, o)) return nullptr;
      off = o.getZExtValue();
      p = g->getPointerOperand();
    }
    auto *vt = dyn_cast<LoadInst>(p);
    if (!vt) return nullptr;
    for (auto *u : vt->users())
      if (auto *c = dyn_cast<CallInst>(u))
        if (auto *fn = c->getCalledFunction())
          if (fn->getIntrinsicID() == Intrinsic::type_test || fn->getIntrinsicID() == Intrinsic::public_type_test) {
            auto *mv = cast<MetadataAsValue>(c->getArgOperand(1));
            std::string id;
            if (auto *s = dyn_cast<MDString>(mv->getMetadata())) id = s->getString().str();
            json::Array t;
            for (auto &f : vslots[id][off]) t.push_back(f);
            return json::Array{id, (int64_t)off, std::move(t)};
          }
    return nullptr;
  }
  void collectVT() {
    for (auto &G : M.globals()) {
      if (!G.hasInitializer()) continue;
      SmallVector<MDNode *, 4> mds;
      G.getMetadata(LLVMContext::MD_type, mds);
      if (mds.empty()) continue;
      // flatten initializer into offset->fn
      std::map<uint64_t, std::string> slots;
      std::function<void(const Constant *, uint64_t)> walk = [&](const Constant *c, uint64_t off) {
        if (auto *cs = dyn_cast<ConstantStruct>(c)) {
          auto *sl = DL.getStructLayout(cs->getType());
          for (unsigned i = 0; i < cs->getNumOperands(); i++) walk(cs->getOperand(i), off + sl->getElementOffset(i));
        } else if (auto *ca = dyn_cast<ConstantArray>(c)) {
          uint64_t es = DL.getTypeAllocSize(ca->getType()->getElementType());
          for (unsigned i = 0; i < ca->getNumOperands(); i++) walk(ca->getOperand(i), off + i * es);
        } else if (auto *f = dyn_cast<Function>(c->stripPointerCasts()))
          slots[off] = f->getName().str();
      };
      walk(G.getInitializer(), 0);
      for (auto *md : mds) {
        uint64_t base = mdconst::extract<ConstantInt>(md->getOperand(0))->getZExtValue();
        auto *s = dyn_cast<MDString>(md->getOperand(1));
        if (!s) continue;
        for (auto &kv : slots)
          if (kv.first >= base && kv.second != "__cxa_pure_virtual") vslots[s->getString().str()][kv.first - base].insert(kv.second);
      }
    }
  }

  json::Value fn(Function &F) {
    ids.clear(); bids.clear();
    int n = 0, b = 0;
    for (auto &BB : F) { bids[&BB] = b++; for (auto &I : BB) ids[&I] = n++; }
    json::Array blocks;
    std::set<std::string> refs;
    for (auto &BB : F) {
      json::Array ins;
      for (auto &I : BB) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (auto *ii = dyn_cast<IntrinsicInst>(&I)) {
          auto id = ii->getIntrinsicID();
          if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::type_test || id == Intrinsic::public_type_test || id == Intrinsic::assume ||
              id == Intrinsic::experimental_noalias_scope_decl)
            continue;
        }
        json::Object o;
        o["i"] = ids[&I];
        o["op"] = I.getOpcodeName();
        o["ty"] = tyStr(I.getType());
        o["d"] = loc(I);
        for (auto &u : I.operands()) {
          const Value *v = u.get();
          if (isa<Constant>(v)) {
            std::function<void(const Constant *, int)> rec = [&](const Constant *c, int d) {
              if (auto *f = dyn_cast<Function>(c)) { refs.insert(f->getName().str()); return; }
              if (isa<GlobalValue>(c) || d > 6) return;
              for (auto &x : c->operands()) if (auto *cc = dyn_cast<Constant>(x.get())) rec(cc, d + 1);
            };
            rec(cast<Constant>(v), 0);
          }
        }
        if (auto *c = dyn_cast<CallBase>(&I)) {
          json::Array args;
          for (auto &a : c->args()) args.push_back(op(a.get()));
          o["o"] = std::move(args);
          Value *callee = c->getCalledOperand()->stripPointerCasts();
          if (auto *f = dyn_cast<Function>(callee)) o["fn"] = f->getName();
          else { o["fn"] = nullptr; o["fp"] = op(c->getCalledOperand()); o["vc"] = vcall(*c); }
          if (c->doesNotReturn()) o["nr"] = true;
          // sret / byval types are useful
        } else if (auto *p = dyn_cast<PHINode>(&I)) {
          json::Array in;
          for (unsigned k = 0; k < p->getNumIncomingValues(); k++)
            in.push_back(json::Array{op(p->getIncomingValue(k)), bids[p->getIncomingBlock(k)]});
          o["in"] = std::move(in);
        } else if (auto *br = dyn_cast<BranchInst>(&I)) {
          if (br->isConditional()) { o["o"] = json::Array{op(br->getCondition())}; o["t"] = json::Array{bids[br->getSuccessor(0)], bids[br->getSuccessor(1)]}; }
          else o["t"] = json::Array{bids[br->getSuccessor(0)]};
        } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
          o["o"] = json::Array{op(sw->getCondition())};
          json::Array cs;
          for (auto &c : sw->cases()) cs.push_back(json::Array{(int64_t)c.getCaseValue()->getSExtValue(), bids[c.getCaseSuccessor()]});
          o["cases"] = std::move(cs);
          o["def"] = bids[sw->getDefaultDest()];
        } else {
          json::Array a;
          for (auto &u : I.operands()) a.push_back(op(u.get()));
          o["o"] = std::move(a);
          if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
            o["steps"] = gepSteps(*g);
          } else if (auto *cmp = dyn_cast<CmpInst>(&I)) {
            o["p"] = CmpInst::getPredicateName(cmp->getPredicate());
          } else if (auto *al = dyn_cast<AllocaInst>(&I)) {
            o["aty"] = tyStr(al->getAllocatedType());
            o["size"] = (int64_t)DL.getTypeAllocSize(al->getAllocatedType()).getFixedValue();
            o["name"] = al->getName();
          } else if (auto *l = dyn_cast<LoadInst>(&I)) {
            if (l->isAtomic()) o["at"] = toIRString(l->getOrdering());
            if (l->isVolatile()) o["vol"] = true;
          } else if (auto *s = dyn_cast<StoreInst>(&I)) {
            if (s->isAtomic()) o["at"] = toIRString(s->getOrdering());
            o["vty"] = tyStr(s->getValueOperand()->getType());
          } else if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) {
            o["weak"] = cx->isWeak(); o["at"] = toIRString(cx->getSuccessOrdering()); o["fat"] = toIRString(cx->getFailureOrdering());
          } else if (auto *rm = dyn_cast<AtomicRMWInst>(&I)) {
            o["rmw"] = AtomicRMWInst::getOperationName(rm->getOperation()); o["at"] = toIRString(rm->getOrdering());
          } else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
            json::Array ix; for (auto x : ev->indices()) ix.push_back((int64_t)x); o["ix"] = std::move(ix);
          } else if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
            json::Array ix; for (auto x : iv->indices()) ix.push_back((int64_t)x); o["ix"] = std::move(ix);
          } else if (isa<OverflowingBinaryOperator>(I)) {
            if (I.hasNoSignedWrap()) o["nsw"] = true;
            if (I.hasNoUnsignedWrap()) o["nuw"] = true;
          }
          if (isa<CastInst>(I)) o["sty"] = tyStr(I.getOperand(0)->getType());
        }
        ins.push_back(std::move(o));
      }
      blocks.push_back(std::move(ins));
    }
    json::Object o;
    o["dem"] = dem(F.getName());
    auto *sp = F.getSubprogram();
    std::string f = spPath(sp);
    o["repo"] = StringRef(f).starts_with(repoPrefix);
    if (StringRef(f).starts_with(repoPrefix)) f = f.substr(repoPrefix.size());
    o["file"] = f;
    o["line"] = sp ? (int64_t)sp->getLine() : 0;
    json::Array args;
    for (auto &a : F.args()) args.push_back(json::Array{a.getName(), tyStr(a.getType())});
    o["args"] = std::move(args);
    o["ret"] = tyStr(F.getReturnType());
    o["va"] = F.isVarArg();
    o["blocks"] = std::move(blocks);
    json::Array r; for (auto &x : refs) r.push_back(x);
    o["refs"] = std::move(r);
    return o;
  }
  // light: callee list only (library glue)
  json::Value lightFn(Function &F) {
    std::set<std::string> refs;
    for (auto &BB : F) for (auto &I : BB) for (auto &u : I.operands()) {
      const Value *v = u.get();
      if (!isa<Constant>(v)) continue;
      std::function<void(const Constant *, int)> rec = [&](const Constant *c, int d) {
        if (auto *f = dyn_cast<Function>(c)) { refs.insert(f->getName().str()); return; }
        if (isa<GlobalValue>(c) || d > 6) return;
        for (auto &x : c->operands()) if (auto *cc = dyn_cast<Constant>(x.get())) rec(cc, d + 1);
      };
      rec(cast<Constant>(v), 0);
    }
    json::Array r; for (auto &x : refs) r.push_back(x);
    return r;
  }
};

int main(int argc, char **argv) {
  std::string out, keep, inl, full;
  std::vector<std::string> ins;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-o") out = argv[++i];
    else if (a == "--keep") keep = argv[++i];
    else if (a == "--inline") inl = argv[++i];
    else if (a == "--repo") repoPrefix = argv[++i];
    else if (a == "--full") full = argv[++i];
    else ins.push_back(a);
  }
  keepRe = readRe(keep);
  inlineRe = readRe(inl);
  auto fullRe = readRe(full);
  LLVMContext C;
  std::unique_ptr<Module> M;
  for (auto &f : ins) {
    SMDiagnostic e;
    auto m = parseIRFile(f, e, C);
    if (!m) { e.print("irx", errs()); return 2; }
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed: " << f << "\n"; return 2; }
  }
  collectDI(*M);
  // constructor/destructor aliases stand for their target
  {
    std::vector<GlobalAlias *> as;
    for (auto &A : M->aliases()) as.push_back(&A);
    for (auto *A : as)
      if (auto *F = dyn_cast<Function>(A->getAliasee()->stripPointerCasts())) { A->replaceAllUsesWith(F); A->eraseFromParent(); }
  }
  // names of functions in std that we expand
  std::set<Function *> cand;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    F.setComdat(nullptr);
    F.setLinkage(GlobalValue::ExternalLinkage);
    F.setVisibility(GlobalValue::DefaultVisibility);
    F.setDSOLocal(false);
    F.removeFnAttr(Attribute::NoInline);
    F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::AlwaysInline);
    std::string d = dem(F.getName());
    bool c;
    if (matches(keepRe, d)) c = false;
    else if (inRepo(F)) c = true;
    else c = matches(inlineRe, d);
    if (F.isVarArg()) c = false;
    if (c) cand.insert(&F);
  }
  // recursive functions are not inlined
  {
    CallGraph CG(*M);
    for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it) {
      if (it.hasCycle())
        for (auto *n : *it) if (n->getFunction()) cand.erase(n->getFunction());
    }
  }
  auto forwards = [&](Function &L, CallBase *cb) {
    std::string d = dem(L.getName());
    if (d.find("operator()") == std::string::npos || (d.find("{lambda") == std::string::npos && d.find("$_") == std::string::npos && d.find("'lambda") == std::string::npos)) return false;
    for (auto &BB : L) for (auto &I : BB) {
      auto *c = dyn_cast<CallBase>(&I);
      if (!c || c == cb) continue;
      auto *g = c->getCalledFunction();
      if (!g) return false;
      if (!g->isIntrinsic() && dem(g->getName()).rfind("std::", 0) != 0) return false;
    }
    return true;
  };
  // how every function is used before inlining: direct calls / address taken
  StringMap<std::pair<int64_t, int64_t>> uses; StringSet<> fwd;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    int64_t nc = 0, nt = 0;
    for (auto &U : F.uses()) {
      auto *cb = dyn_cast<CallBase>(U.getUser());
      if (cb && cb->isCallee(&U)) nc++; else nt++;
      // a lambda that does nothing but call the function stands for a bound pointer to it
      if (cb && cb->isCallee(&U) && cand.count(&F) && forwards(*cb->getFunction(), cb)) { nt++; fwd.insert(cb->getFunction()->getName()); }
    }
    uses[F.getName()] = {nc, nt};
  }
  Dumper D(*M);
  D.collectVT();
  for (auto *F : cand) F->addFnAttr(Attribute::AlwaysInline);
  // the inliner folds a field access at offset 0 into its base; hide those
  // from it so that the field stays visible
  std::map<std::pair<Type *, unsigned>, Function *> hide;
  std::map<Function *, std::pair<Type *, unsigned>> unhide;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    std::vector<GetElementPtrInst *> gs;
    for (auto &BB : F) for (auto &I : BB)
      if (auto *g = dyn_cast<GetElementPtrInst>(&I))
        if (g->hasAllZeroIndices() && isa<StructType>(g->getSourceElementType()) && g->getNumIndices() > 1 && g->getType()->isPointerTy()) gs.push_back(g);
    for (auto *g : gs) {
      auto key = std::make_pair(g->getSourceElementType(), (unsigned)g->getNumIndices());
      Function *&h = hide[key];
      if (!h) {
        h = Function::Create(FunctionType::get(PointerType::get(C, 0), {PointerType::get(C, 0)}, false), GlobalValue::ExternalLinkage, "__irx.f0." + std::to_string(hide.size()), M.get());
        h->setDoesNotThrow();
        unhide[h] = key;
      }
      auto *c = CallInst::Create(h, {g->getPointerOperand()}, "", g);
      c->setDebugLoc(g->getDebugLoc());
      g->replaceAllUsesWith(c); c->takeName(g);
      g->eraseFromParent();
    }
  }
  auto restore = [&]() {
    for (auto &kv : unhide) {
      std::vector<User *> us(kv.first->user_begin(), kv.first->user_end());
      for (auto *u : us) {
        auto *c = cast<CallInst>(u);
        std::vector<Value *> ix(kv.second.second, ConstantInt::get(Type::getInt32Ty(C), 0));
        auto *g = GetElementPtrInst::CreateInBounds(kv.second.first, c->getArgOperand(0), ix, "", c);
        g->setDebugLoc(c->getDebugLoc());
        c->replaceAllUsesWith(g); g->takeName(c);
        c->eraseFromParent();
      }
      kv.first->eraseFromParent();
    }
  };
  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    MPM.addPass(AlwaysInlinerPass(false));
    MPM.run(*M, MAM);
    restore();
    MAM.clear(); FAM.clear(); CGAM.clear(); LAM.clear();
    ModulePassManager MPM2;
    FunctionPassManager FPM;
    FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
    MPM2.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
    MPM2.run(*M, MAM);
  }
  json::Object root, fns, decls, light, globals, types;
  for (auto &F : *M) {
    if (F.isIntrinsic() && F.isDeclaration()) continue;
    if (F.isDeclaration()) { decls[F.getName().str()] = json::Object{{"dem", dem(F.getName())}, {"va", F.isVarArg()}}; continue; }
    if (inRepo(F) || matches(fullRe, dem(F.getName()))) {
      auto v = D.fn(F);
      auto u = uses.lookup(F.getName());
      (*v.getAsObject())["ncall"] = u.first; (*v.getAsObject())["ntaken"] = u.second; (*v.getAsObject())["cand"] = cand.count(&F) > 0;
      if (fwd.count(F.getName())) (*v.getAsObject())["fwd"] = true;
      fns[F.getName().str()] = std::move(v);
    }
    else light[F.getName().str()] = json::Object{{"dem", dem(F.getName())}, {"refs", D.lightFn(F)}};
  }
  for (auto &G : M->globals()) {
    json::Object o;
    o["const"] = G.isConstant();
    o["ty"] = tyStr(G.getValueType());
    SmallVector<DIGlobalVariableExpression *, 1> gvs; G.getDebugInfo(gvs);
    if (!gvs.empty()) { o["name"] = gvs[0]->getVariable()->getName(); auto f = gvs[0]->getVariable()->getFilename().str(); 
       if (StringRef(f).starts_with(repoPrefix)) f = f.substr(repoPrefix.size()); o["file"] = f; o["line"] = (int64_t)gvs[0]->getVariable()->getLine(); }
    if (G.hasInitializer()) o["init"] = D.initJ(G.getInitializer());
    globals[G.getName().str()] = std::move(o);
  }
  for (auto &kv : diFields) {
    if (StringRef(kv.first).starts_with("std::") || StringRef(kv.first).starts_with("__gnu")) continue;
    json::Array a;
    for (auto &f : kv.second) a.push_back(json::Array{(int64_t)f.off, (int64_t)f.size, f.name, tyDesc(f.ty)});
    types[kv.first] = std::move(a);
  }
  root["functions"] = std::move(fns); root["decls"] = std::move(decls); root["light"] = std::move(light);
  root["globals"] = std::move(globals); root["types"] = std::move(types);
  std::error_code ec;
  raw_fd_ostream os(out, ec);
  if (ec) { errs() << ec.message() << "\n"; return 2; }
  os << json::Value(std::move(root));
  return 0;
}
