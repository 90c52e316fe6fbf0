// Dumps a normalised view of selected functions of an LLVM module as JSON.
//
//   irdump IN.bc OUT.json --roots f,g,... --keep h,i,...  [--all-roots-defined]
//
// Every defined function that is not in the keep set (and is not recursive) is inlined into the
// roots, calls through pointers that become constant are resolved and inlined too, and locals are
// promoted to SSA values. Loads, stores and memory intrinsics keep the struct field they were
// written against in the source (metadata "a0f"), whatever the later passes do to the address.
#include <llvm/ADT/SCCIterator.h>
#include <llvm/ADT/SmallPtrSet.h>
#include <llvm/Analysis/CallGraph.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Utils/BasicBlockUtils.h>
#include <llvm/Transforms/Utils/Cloning.h>
#include <llvm/Transforms/Utils/Local.h>

#include <map>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

static std::set<std::string> split(StringRef s) {
  std::set<std::string> out;
  SmallVector<StringRef, 64> parts;
  s.split(parts, ',', -1, false);
  for (auto p : parts) out.insert(p.str());
  return out;
}

static std::string structName(Type* t) {
  auto* st = dyn_cast<StructType>(t);
  if (!st || !st->hasName()) return "";
  StringRef n = st->getName();
  if (n.starts_with("struct.")) n = n.drop_front(7);
  else if (n.starts_with("class.")) n = n.drop_front(6);
  else if (n.starts_with("union.")) n = n.drop_front(6);
  // Drop the ".123" suffix the linker adds to duplicates.
  size_t dot = n.rfind('.');
  if (dot != StringRef::npos && dot + 1 < n.size() &&
      n.drop_front(dot + 1).find_first_not_of("0123456789") == StringRef::npos)
    n = n.take_front(dot);
  return n.str();
}

static const DataLayout* DL;

// Field chain of an address: outermost first, "struct@byteoffset" joined by "/".
static std::string fieldChain(Value* p) {
  std::string chain;
  while (auto* g = dyn_cast<GEPOperator>(p)) {
    std::string here;
    Type* cur = g->getSourceElementType();
    unsigned n = 0;
    for (auto it = g->idx_begin(); it != g->idx_end(); ++it, ++n) {
      if (n == 0) continue;
      if (auto* st = dyn_cast<StructType>(cur)) {
        unsigned f = cast<ConstantInt>(*it)->getZExtValue();
        if (!here.empty()) here += "/";
        here += structName(st) + "@" + std::to_string(DL->getStructLayout(st)->getElementOffset(f).getFixedValue());
        cur = st->getElementType(f);
      } else if (auto* at = dyn_cast<ArrayType>(cur)) {
        cur = at->getElementType();
      }
    }
    if (!here.empty()) chain = chain.empty() ? here : here + "/" + chain;
    p = g->getPointerOperand();
  }
  return chain;
}

static void annotate(Module& m) {
  auto& ctx = m.getContext();
  for (auto& f : m)
    for (auto& i : instructions(f)) {
      auto tag = [&](Value* p, const char* kind) {
        std::string c = fieldChain(p);
        if (!c.empty()) i.setMetadata(kind, MDNode::get(ctx, MDString::get(ctx, c)));
      };
      if (auto* l = dyn_cast<LoadInst>(&i)) tag(l->getPointerOperand(), "a0f");
      else if (auto* s = dyn_cast<StoreInst>(&i)) tag(s->getPointerOperand(), "a0f");
      else if (auto* a = dyn_cast<AtomicRMWInst>(&i)) tag(a->getPointerOperand(), "a0f");
      else if (auto* a = dyn_cast<AtomicCmpXchgInst>(&i)) tag(a->getPointerOperand(), "a0f");
      else if (isa<GetElementPtrInst>(i)) tag(&i, "a0f");
      else if (auto* mi = dyn_cast<MemIntrinsic>(&i)) {
        tag(mi->getDest(), "a0f");
        if (auto* mt = dyn_cast<MemTransferInst>(&i)) tag(mt->getSource(), "a0s");
      } else if (auto* cb = dyn_cast<CallBase>(&i)) {
        std::string all;
        bool any = false;
        for (unsigned k = 0; k < cb->arg_size(); k++) {
          std::string c = cb->getArgOperand(k)->getType()->isPointerTy() ? fieldChain(cb->getArgOperand(k)) : "";
          if (!c.empty()) any = true;
          all += (k ? ";" : "") + c;
        }
        if (any) i.setMetadata("a0a", MDNode::get(ctx, MDString::get(ctx, all)));
      }
    }
}

static std::set<Function*> recursiveFns(Module& m) {
  std::set<Function*> rec;
  CallGraph cg(m);
  for (auto it = scc_begin(&cg); !it.isAtEnd(); ++it) {
    if (it.hasCycle())
      for (auto* n : *it)
        if (n->getFunction()) rec.insert(n->getFunction());
  }
  return rec;
}

struct Passes {
  LoopAnalysisManager lam;
  FunctionAnalysisManager fam;
  CGSCCAnalysisManager cgam;
  ModuleAnalysisManager mam;
  PassBuilder pb;
  FunctionPassManager fpm;
  Passes(StringRef text) {
    pb.registerModuleAnalyses(mam);
    pb.registerCGSCCAnalyses(cgam);
    pb.registerFunctionAnalyses(fam);
    pb.registerLoopAnalyses(lam);
    pb.crossRegisterProxies(lam, fam, cgam, mam);
    if (auto e = pb.parsePassPipeline(fpm, text)) {
      errs() << "bad pipeline: " << toString(std::move(e)) << "\n";
      exit(3);
    }
  }
  void run(Function& f) {
    fam.clear();
    fpm.run(f, fam);
    fam.clear();
  }
};

// Inlines callees into f (not kept, not recursive). Returns true if something changed.
static bool inlineAll(Function& f, const std::set<std::string>& keep, const std::set<Function*>& rec) {
  bool changed = false;
  for (int round = 0; round < 200; round++) {
    std::vector<CallBase*> work;
    for (auto& i : instructions(f)) {
      auto* cb = dyn_cast<CallBase>(&i);
      if (!cb) continue;
      Value* cv = cb->getCalledOperand()->stripPointerCasts();
      auto* callee = dyn_cast<Function>(cv);
      if (!callee || callee->isDeclaration() || callee == &f || callee->isVarArg()) continue;
      if (rec.count(callee) || keep.count(callee->getName().str())) continue;
      if (callee->getFunctionType() != cb->getFunctionType()) continue;
      if (callee->isInterposable() && !callee->hasLinkOnceLinkage() && !callee->hasWeakLinkage()) continue;
      work.push_back(cb);
    }
    if (work.empty()) break;
    bool any = false;
    for (auto* cb : work) {
      InlineFunctionInfo ifi;
      auto r = InlineFunction(*cb, ifi);
      if (r.isSuccess()) any = true;
    }
    if (!any) break;
    changed = true;
  }
  return changed;
}

// ---------------------------------------------------------------- JSON output

static DenseMap<const Value*, int> ids;
static DenseMap<const BasicBlock*, int> bids;
static std::set<const GlobalVariable*> usedGlobals;

static json::Value operand(const Value* v);

static json::Value constGlobalOff(const Constant* c) {
  APInt off(64, 0);
  const Value* base = c->stripAndAccumulateConstantOffsets(*DL, off, true);
  if (auto* gv = dyn_cast<GlobalVariable>(base)) usedGlobals.insert(gv);
  if (isa<GlobalValue>(base))
    return json::Array{"g", cast<GlobalValue>(base)->getName(), (int64_t)off.getSExtValue()};
  return json::Array{"u"};
}

static json::Value operand(const Value* v) {
  if (auto* ci = dyn_cast<ConstantInt>(v)) {
    if (ci->getBitWidth() <= 64)
      return json::Array{"c", ci->getBitWidth() == 1 ? (int64_t)ci->getZExtValue() : ci->getSExtValue(), (int)ci->getBitWidth()};
    return json::Array{"u"};
  }
  if (isa<ConstantPointerNull>(v)) return json::Array{"c", 0, 64};
  if (isa<UndefValue>(v)) return json::Array{"u"};
  if (isa<ConstantAggregateZero>(v)) return json::Array{"z"};
  if (auto* f = dyn_cast<Function>(v)) return json::Array{"f", f->getName()};
  if (auto* a = dyn_cast<Argument>(v)) return json::Array{"a", (int)a->getArgNo()};
  if (auto* c = dyn_cast<Constant>(v)) {
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      if (ce->getOpcode() == Instruction::GetElementPtr) return constGlobalOff(c);
      // pointers written as numbers, such as MAP_FAILED
      if (ce->isCast()) return operand(ce->getOperand(0));
      return json::Array{"u"};
    }
    if (isa<GlobalValue>(c)) return constGlobalOff(c);
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
      json::Array parts;
      for (auto& o : ca->operands()) parts.push_back(operand(o.get()));
      return json::Array{"agg", std::move(parts)};
    }
    if (auto* fp = dyn_cast<ConstantFP>(c)) {
      SmallString<32> s;
      fp->getValueAPF().toString(s);
      return json::Array{"fp", s.str()};
    }
    return json::Array{"u"};
  }
  auto it = ids.find(v);
  if (it != ids.end()) return json::Array{"i", it->second};
  if (auto* bb = dyn_cast<BasicBlock>(v)) return json::Array{"b", bids.lookup(bb)};
  return json::Array{"u"};
}

static std::string tyStr(Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) {
    auto n = structName(st);
    if (!n.empty()) return "%" + n;
  }
  std::string s;
  raw_string_ostream os(s);
  t->print(os, false, true);
  return os.str();
}

static StringRef relFile(StringRef f, StringRef dir, std::string& store) {
  store = f.starts_with("/") ? f.str() : (dir.str() + "/" + f.str());
  SmallVector<StringRef, 32> in, out;
  StringRef(store).split(in, '/', -1, false);
  for (auto p : in) {
    if (p == "." ) continue;
    if (p == ".." && !out.empty()) { out.pop_back(); continue; }
    out.push_back(p);
  }
  std::string r;
  for (auto p : out) r += "/" + p.str();
  store = r;
  return store;
}

static json::Value locOf(const DebugLoc& dl) {
  json::Array chain;
  for (DILocation* l = dl.get(); l; l = l->getInlinedAt()) {
    std::string st;
    auto* sc = l->getScope();
    relFile(sc->getFilename(), sc->getDirectory(), st);
    auto* sp = sc->getSubprogram();
    chain.push_back(json::Array{st, (int)l->getLine(), sp ? sp->getName() : ""});
  }
  return chain;
}

static std::string diName(const DIType* t);

static json::Value diType(const DIType* t, int depth = 0) {
  if (!t) return json::Array{"void"};
  if (auto* d = dyn_cast<DIDerivedType>(t)) {
    switch (d->getTag()) {
      case dwarf::DW_TAG_pointer_type:
      case dwarf::DW_TAG_reference_type:
      case dwarf::DW_TAG_rvalue_reference_type:
        if (depth > 3) return json::Array{"ptr", json::Array{"void"}};
        return json::Array{"ptr", diType(d->getBaseType(), depth + 1)};
      case dwarf::DW_TAG_typedef: {
        // A typedef of an unnamed struct names it.
        auto* b = d->getBaseType();
        if (auto* ct = dyn_cast_or_null<DICompositeType>(b))
          if (ct->getName().empty() && ct->getTag() != dwarf::DW_TAG_array_type)
            return json::Array{ct->getTag() == dwarf::DW_TAG_enumeration_type ? "enum" : "struct", d->getName()};
        return diType(b, depth);
      }
      default:
        return diType(d->getBaseType(), depth);
    }
  }
  if (auto* c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_array_type) {
      int64_t n = -1;
      for (auto* e : c->getElements())
        if (auto* sr = dyn_cast<DISubrange>(e))
          if (auto* ci = dyn_cast_if_present<ConstantInt*>(sr->getCount())) {
            n = n < 0 ? ci->getSExtValue() : n * ci->getSExtValue();
          }
      return json::Array{"arr", n, diType(c->getBaseType(), depth + 1)};
    }
    if (c->getTag() == dwarf::DW_TAG_enumeration_type) return json::Array{"enum", c->getName()};
    return json::Array{"struct", c->getName()};
  }
  if (auto* b = dyn_cast<DIBasicType>(t)) return json::Array{"int", (int64_t)b->getSizeInBits(), b->getName()};
  if (isa<DISubroutineType>(t)) return json::Array{"fn"};
  return json::Array{"?"};
}

static json::Value initValue(const Constant* c, int depth = 0) {
  if (auto* cda = dyn_cast<ConstantDataArray>(c)) {
    if (cda->isString()) return json::Array{"str", json::fixUTF8(cda->isCString() ? cda->getAsCString() : cda->getAsString())};
    json::Array a;
    for (unsigned i = 0; i < cda->getNumElements(); i++)
      a.push_back(cda->getElementType()->isIntegerTy() ? (int64_t)cda->getElementAsInteger(i) : 0);
    return json::Array{"data", std::move(a)};
  }
  if (isa<ConstantAggregateZero>(c)) return json::Array{"z"};
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
    json::Array parts;
    for (auto& o : ca->operands()) parts.push_back(depth > 3 ? json::Value(nullptr) : initValue(cast<Constant>(o.get()), depth + 1));
    return json::Array{"agg", std::move(parts)};
  }
  return operand(c);
}

// every scalar of an initialiser with its byte offset and size
static void initCells(const Constant* c, uint64_t off, json::Array& out) {
  if (out.size() > 512) return;
  Type* t = c->getType();
  if (auto* st = dyn_cast<StructType>(t)) {
    for (unsigned k = 0; k < st->getNumElements(); k++)
      if (auto* e = c->getAggregateElement(k)) initCells(e, off + DL->getStructLayout(st)->getElementOffset(k).getFixedValue(), out);
    return;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    uint64_t sz = DL->getTypeAllocSize(at->getElementType()).getFixedValue();
    for (uint64_t k = 0; k < at->getNumElements() && k < 1024; k++)
      if (auto* e = c->getAggregateElement((unsigned)k)) initCells(e, off + k * sz, out);
    return;
  }
  out.push_back(json::Array{(int64_t)off, (int64_t)DL->getTypeStoreSize(t).getFixedValue(), operand(c)});
}

static json::Value dumpInst(const Instruction& i) {
  json::Object o;
  o["id"] = ids.lookup(&i);
  o["op"] = i.getOpcodeName();
  o["ty"] = tyStr(i.getType());
  if (i.getDebugLoc()) o["loc"] = locOf(i.getDebugLoc());
  for (const char* k : {"a0f", "a0s", "a0a"})
    if (auto* md = i.getMetadata(k)) o[k] = cast<MDString>(md->getOperand(0))->getString();

  json::Array ops;
  if (auto* phi = dyn_cast<PHINode>(&i)) {
    for (unsigned k = 0; k < phi->getNumIncomingValues(); k++)
      ops.push_back(json::Array{operand(phi->getIncomingValue(k)), bids.lookup(phi->getIncomingBlock(k))});
  } else if (auto* br = dyn_cast<BranchInst>(&i)) {
    if (br->isConditional()) {
      o["cond"] = operand(br->getCondition());
      o["succ"] = json::Array{bids.lookup(br->getSuccessor(0)), bids.lookup(br->getSuccessor(1))};
    } else {
      o["succ"] = json::Array{bids.lookup(br->getSuccessor(0))};
    }
  } else if (auto* sw = dyn_cast<SwitchInst>(&i)) {
    o["cond"] = operand(sw->getCondition());
    json::Array cases, succ;
    succ.push_back(bids.lookup(sw->getDefaultDest()));
    for (auto c : sw->cases()) {
      cases.push_back((int64_t)c.getCaseValue()->getSExtValue());
      succ.push_back(bids.lookup(c.getCaseSuccessor()));
    }
    o["cases"] = std::move(cases);
    o["succ"] = std::move(succ);
  } else if (auto* cb = dyn_cast<CallBase>(&i)) {
    if (cb->isInlineAsm()) {
      o["callee"] = "asm";
      o["asm"] = cast<InlineAsm>(cb->getCalledOperand())->getAsmString();
      o["clobbers"] = cast<InlineAsm>(cb->getCalledOperand())->getConstraintString();
    } else if (auto* f = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) {
      o["callee"] = f->getName();
      if (auto* sp = f->getSubprogram())
        if (sp->getName() != f->getName()) o["src_name"] = sp->getName();
    } else {
      o["fptr"] = operand(cb->getCalledOperand());
    }
    for (auto& a : cb->args()) ops.push_back(operand(a.get()));
    if (auto* inv = dyn_cast<InvokeInst>(cb)) o["succ"] = json::Array{bids.lookup(inv->getNormalDest()), bids.lookup(inv->getUnwindDest())};
    json::Array bv;
    for (unsigned k = 0; k < cb->arg_size(); k++) {
      if (cb->isByValArgument(k)) bv.push_back((int)k);
      if (cb->paramHasAttr(k, Attribute::StructRet)) o["sret"] = (int)k;
    }
    if (!bv.empty()) o["byval"] = std::move(bv);
  } else if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
    ops.push_back(operand(g->getPointerOperand()));
    o["src"] = tyStr(g->getSourceElementType());
    json::Array idx;
    for (auto it = g->idx_begin(); it != g->idx_end(); ++it) idx.push_back(operand(it->get()));
    o["idx"] = std::move(idx);
    MapVector<Value*, APInt> var;
    APInt off(64, 0);
    if (cast<GEPOperator>(g)->collectOffset(*DL, 64, var, off)) {
      o["off"] = off.getSExtValue();
      json::Array vs;
      for (auto& kv : var) vs.push_back(json::Array{operand(kv.first), kv.second.getSExtValue()});
      o["var"] = std::move(vs);
    }
  } else {
    for (auto& u : i.operands()) ops.push_back(operand(u.get()));
    if (auto* ic = dyn_cast<CmpInst>(&i)) o["pred"] = CmpInst::getPredicateName(ic->getPredicate());
    if (auto* rmw = dyn_cast<AtomicRMWInst>(&i)) o["rmw"] = AtomicRMWInst::getOperationName(rmw->getOperation());
    if (auto* al = dyn_cast<AllocaInst>(&i)) {
      o["alty"] = tyStr(al->getAllocatedType());
      o["size"] = (int64_t)DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue();
    }
    if (auto* ev = dyn_cast<ExtractValueInst>(&i)) {
      json::Array ix;
      for (auto k : ev->indices()) ix.push_back((int)k);
      o["ix"] = std::move(ix);
    }
    if (auto* iv = dyn_cast<InsertValueInst>(&i)) {
      json::Array ix;
      for (auto k : iv->indices()) ix.push_back((int)k);
      o["ix"] = std::move(ix);
    }
    if (auto* l = dyn_cast<LoadInst>(&i)) {
      o["sz"] = (int64_t)DL->getTypeStoreSize(l->getType()).getFixedValue();
      if (l->isVolatile()) o["vol"] = true;
      if (l->isAtomic()) o["ord"] = toIRString(l->getOrdering());
    }
    if (auto* s = dyn_cast<StoreInst>(&i)) {
      o["sz"] = (int64_t)DL->getTypeStoreSize(s->getValueOperand()->getType()).getFixedValue();
      if (s->isVolatile()) o["vol"] = true;
      if (s->isAtomic()) o["ord"] = toIRString(s->getOrdering());
    }
  }
  o["ops"] = std::move(ops);
  return o;
}

static json::Value dumpFn(const Function& f) {
  ids.clear();
  bids.clear();
  int n = 0, b = 0;
  for (auto& bb : f) {
    bids[&bb] = b++;
    for (auto& i : bb) ids[&i] = n++;
  }
  json::Object o;
  o["name"] = f.getName();
  o["internal"] = f.hasLocalLinkage();
  o["ret"] = tyStr(f.getReturnType());
  json::Array params;
  auto* sp = f.getSubprogram();
  if (sp) {
    std::string st;
    relFile(sp->getFilename(), sp->getDirectory(), st);
    o["file"] = st;
    o["line"] = (int)sp->getLine();
    o["src_name"] = sp->getName();
    if (auto* sc = dyn_cast_or_null<DIType>(sp->getScope())) o["cls"] = sc->getName();
    json::Array dit;
    if (auto* t = sp->getType())
      for (auto* e : t->getTypeArray()) dit.push_back(diType(e));
    o["ditypes"] = std::move(dit);
    // Declared parameter names in source order.
    json::Array pn;
    for (auto* nd : sp->getRetainedNodes())
      if (auto* lv = dyn_cast<DILocalVariable>(nd))
        if (lv->getArg()) pn.push_back(json::Array{(int)lv->getArg(), lv->getName()});
    o["dinames"] = std::move(pn);
  }
  for (auto& a : f.args()) {
    json::Object p;
    p["name"] = a.getName();
    p["ty"] = tyStr(a.getType());
    if (a.hasByValAttr()) p["byval"] = tyStr(a.getParamByValType());
    if (a.hasStructRetAttr()) p["sret"] = tyStr(a.getParamStructRetType());
    params.push_back(std::move(p));
  }
  o["params"] = std::move(params);
  json::Array blocks;
  for (auto& bb : f) {
    json::Array insts;
    for (auto& i : bb) {
      if (isa<DbgInfoIntrinsic>(i)) continue;
      insts.push_back(dumpInst(i));
    }
    blocks.push_back(json::Object{{"id", bids[&bb]}, {"insts", std::move(insts)}});
  }
  o["blocks"] = std::move(blocks);
  return o;
}

int main(int argc, char** argv) {
  LLVMContext ctx;
  SMDiagnostic err;
  std::set<std::string> roots, keep;
  std::string in = argv[1], out = argv[2];
  bool addrTaken = false, allDefined = false;
  std::string prefix;
  for (int i = 3; i < argc; i++) {
    StringRef a = argv[i];
    auto arg = [&]() -> StringRef {
      StringRef v = argv[++i];
      if (v.starts_with("@")) {
        auto buf = MemoryBuffer::getFile(v.drop_front(1));
        if (!buf) exit(3);
        static std::vector<std::string> store;
        store.push_back((*buf)->getBuffer().str());
        return store.back();
      }
      return v;
    };
    if (a == "--roots") for (auto& r : split(arg())) roots.insert(r);
    else if (a == "--keep") for (auto& r : split(arg())) keep.insert(r);
    else if (a == "--address-taken") addrTaken = true;
    else if (a == "--all-defined") { allDefined = true; prefix = arg().str(); }
  }
  // Inputs are annotated one by one, before linking merges structs of the same shape.
  std::unique_ptr<Module> m;
  for (auto& path : split(in.substr(0, 1) == "@" ? (*MemoryBuffer::getFile(in.substr(1)))->getBuffer() : StringRef(in))) {
    auto part = parseIRFile(path, err, ctx);
    if (!part) {
      err.print(argv[0], errs());
      return 3;
    }
    DL = &part->getDataLayout();
    annotate(*part);
    if (!m) {
      m = std::move(part);
    } else if (Linker::linkModules(*m, std::move(part))) {
      return 3;
    }
  }
  // A C++ constructor is called under another name than it is defined under.
  for (auto& a : m->aliases()) a.replaceAllUsesWith(a.getAliasee());
  DL = &m->getDataLayout();
  auto rec = recursiveFns(*m);

  std::vector<Function*> rs;
  for (auto& f : *m) {
    if (f.isDeclaration()) continue;
    bool take = roots.count(f.getName().str());
    if (allDefined && (prefix.empty() || f.getName().contains(prefix))) take = true;
    // Functions whose address escapes into a value (callbacks) and recursive functions.
    if (addrTaken && (f.hasAddressTaken() || rec.count(&f))) take = true;
    if (take) rs.push_back(&f);
  }

  // Work on a copy of each root so that roots can still be inlined into one another unchanged.
  // Loops with a small constant number of rounds are written out: a loop over two things is two things.
  Passes norm("sroa<modify-cfg>,instsimplify,loop-simplify,loop(loop-unroll-full),sroa<modify-cfg>,instsimplify,sccp,adce");
  std::vector<std::pair<std::string, Function*>> clones;
  for (auto* f : rs) {
    ValueToValueMapTy vm;
    Function* c = CloneFunction(f, vm);
    clones.push_back({f->getName().str(), c});
  }
  for (auto& [name, c] : clones) {
    std::set<std::string> k = keep;
    // Direct self recursion stays a call.
    for (int it = 0; it < 6; it++) {
      bool ch = inlineAll(*c, k, rec);
      norm.run(*c);
      removeUnreachableBlocks(*c);
      if (!ch) break;
    }
    // Merge trivial chains so that blocks are maximal.
    for (auto bi = c->begin(); bi != c->end();) {
      BasicBlock* bb = &*bi++;
      MergeBlockIntoPredecessor(bb);
    }
    norm.run(*c);
    removeUnreachableBlocks(*c);
    if (verifyFunction(*c, &errs())) return 3;
  }

  json::Object top;
  json::Object fns;
  for (auto& [name, c] : clones) {
    auto v = dumpFn(*c);
    v.getAsObject()->insert({"orig", name});
    (*v.getAsObject())["name"] = name;
    fns[name] = std::move(v);
  }
  top["functions"] = std::move(fns);
  json::Array defs, recs, taken;
  for (auto& f : *m) {
    if (f.isDeclaration()) continue;
    bool cl = false;
    for (auto& p : clones) cl |= p.second == &f;
    if (cl) continue;
    auto* sp = f.getSubprogram();
    std::string st;
    if (sp) relFile(sp->getFilename(), sp->getDirectory(), st);
    defs.push_back(json::Array{f.getName(), f.hasLocalLinkage(), st, sp ? (int)sp->getLine() : 0, sp ? sp->getName() : ""});
    if (rec.count(&f)) recs.push_back(f.getName());
    if (f.hasAddressTaken()) taken.push_back(f.getName());
  }
  top["defined"] = std::move(defs);
  top["recursive"] = std::move(recs);
  top["address_taken"] = std::move(taken);

  json::Object gl;
  std::set<const GlobalVariable*> done;
  while (done.size() < usedGlobals.size()) {
    std::vector<const GlobalVariable*> todo(usedGlobals.begin(), usedGlobals.end());
    for (auto* g : todo) {
      if (!done.insert(g).second) continue;
      json::Object go;
      go["const"] = g->isConstant();
      go["tls"] = g->isThreadLocal();
      if (g->hasInitializer()) go["init"] = initValue(g->getInitializer());
      if (g->hasInitializer() && g->isConstant()) {
        json::Array cells;
        initCells(g->getInitializer(), 0, cells);
        go["cells"] = std::move(cells);
      }
      gl[g->getName()] = std::move(go);
    }
  }
  top["globals"] = std::move(gl);

  json::Object structs;
  DebugInfoFinder dif;
  dif.processModule(*m);
  auto addStruct = [&](const DICompositeType* ct, StringRef name) {
    if (name.empty() || ct->isForwardDecl() || structs.get(name)) return;
    if (ct->getTag() != dwarf::DW_TAG_structure_type && ct->getTag() != dwarf::DW_TAG_class_type && ct->getTag() != dwarf::DW_TAG_union_type) return;
    json::Array mem;
    for (auto* e : ct->getElements())
      if (auto* d = dyn_cast<DIDerivedType>(e))
        if (d->getTag() == dwarf::DW_TAG_member && !d->isStaticMember())
          mem.push_back(json::Array{d->getName(), (int64_t)(d->getOffsetInBits() / 8), (int64_t)(d->getSizeInBits() / 8), diType(d->getBaseType())});
    structs[name] = json::Object{{"size", (int64_t)(ct->getSizeInBits() / 8)}, {"members", std::move(mem)}};
  };
  for (auto* t : dif.types()) {
    if (auto* ct = dyn_cast<DICompositeType>(t)) addStruct(ct, ct->getName());
    if (auto* d = dyn_cast<DIDerivedType>(t))
      if (d->getTag() == dwarf::DW_TAG_typedef)
        if (auto* ct = dyn_cast_or_null<DICompositeType>(d->getBaseType())) addStruct(ct, d->getName());
  }
  top["structs"] = std::move(structs);
  json::Object enums;
  for (auto* t : dif.types())
    if (auto* ct = dyn_cast<DICompositeType>(t))
      if (ct->getTag() == dwarf::DW_TAG_enumeration_type)
        for (auto* e : ct->getElements())
          if (auto* en = dyn_cast<DIEnumerator>(e)) enums[en->getName()] = (int64_t)en->getValue().getSExtValue();
  // Typedefs: name -> canonical type.
  json::Object tds;
  for (auto* t : dif.types())
    if (auto* d = dyn_cast<DIDerivedType>(t))
      if (d->getTag() == dwarf::DW_TAG_typedef) tds[d->getName()] = diType(d);
  top["typedefs"] = std::move(tds);
  for (auto* cu : m->debug_compile_units())
    for (auto* ct : cu->getEnumTypes())
      for (auto* e : ct->getElements())
        if (auto* en = dyn_cast<DIEnumerator>(e)) enums[en->getName()] = (int64_t)en->getValue().getSExtValue();
  top["enums"] = std::move(enums);

  // Declared return types of every function with debug info.
  json::Object rts;
  for (auto& f : *m) {
    auto* sp = f.getSubprogram();
    if (!sp || !sp->getType()) continue;
    auto ta = sp->getType()->getTypeArray();
    if (ta.size() > 0) rts[f.getName()] = diType(ta[0]);
  }
  top["rettypes"] = std::move(rts);

  std::error_code ec;
  raw_fd_ostream os(out, ec);
  if (ec) return 3;
  os << json::Value(std::move(top)) << "\n";
  return 0;
}
