// irdump: link LLVM bitcode, normalise it and dump it as JSON for the checkers.
//
// Usage: irdump --out FILE [--keep FILE] [--inline-into REGEX] a.bc b.bc ...
//
// Functions defined in the analysed repository that are not listed in the keep
// file (one demangled-name regex per line) are force-inlined into their
// callers, so that extracting or merging helpers does not change what the
// checkers see. Standard library functions stay calls.
#include <llvm/ADT/SmallString.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/AlwaysInliner.h>

#include <fstream>
#include <map>
#include <regex>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

static std::string RepoPrefix = "/repo/";

static std::string Dem(StringRef n) { return demangle(n.str()); }

static std::string TyStr(Type* t) {
  std::string s;
  raw_string_ostream os(s);
  t->print(os, false, true);
  return os.str();
}

static std::string FullPath(const DIFile* f) {
  if (!f) return "";
  SmallString<256> p;
  StringRef fn = f->getFilename();
  if (fn.starts_with("/")) return fn.str();
  p = f->getDirectory();
  p += "/";
  p += fn;
  // normalise /./ and /../
  SmallVector<StringRef, 16> parts, outp;
  StringRef(p.data(), p.size()).split(parts, '/');
  for (StringRef x : parts) {
    if (x.empty() || x == ".") continue;
    if (x == "..") { if (!outp.empty()) outp.pop_back(); continue; }
    outp.push_back(x);
  }
  std::string r;
  for (StringRef x : outp) { r += "/"; r += x.str(); }
  return r;
}

static bool InRepo(const Function& f) {
  if (f.isDeclaration()) return false;
  const DISubprogram* sp = f.getSubprogram();
  if (!sp) return Dem(f.getName()).find("brunsli::") == 0;
  std::string p = FullPath(sp->getFile());
  return StringRef(p).starts_with(RepoPrefix);
}

// ---- DI struct field names -------------------------------------------------
struct StructDI {
  std::map<uint64_t, const DIDerivedType*> byOffset;  // bit offset -> member
  const DICompositeType* ct = nullptr;
};
static std::map<std::string, const DICompositeType*> DIByName;

static std::string DIQualName(const DIScope* s) {
  std::string r;
  while (s) {
    if (isa<DIFile>(s) || isa<DICompileUnit>(s)) break;
    std::string n = s->getName().str();
    if (n.empty()) {
      if (isa<DINamespace>(s)) n = "(anonymous namespace)";
    }
    if (!n.empty()) r = r.empty() ? n : n + "::" + r;
    s = s->getScope();
  }
  return r;
}

static std::string DITypeStr(const DIType* t) {
  if (!t) return "void";
  if (auto* d = dyn_cast<DIDerivedType>(t)) {
    switch (d->getTag()) {
      case dwarf::DW_TAG_pointer_type: return DITypeStr(d->getBaseType()) + "*";
      case dwarf::DW_TAG_reference_type: return DITypeStr(d->getBaseType()) + "&";
      case dwarf::DW_TAG_rvalue_reference_type: return DITypeStr(d->getBaseType()) + "&&";
      case dwarf::DW_TAG_const_type: return "const " + DITypeStr(d->getBaseType());
      case dwarf::DW_TAG_volatile_type: return "volatile " + DITypeStr(d->getBaseType());
      case dwarf::DW_TAG_typedef: {
        auto* b = dyn_cast_or_null<DICompositeType>(d->getBaseType());
        if (b && b->getName().empty()) return DIQualName(d);
        return DITypeStr(d->getBaseType());
      }
      default: return d->getName().str();
    }
  }
  if (auto* c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_array_type) {
      std::string s = DITypeStr(c->getBaseType());
      for (auto* e : c->getElements()) {
        if (auto* sr = dyn_cast_or_null<DISubrange>(e)) {
          if (auto* ci = dyn_cast_if_present<ConstantInt*>(sr->getCount()))
            s += "[" + std::to_string(ci->getSExtValue()) + "]";
          else
            s += "[]";
        }
      }
      return s;
    }
    return DIQualName(c);
  }
  if (isa<DISubroutineType>(t)) return "fn";
  return t->getName().str();
}

class Dumper {
 public:
  Dumper(Module& m, raw_ostream& os) : M(m), J(os, 0) {}
  void Run();

 private:
  void DumpFunction(Function& f);
  void DumpGlobal(GlobalVariable& g);
  void DumpStructs();
  void Op(Value* v);
  void ConstAttr(Constant* c);
  void GepInfo(GEPOperator* g);
  void Loc(const DebugLoc& dl, const char* key);
  std::string FieldName(StructType* st, unsigned idx);
  const StructDI* DIFor(StructType* st);
  int FileId(const std::string& s) {
    auto it = files.find(s);
    if (it != files.end()) return it->second;
    int id = files.size();
    files[s] = id;
    return id;
  }
  Module& M;
  json::OStream J;
  std::map<Value*, int> ids;
  std::map<std::string, int> files;
  std::map<StructType*, StructDI> sdi;
};

const StructDI* Dumper::DIFor(StructType* st) {
  auto it = sdi.find(st);
  if (it != sdi.end()) return &it->second;
  StructDI d;
  if (st->hasName()) {
    StringRef n = st->getName();
    n.consume_front("struct.");
    n.consume_front("class.");
    n.consume_front("union.");
    std::string name = n.str();
    auto f = DIByName.find(name);
    if (f == DIByName.end()) {
      // strip ".123" suffixes and ".base"
      std::string s2 = std::regex_replace(name, std::regex("(\\.[0-9]+|\\.base)+$"), "");
      f = DIByName.find(s2);
    }
    if (f != DIByName.end()) {
      d.ct = f->second;
      for (auto* e : d.ct->getElements()) {
        if (auto* m = dyn_cast_or_null<DIDerivedType>(e)) {
          if (m->isStaticMember()) continue;
          if (m->getTag() == dwarf::DW_TAG_member ||
              m->getTag() == dwarf::DW_TAG_inheritance) {
            d.byOffset.emplace(m->getOffsetInBits(), m);
          }
        }
      }
    }
  }
  sdi[st] = d;
  return &sdi[st];
}

std::string Dumper::FieldName(StructType* st, unsigned idx) {
  if (!st->isSized()) return "";
  const StructDI* d = DIFor(st);
  const StructLayout* sl = M.getDataLayout().getStructLayout(st);
  uint64_t off = sl->getElementOffsetInBits(idx);
  auto it = d->byOffset.find(off);
  if (it == d->byOffset.end()) return "";
  if (it->second->getTag() == dwarf::DW_TAG_inheritance) return "<base>";
  return it->second->getName().str();
}

void Dumper::Loc(const DebugLoc& dl, const char* key) {
  if (!dl) return;
  const DILocation* l = dl.get();
  J.attributeArray(key, [&] {
    int n = 0;
    while (l && n < 8) {
      J.value(FileId(FullPath(l->getFile())));
      J.value((int64_t)l->getLine());
      l = l->getInlinedAt();
      ++n;
    }
  });
}

void Dumper::GepInfo(GEPOperator* g) {
  J.attribute("sty", TyStr(g->getSourceElementType()));
  J.attributeArray("path", [&] {
    Type* t = g->getSourceElementType();
    bool first = true;
    for (auto it = g->idx_begin(); it != g->idx_end(); ++it) {
      Value* v = *it;
      if (first) {
        first = false;
        J.array([&] { J.value("p"); Op(v); });
        continue;
      }
      if (auto* st = dyn_cast<StructType>(t)) {
        unsigned k = cast<ConstantInt>(v)->getZExtValue();
        J.array([&] {
          J.value("f");
          J.value(st->hasName() ? st->getName().str() : "");
          J.value((int64_t)k);
          J.value(FieldName(st, k));
        });
        t = st->getElementType(k);
      } else if (auto* at = dyn_cast<ArrayType>(t)) {
        J.array([&] {
          J.value("x");
          J.value((int64_t)at->getNumElements());
          Op(v);
        });
        t = at->getElementType();
      } else {
        J.array([&] { J.value("?"); Op(v); });
      }
    }
  });
  APInt off(64, 0);
  if (g->accumulateConstantOffset(M.getDataLayout(), off))
    J.attribute("off", off.getSExtValue());
  MapVector<Value*, APInt> var;
  APInt base(64, 0);
  if (g->collectOffset(M.getDataLayout(), 64, var, base)) {
    J.attribute("lb", base.getSExtValue());
    J.attributeArray("lv", [&] {
      for (auto& kv : var)
        J.array([&] { Op(kv.first); J.value(kv.second.getSExtValue()); });
    });
  }
}

void Dumper::Op(Value* v) {
  if (auto* c = dyn_cast<ConstantInt>(v)) {
    J.array([&] {
      J.value("c");
      if (c->getBitWidth() <= 64)
        J.value(c->getBitWidth() == 1 ? (int64_t)c->getZExtValue() : c->getSExtValue());
      else
        J.value(0);
      J.value((int64_t)c->getBitWidth());
    });
    return;
  }
  if (isa<ConstantPointerNull>(v)) { J.array([&] { J.value("n"); }); return; }
  if (isa<UndefValue>(v)) { J.array([&] { J.value("u"); }); return; }
  if (auto* f = dyn_cast<ConstantFP>(v)) {
    J.array([&] {
      J.value("fp");
      SmallString<32> s;
      f->getValueAPF().toString(s);
      J.value(StringRef(s));
    });
    return;
  }
  if (auto* f = dyn_cast<Function>(v)) {
    J.array([&] { J.value("F"); J.value(f->getName()); });
    return;
  }
  if (auto* g = dyn_cast<GlobalValue>(v)) {
    J.array([&] { J.value("g"); J.value(g->getName()); });
    return;
  }
  if (auto* ce = dyn_cast<ConstantExpr>(v)) {
    J.array([&] {
      J.value("ce");
      J.value(ce->getOpcodeName());
      J.array([&] { for (auto& o : ce->operands()) Op(o.get()); });
      if (auto* g = dyn_cast<GEPOperator>(ce)) {
        J.object([&] { GepInfo(g); });
      }
    });
    return;
  }
  if (auto* c = dyn_cast<Constant>(v)) {
    if (c->isNullValue()) { J.array([&] { J.value("z"); }); return; }
    J.array([&] { J.value("cc"); });
    return;
  }
  auto it = ids.find(v);
  if (it != ids.end()) {
    J.array([&] {
      J.value(isa<Argument>(v) ? "a" : isa<BasicBlock>(v) ? "b" : "i");
      J.value(it->second);
    });
    return;
  }
  J.array([&] { J.value("?"); });
}

static void CollectPtrs(Constant* c, std::vector<std::string>& out) {
  if (out.size() > 1000) return;
  if (c->getType()->isPointerTy()) {
    if (auto* gv = dyn_cast<GlobalValue>(c->stripPointerCasts())) out.push_back(gv->getName().str());
    else out.push_back("");
    return;
  }
  unsigned cnt = 0;
  if (auto* at = dyn_cast<ArrayType>(c->getType())) cnt = at->getNumElements();
  else if (auto* st = dyn_cast<StructType>(c->getType())) cnt = st->getNumElements();
  if (cnt > 1000) return;
  for (unsigned i = 0; i < cnt; ++i)
    if (Constant* e = c->getAggregateElement(i)) CollectPtrs(e, out);
}

static void FlattenConst(Constant* c, std::vector<std::string>& out, size_t& n) {
  if (n > 100000) return;
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    ++n;
    out.push_back(std::to_string(ci->getBitWidth() <= 64 ? (long long)(ci->getBitWidth() == 64 ? (long long)ci->getZExtValue() : (long long)ci->getZExtValue()) : 0));
    return;
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    ++n;
    SmallString<32> s;
    cf->getValueAPF().toString(s);
    out.push_back("\"" + s.str().str() + "\"");
    return;
  }
  unsigned cnt = 0;
  if (auto* at = dyn_cast<ArrayType>(t)) cnt = at->getNumElements();
  else if (auto* st = dyn_cast<StructType>(t)) cnt = st->getNumElements();
  else {
    ++n;
    out.push_back("null");
    return;
  }
  for (unsigned i = 0; i < cnt; ++i) {
    Constant* e = c->getAggregateElement(i);
    if (!e) { ++n; out.push_back("null"); continue; }
    FlattenConst(e, out, n);
  }
}

void Dumper::DumpGlobal(GlobalVariable& g) {
  J.object([&] {
    J.attribute("name", g.getName());
    J.attribute("dem", Dem(g.getName()));
    J.attribute("const", g.isConstant());
    J.attribute("decl", g.isDeclaration());
    J.attribute("tls", g.isThreadLocal());
    J.attribute("type", TyStr(g.getValueType()));
    SmallVector<DIGlobalVariableExpression*, 2> v;
    g.getDebugInfo(v);
    if (!v.empty()) {
      auto* dv = v[0]->getVariable();
      J.attribute("file", FullPath(dv->getFile()));
      J.attribute("line", (int64_t)dv->getLine());
      J.attribute("ditype", DITypeStr(dv->getType()));
      J.attribute("scope", DIQualName(dv->getScope()));
      J.attribute("vname", dv->getName());
    }
    if (g.hasInitializer() && (g.getValueType()->isArrayTy() || g.getValueType()->isStructTy() || g.getValueType()->isIntegerTy() || g.getValueType()->isFloatingPointTy())) {
      std::vector<std::string> out;
      size_t n = 0;
      FlattenConst(g.getInitializer(), out, n);
      J.attributeBegin("init");
      J.rawValue([&](raw_ostream& os) {
        os << "[";
        for (size_t i = 0; i < out.size(); ++i) { if (i) os << ","; os << out[i]; }
        os << "]";
      });
      J.attributeEnd();
      std::vector<std::string> ptrs;
      CollectPtrs(g.getInitializer(), ptrs);
      if (!ptrs.empty()) J.attributeArray("ptrs", [&] { for (auto& x : ptrs) J.value(x); });
    }
    // array shape
    J.attributeArray("shape", [&] {
      Type* t = g.getValueType();
      while (auto* at = dyn_cast<ArrayType>(t)) { J.value((int64_t)at->getNumElements()); t = at->getElementType(); }
    });
    std::set<std::string> users;
    std::vector<Value*> work{&g};
    std::set<Value*> seen;
    while (!work.empty()) {
      Value* x = work.back(); work.pop_back();
      if (!seen.insert(x).second) continue;
      for (User* u : x->users()) {
        if (auto* in = dyn_cast<Instruction>(u)) users.insert(in->getFunction()->getName().str());
        else work.push_back(u);
      }
    }
    J.attributeArray("users", [&] { for (auto& u : users) J.value(u); });
  });
}

void Dumper::DumpFunction(Function& f) {
  ids.clear();
  int n = 0;
  for (auto& a : f.args()) ids[&a] = n++;
  int bi = 0;
  for (auto& b : f) ids[&b] = bi++;
  int ii = 0;
  for (auto& b : f)
    for (auto& i : b) ids[&i] = ii++;
  J.object([&] {
    J.attribute("name", f.getName());
    J.attribute("dem", Dem(f.getName()));
    J.attribute("decl", f.isDeclaration());
    J.attribute("repo", InRepo(f));
    J.attribute("local", f.hasLocalLinkage());
    J.attribute("noreturn", f.doesNotReturn());
    J.attribute("rty", TyStr(f.getReturnType()));
    if (auto* sp = f.getSubprogram()) {
      J.attribute("file", FullPath(sp->getFile()));
      J.attribute("line", (int64_t)sp->getLine());
      J.attribute("qname", DIQualName(sp));
      if (auto* st = sp->getType()) {
        auto ta = st->getTypeArray();
        J.attributeArray("ditypes", [&] { for (auto* t : ta) J.value(DITypeStr(t)); });
      }
    }
    J.attributeArray("args", [&] {
      for (auto& a : f.args()) J.array([&] { J.value(a.getName()); J.value(TyStr(a.getType())); });
    });
    if (f.isDeclaration()) return;
    J.attributeArray("blocks", [&] {
      for (auto& b : f) {
        J.object([&] {
          J.attribute("name", b.getName());
          J.attributeArray("preds", [&] { for (auto* p : predecessors(&b)) J.value(ids[p]); });
          J.attributeArray("succs", [&] { for (auto* p : successors(&b)) J.value(ids[p]); });
          J.attributeArray("insts", [&] {
            for (auto& i : b) {
              if (isa<DbgInfoIntrinsic>(i)) continue;
              J.object([&] {
                J.attribute("id", ids[&i]);
                J.attribute("op", i.getOpcodeName());
                if (!i.getType()->isVoidTy()) J.attribute("ty", TyStr(i.getType()));
                if (i.hasName()) J.attribute("nm", i.getName());
                Loc(i.getDebugLoc(), "loc");
                if (auto* c = dyn_cast<CallBase>(&i)) {
                  J.attributeArray("ops", [&] { for (auto& a : c->args()) Op(a.get()); });
                  J.attributeBegin("callee");
                  Op(c->getCalledOperand()->stripPointerCastsAndAliases());
                  J.attributeEnd();
                  if (auto* iv = dyn_cast<InvokeInst>(&i)) {
                    J.attribute("normal", ids[iv->getNormalDest()]);
                    J.attribute("unwind", ids[iv->getUnwindDest()]);
                  }
                  if (c->doesNotReturn()) J.attribute("noreturn", true);
                } else if (auto* p = dyn_cast<PHINode>(&i)) {
                  J.attributeArray("ops", [&] { for (auto& a : p->incoming_values()) Op(a.get()); });
                  J.attributeArray("inb", [&] { for (auto* a : p->blocks()) J.value(ids[a]); });
                } else {
                  J.attributeArray("ops", [&] { for (auto& a : i.operands()) Op(a.get()); });
                }
                if (auto* c = dyn_cast<CmpInst>(&i)) J.attribute("pred", CmpInst::getPredicateName(c->getPredicate()));
                if (auto* g = dyn_cast<GEPOperator>(&i)) GepInfo(g);
                if (auto* a = dyn_cast<AllocaInst>(&i)) { J.attribute("aty", TyStr(a->getAllocatedType())); }
                if (auto* s = dyn_cast<SwitchInst>(&i)) {
                  J.attribute("default", ids[s->getDefaultDest()]);
                  J.attributeArray("cases", [&] {
                    for (auto& c : s->cases())
                      J.array([&] { J.value(c.getCaseValue()->getSExtValue()); J.value(ids[c.getCaseSuccessor()]); });
                  });
                }
                if (auto* l = dyn_cast<LoadInst>(&i)) { if (l->isAtomic()) J.attribute("atomic", true); if (l->isVolatile()) J.attribute("vol", true); }
                if (auto* l = dyn_cast<StoreInst>(&i)) {
                  if (l->isAtomic()) J.attribute("atomic", true);
                  J.attribute("vty", TyStr(l->getValueOperand()->getType()));
                }
                if (auto* bo = dyn_cast<OverflowingBinaryOperator>(&i)) { if (bo->hasNoSignedWrap()) J.attribute("nsw", true); if (bo->hasNoUnsignedWrap()) J.attribute("nuw", true); }
                if (auto* ev = dyn_cast<ExtractValueInst>(&i)) J.attributeArray("idx", [&] { for (auto x : ev->indices()) J.value((int64_t)x); });
              });
            }
          });
        });
      }
    });
  });
}

void Dumper::DumpStructs() {
  J.attributeObject("structs", [&] {
    for (StructType* st : M.getIdentifiedStructTypes()) {
      if (!st->hasName() || st->isOpaque()) continue;
      J.attributeObject(st->getName(), [&] {
        const StructDI* d = DIFor(st);
        if (d->ct) {
          J.attribute("di", DIQualName(d->ct));
          J.attribute("file", FullPath(d->ct->getFile()));
        }
        J.attributeArray("fields", [&] {
          for (unsigned k = 0; k < st->getNumElements(); ++k)
            J.array([&] { J.value(FieldName(st, k)); J.value(TyStr(st->getElementType(k)));
              const StructLayout* sl = M.getDataLayout().getStructLayout(st);
              J.value((int64_t)sl->getElementOffset(k)); });
        });
        if (d->ct) {
          J.attributeArray("members", [&] {
            for (auto& kv : d->byOffset)
              J.array([&] { J.value(kv.second->getName()); J.value(DITypeStr(kv.second->getBaseType())); J.value((int64_t)(kv.first / 8)); J.value((int64_t)kv.second->getLine()); });
          });
        }
      });
    }
  });
  // enums
  std::map<std::string, const DICompositeType*> en;
  DebugInfoFinder fi;
  fi.processModule(M);
  // records by their declared name, independent of the IR's struct types
  std::map<std::string, const DICompositeType*> rec;
  for (auto* t : fi.types()) {
    if (auto* c = dyn_cast<DICompositeType>(t))
      if ((c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_class_type) &&
          !c->getName().empty() && !c->isForwardDecl()) rec.emplace(DIQualName(c), c);
    if (auto* d = dyn_cast<DIDerivedType>(t))
      if (d->getTag() == dwarf::DW_TAG_typedef)
        if (auto* c = dyn_cast_or_null<DICompositeType>(d->getBaseType()))
          if (c->getTag() == dwarf::DW_TAG_structure_type && c->getName().empty()) rec.emplace(DIQualName(d), c);
  }
  J.attributeObject("records", [&] {
    for (auto& kv : rec) {
      J.attributeObject(kv.first, [&] {
        J.attribute("size", (int64_t)(kv.second->getSizeInBits() / 8));
        J.attributeArray("members", [&] {
          for (auto* e : kv.second->getElements())
            if (auto* m = dyn_cast_or_null<DIDerivedType>(e)) {
              if (m->isStaticMember() || m->getTag() != dwarf::DW_TAG_member) continue;
              J.array([&] { J.value(m->getName()); J.value(DITypeStr(m->getBaseType())); J.value((int64_t)(m->getOffsetInBits() / 8)); J.value((int64_t)(m->getSizeInBits() / 8)); });
            }
        });
      });
    }
  });
  for (auto* t : fi.types()) {
    if (auto* c = dyn_cast<DICompositeType>(t))
      if (c->getTag() == dwarf::DW_TAG_enumeration_type && !c->getName().empty()) en[DIQualName(c)] = c;
    if (auto* d = dyn_cast<DIDerivedType>(t))
      if (d->getTag() == dwarf::DW_TAG_typedef)
        if (auto* c = dyn_cast_or_null<DICompositeType>(d->getBaseType()))
          if (c->getTag() == dwarf::DW_TAG_enumeration_type && c->getName().empty()) en[DIQualName(d)] = c;
  }
  J.attributeObject("enums", [&] {
    for (auto& kv : en) {
      J.attributeObject(kv.first, [&] {
        J.attribute("file", FullPath(kv.second->getFile()));
        J.attributeObject("vals", [&] {
          for (auto* e : kv.second->getElements())
            if (auto* x = dyn_cast_or_null<DIEnumerator>(e)) J.attribute(x->getName(), x->getValue().getSExtValue());
        });
      });
    }
  });
}

void Dumper::Run() {
  DebugInfoFinder fi;
  fi.processModule(M);
  for (auto* t : fi.types())
    if (auto* c = dyn_cast<DICompositeType>(t))
      if (!c->isForwardDecl()) DIByName.emplace(DIQualName(c), c);
  J.object([&] {
    DumpStructs();
    J.attributeArray("globals", [&] { for (auto& g : M.globals()) DumpGlobal(g); });
    J.attributeArray("functions", [&] { for (auto& f : M) DumpFunction(f); });
    J.attributeArray("files", [&] {
      std::vector<std::string> v(files.size());
      for (auto& kv : files) v[kv.second] = kv.first;
      for (auto& s : v) J.value(s);
    });
  });
}

int main(int argc, char** argv) {
  std::string out, keepf, passes;
  std::vector<std::string> in;
  bool inl = true, inlstd = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--out") out = argv[++i];
    else if (a == "--keep") keepf = argv[++i];
    else if (a == "--repo") RepoPrefix = argv[++i];
    else if (a == "--no-inline") inl = false;
    else if (a == "--inline-std") inlstd = true;
    else if (a == "--passes") passes = argv[++i];
    else in.push_back(a);
  }
  LLVMContext ctx;
  std::unique_ptr<Module> m;
  for (auto& f : in) {
    SMDiagnostic err;
    auto x = parseIRFile(f, err, ctx);
    if (!x) { err.print("irdump", errs()); return 3; }
    if (!m) m = std::move(x);
    else if (Linker::linkModules(*m, std::move(x))) { errs() << "link failed: " << f << "\n"; return 3; }
  }
  std::vector<std::regex> keep;
  if (!keepf.empty()) {
    std::ifstream k(keepf);
    std::string l;
    while (std::getline(k, l)) if (!l.empty() && l[0] != '#') keep.emplace_back(l);
  }
  for (auto& f : *m) {
    if (f.isDeclaration()) continue;
    f.removeFnAttr(Attribute::OptimizeNone);
    f.removeFnAttr(Attribute::NoInline);
    f.removeFnAttr(Attribute::AlwaysInline);
    bool doinl = false;
    if (inl && !inlstd && !InRepo(f)) {
      std::string d = Dem(f.getName());
      std::string head = d.substr(0, d.find('('));
      if (head.find(" std::min<") != std::string::npos || head.find(" std::max<") != std::string::npos) doinl = true;
    }
    if (inl && inlstd && !InRepo(f)) {
      std::string d = Dem(f.getName());
      static const std::regex small(
          "^[^(]*\\bstd::(min|max|swap|move|forward|abs|array<.*>::(operator\\[\\]|size|data|begin|end)|unique_ptr<.*>::(get|operator->|operator\\*)|__uniq_ptr_impl<.*>::_M_ptr)[^:]*$");
      std::string head = d.substr(0, d.find('('));
      if (std::regex_search(d, small) || head.find(" std::min<") != std::string::npos || head.find(" std::max<") != std::string::npos) {
        doinl = true;
      }
    }
    if (inl && InRepo(f)) {
      std::string d = Dem(f.getName());
      doinl = true;
      for (auto& r : keep) if (std::regex_search(d, r)) { doinl = false; break; }
      if (d == "main") doinl = false;
    }
    f.addFnAttr(doinl ? Attribute::AlwaysInline : Attribute::NoInline);
  }
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  std::string p = passes.empty()
      ? "function(sroa,early-cse),always-inline,function(sroa,early-cse<memssa>,adce,simplifycfg<no-forward-switch-cond;no-switch-range-to-icmp;no-switch-to-lookup;keep-loops;no-hoist-common-insts;no-sink-common-insts;bonus-inst-threshold=0;no-speculate-blocks;no-simplify-cond-branch>)"
      : passes;
  if (auto e = PB.parsePassPipeline(MPM, p)) { errs() << "passes: " << toString(std::move(e)) << "\n"; return 3; }
  MPM.run(*m, MAM);
  std::error_code ec;
  raw_fd_ostream os(out, ec);
  if (ec) { errs() << ec.message() << "\n"; return 3; }
  Dumper(*m, os).Run();
  return 0;
}
