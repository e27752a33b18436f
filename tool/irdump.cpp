// irdump: dump an LLVM module (bitcode) as JSON for the Python analyses.
// Nothing is executed; this only serialises the IR plus loop / SCEV facts.
#include "llvm/IR/Module.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include <map>
#include <set>
using namespace llvm;

static std::map<std::string, std::vector<std::pair<uint64_t, std::string>>> diFields; // name -> (bitoffset, member)
static std::map<const Value *, int> ids;
static const DataLayout *DL;

static std::string tyStr(Type *t) { std::string s; raw_string_ostream os(s); t->print(os, false, true); return os.str(); }

static const DIType *strip(const DIType *t) {
    while (auto *d = dyn_cast_or_null<DIDerivedType>(t)) {
        if (d->getTag() == dwarf::DW_TAG_pointer_type || d->getTag() == dwarf::DW_TAG_member) break;
        t = d->getBaseType();
    }
    return t;
}

static std::string diTypeStr(const DIType *t) {
    if (!t) return "void";
    if (auto *d = dyn_cast<DIDerivedType>(t)) {
        if (d->getTag() == dwarf::DW_TAG_pointer_type) return diTypeStr(d->getBaseType()) + "*";
        if (d->getTag() == dwarf::DW_TAG_const_type) return "const " + diTypeStr(d->getBaseType());
        if (!d->getName().empty()) return d->getName().str();
        return diTypeStr(d->getBaseType());
    }
    if (auto *c = dyn_cast<DICompositeType>(t)) {
        if (c->getTag() == dwarf::DW_TAG_array_type) return diTypeStr(c->getBaseType()) + "[]";
        if (!c->getName().empty()) return c->getName().str();
        return "<anon>";
    }
    if (auto *b = dyn_cast<DIBasicType>(t)) return b->getName().str();
    if (isa<DISubroutineType>(t)) return "fn";
    return "?";
}

static std::string fieldName(StructType *st, unsigned idx) {
    if (!st->hasName()) return std::to_string(idx);
    std::string n = st->getName().str();
    size_t p = n.find('.'); if (p != std::string::npos) n = n.substr(p + 1);
    auto it = diFields.find(n);
    if (it == diFields.end()) {
        size_t q = n.rfind('.');
        if (q != std::string::npos) { it = diFields.find(n.substr(0, q)); }
        if (it == diFields.end()) return std::to_string(idx);
    }
    uint64_t off = DL->getStructLayout(st)->getElementOffsetInBits(idx);
    for (auto &f : it->second) if (f.first == off) return f.second;
    return std::to_string(idx);
}

static json::Value constVal(const Constant *c, int depth = 0);

// operand reference
static json::Value ref(const Value *v) {
    if (auto *b = dyn_cast<BasicBlock>(v)) return json::Array{"b", ids[b]};
    if (isa<Instruction>(v)) return json::Array{"i", ids[v]};
    if (auto *a = dyn_cast<Argument>(v)) return json::Array{"a", (int) a->getArgNo()};
    if (auto *c = dyn_cast<Constant>(v)) return constVal(c);
    if (auto *mv = dyn_cast<MetadataAsValue>(v)) { (void) mv; return json::Array{"md"}; }
    if (isa<InlineAsm>(v)) return json::Array{"asm"};
    return json::Array{"?"};
}

// describe a GEP as list of steps: ["f", structname, idx, fieldname] or ["x", ref, elemsize]
static json::Array gepPath(const GEPOperator *g) {
    json::Array out;
    bool first = true;
    for (gep_type_iterator it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
        Value *idx = it.getOperand();
        if (StructType *st = it.getStructTypeOrNull()) {
            unsigned k = cast<ConstantInt>(idx)->getZExtValue();
            out.push_back(json::Array{"f", st->hasName() ? st->getName().str() : "", (int) k, fieldName(st, k)});
        } else {
            uint64_t sz = DL->getTypeAllocSize(it.getIndexedType());
            if (first) {
                if (auto *ci = dyn_cast<ConstantInt>(idx)) if (ci->isZero()) { first = false; continue; }
            }
            out.push_back(json::Array{"x", ref(idx), (int64_t) sz});
        }
        first = false;
    }
    return out;
}

static json::Value constVal(const Constant *c, int depth) {
    if (depth > 12) return json::Array{"deep"};
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() <= 64) return json::Array{"c", ci->getSExtValue(), (int) ci->getBitWidth()};
        return json::Array{"?"};
    }
    if (auto *cf = dyn_cast<ConstantFP>(c)) return json::Array{"fp", cf->getValueAPF().convertToDouble()};
    if (isa<ConstantPointerNull>(c)) return json::Array{"null"};
    if (isa<UndefValue>(c)) return json::Array{"undef"};
    if (auto *f = dyn_cast<Function>(c)) return json::Array{"fn", f->getName().str()};
    if (auto *g = dyn_cast<GlobalVariable>(c)) return json::Array{"g", g->getName().str()};
    if (auto *a = dyn_cast<GlobalAlias>(c)) return json::Array{"g", a->getName().str()};
    if (auto *s = dyn_cast<ConstantDataSequential>(c)) {
        if (s->isString()) {
            std::string str = s->getAsString().str();
            json::Array bytes; bool ascii = true;
            for (unsigned char ch : str) if (ch >= 0x80) ascii = false;
            if (ascii) {
                bool z = !str.empty() && str.back() == 0;
                return json::Array{"str", z ? str.substr(0, str.size() - 1) : str, z, (int) str.size()};
            }
            for (unsigned char ch : str) bytes.push_back((int) ch);
            return json::Array{"bytes", std::move(bytes)};
        }
        json::Array el;
        for (unsigned i = 0; i < s->getNumElements(); i++) el.push_back(constVal(s->getElementAsConstant(i), depth + 1));
        return json::Array{"arr", std::move(el)};
    }
    if (isa<ConstantAggregateZero>(c)) return json::Array{"zero", tyStr(c->getType()), (int64_t) DL->getTypeAllocSize(c->getType())};
    if (auto *a = dyn_cast<ConstantAggregate>(c)) {
        json::Array el;
        for (auto &o : a->operands()) el.push_back(constVal(cast<Constant>(o), depth + 1));
        if (auto *st = dyn_cast<StructType>(c->getType())) return json::Array{"struct", st->hasName() ? st->getName().str() : "", std::move(el)};
        return json::Array{"arr", std::move(el)};
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        if (ce->getOpcode() == Instruction::GetElementPtr) {
            auto *g = cast<GEPOperator>(ce);
            APInt off(64, 0);
            int64_t o = -1;
            if (g->accumulateConstantOffset(*DL, off)) o = off.getSExtValue();
            return json::Array{"gep", constVal(cast<Constant>(g->getPointerOperand()), depth + 1), gepPath(g), o};
        }
        json::Array ops;
        for (auto &o : ce->operands()) ops.push_back(constVal(cast<Constant>(o), depth + 1));
        return json::Array{"cexpr", ce->getOpcodeName(), std::move(ops)};
    }
    return json::Array{"?"};
}

static void locOf(json::Object &o, const Instruction &I) {
    if (const DebugLoc &dl = I.getDebugLoc()) {
        const DILocation *l = dl.get();
        o["ln"] = (int) l->getLine();
        o["col"] = (int) l->getColumn();
        o["file"] = l->getFilename().str();
    }
}

int main(int argc, char **argv) {
    if (argc < 3) { errs() << "usage: irdump in.bc out.json\n"; return 2; }
    LLVMContext ctx; SMDiagnostic err;
    std::unique_ptr<Module> M = parseIRFile(argv[1], err, ctx);
    if (!M) { err.print("irdump", errs()); return 2; }
    DL = &M->getDataLayout();

    DebugInfoFinder F; F.processModule(*M);
    json::Object enums;
    for (const DIType *t : F.types()) {
        auto collect = [&](const std::string &name, const DICompositeType *c) {
            if (name.empty() || diFields.count(name)) return;
            std::vector<std::pair<uint64_t, std::string>> v;
            for (auto *e : c->getElements()) if (auto *m = dyn_cast_or_null<DIDerivedType>(e)) v.push_back({m->getOffsetInBits(), m->getName().str()});
            if (!v.empty()) diFields[name] = v;
        };
        if (auto *c = dyn_cast<DICompositeType>(t)) {
            if (c->getTag() == dwarf::DW_TAG_structure_type) collect(c->getName().str(), c);
        } else if (auto *d = dyn_cast<DIDerivedType>(t)) {
            if (d->getTag() == dwarf::DW_TAG_typedef) {
                if (auto *c2 = dyn_cast_or_null<DICompositeType>(d->getBaseType()))
                    if (c2->getTag() == dwarf::DW_TAG_structure_type) collect(d->getName().str(), c2);
            }
        }
    }
    std::map<const DICompositeType *, std::string> enumNames;
    for (const DIType *t : F.types()) {
        if (auto *d = dyn_cast<DIDerivedType>(t))
            if (d->getTag() == dwarf::DW_TAG_typedef) if (auto *c2 = dyn_cast_or_null<DICompositeType>(d->getBaseType()))
                if (c2->getTag() == dwarf::DW_TAG_enumeration_type) enumNames[c2] = d->getName().str();
    }
    for (const DIType *t : F.types()) {
        if (auto *c = dyn_cast<DICompositeType>(t)) if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
            json::Array el;
            for (auto *e : c->getElements()) if (auto *en = dyn_cast<DIEnumerator>(e)) el.push_back(json::Array{en->getName().str(), en->getValue().getSExtValue()});
            std::string n = c->getName().str(); if (n.empty()) n = enumNames.count(c) ? enumNames[c] : ("anon" + std::to_string((uintptr_t) c));
            enums[n] = std::move(el);
        }
    }

    json::Object structs;
    for (StructType *st : M->getIdentifiedStructTypes()) {
        if (st->isOpaque()) continue;
        json::Array fs;
        const StructLayout *sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++)
            fs.push_back(json::Object{{"name", fieldName(st, i)}, {"type", tyStr(st->getElementType(i))}, {"off", (int64_t) sl->getElementOffset(i)},
                {"size", (int64_t) DL->getTypeAllocSize(st->getElementType(i))}});
        structs[st->getName().str()] = json::Object{{"fields", std::move(fs)}, {"size", (int64_t) sl->getSizeInBytes()}};
    }

    json::Object globals;
    for (GlobalVariable &g : M->globals()) {
        json::Object o;
        o["type"] = tyStr(g.getValueType());
        o["size"] = (int64_t) DL->getTypeAllocSize(g.getValueType());
        o["const"] = g.isConstant();
        o["local"] = g.hasLocalLinkage();
        if (g.hasInitializer()) o["init"] = constVal(g.getInitializer());
        SmallVector<DIGlobalVariableExpression *, 1> gv; g.getDebugInfo(gv);
        if (!gv.empty()) { o["file"] = gv[0]->getVariable()->getFilename().str(); o["line"] = (int) gv[0]->getVariable()->getLine(); o["dtype"] = diTypeStr(gv[0]->getVariable()->getType());
            o["name"] = gv[0]->getVariable()->getName().str(); }
        globals[g.getName().str()] = std::move(o);
    }

    json::Object funcs;
    for (Function &f : *M) {
        json::Object fo;
        fo["local"] = f.hasLocalLinkage();
        fo["decl"] = f.isDeclaration();
        fo["ret"] = tyStr(f.getReturnType());
        fo["vararg"] = f.isVarArg();
        json::Array args;
        for (Argument &a : f.args()) args.push_back(json::Object{{"type", tyStr(a.getType())}});
        if (DISubprogram *sp = f.getSubprogram()) {
            fo["file"] = sp->getFilename().str(); fo["line"] = (int) sp->getLine();
            json::Array dts;
            if (auto *stt = sp->getType()) for (unsigned i = 0; i < stt->getTypeArray().size(); i++) dts.push_back(diTypeStr(stt->getTypeArray()[i]));
            fo["dtypes"] = std::move(dts);
        }
        if (f.isDeclaration()) { fo["args"] = std::move(args); funcs[f.getName().str()] = std::move(fo); continue; }
        int n = 0;
        int bn = 0;
        for (BasicBlock &b : f) ids[&b] = bn++;
        for (BasicBlock &b : f) for (Instruction &I : b) ids[&I] = n++;
        json::Object vars; // id -> varname
        json::Array blocks;
        for (BasicBlock &b : f) {
            json::Array ins;
            for (Instruction &I : b) {
                if (auto *dv = dyn_cast<DbgVariableIntrinsic>(&I)) {
                    if (dv->getNumVariableLocationOps() == 1) if (Value *v = dv->getVariableLocationOp(0)) {
                        std::string key;
                        if (isa<Instruction>(v)) key = "i" + std::to_string(ids[v]);
                        else if (auto *a = dyn_cast<Argument>(v)) key = "a" + std::to_string(a->getArgNo());
                        if (!key.empty() && (!vars.get(key))) vars[key] = json::Array{dv->getVariable()->getName().str(), diTypeStr(dv->getVariable()->getType())};
                    }
                    continue;
                }
                if (isa<DbgInfoIntrinsic>(&I)) continue;
                if (auto *ii = dyn_cast<IntrinsicInst>(&I)) if (ii->isLifetimeStartOrEnd()) continue;
                json::Object o;
                o["id"] = ids[&I];
                o["op"] = I.getOpcodeName();
                o["t"] = tyStr(I.getType());
                locOf(o, I);
                json::Array ops;
                if (auto *cb = dyn_cast<CallBase>(&I)) {
                    for (auto &a : cb->args()) ops.push_back(ref(a.get()));
                    o["callee"] = ref(cb->getCalledOperand()->stripPointerCasts());
                } else if (auto *ph = dyn_cast<PHINode>(&I)) {
                    for (unsigned k = 0; k < ph->getNumIncomingValues(); k++) ops.push_back(json::Array{ids[ph->getIncomingBlock(k)], ref(ph->getIncomingValue(k))});
                } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
                    ops.push_back(ref(sw->getCondition()));
                    o["default"] = ids[sw->getDefaultDest()];
                    json::Array cs;
                    for (auto &c : sw->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), ids[c.getCaseSuccessor()]});
                    o["cases"] = std::move(cs);
                } else if (auto *br = dyn_cast<BranchInst>(&I)) {
                    if (br->isConditional()) { ops.push_back(ref(br->getCondition())); o["succ"] = json::Array{ids[br->getSuccessor(0)], ids[br->getSuccessor(1)]}; }
                    else o["succ"] = json::Array{ids[br->getSuccessor(0)]};
                } else {
                    for (auto &op : I.operands()) ops.push_back(ref(op.get()));
                }
                if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
                    o["path"] = gepPath(cast<GEPOperator>(g));
                    APInt off(64, 0);
                    if (cast<GEPOperator>(g)->accumulateConstantOffset(*DL, off)) o["off"] = off.getSExtValue();
                }
                if (auto *c = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
                if (auto *al = dyn_cast<AllocaInst>(&I)) { o["aty"] = tyStr(al->getAllocatedType()); o["size"] = (int64_t) DL->getTypeAllocSize(al->getAllocatedType()); }
                if (auto *al = dyn_cast<AllocaInst>(&I)) { auto z = al->getAllocationSize(*DL); if (z && !z->isScalable()) o["asz"] = (int64_t) z->getFixedValue(); o["at"] = tyStr(al->getAllocatedType()); }
                if (auto *st = dyn_cast<StoreInst>(&I)) { o["sz"] = (int64_t) DL->getTypeStoreSize(st->getValueOperand()->getType()); o["vt"] = tyStr(st->getValueOperand()->getType()); }
                if (auto *ld = dyn_cast<LoadInst>(&I)) o["sz"] = (int64_t) DL->getTypeStoreSize(ld->getType());
                if (auto *ca = dyn_cast<CastInst>(&I)) o["st"] = tyStr(ca->getSrcTy());
                o["ops"] = std::move(ops);
                ins.push_back(std::move(o));
            }
            blocks.push_back(json::Object{{"id", ids[&b]}, {"ins", std::move(ins)}});
        }
        for (unsigned i = 0; i < args.size(); i++) if (auto *v = vars.getArray("a" + std::to_string(i))) (*args[i].getAsObject())["name"] = (*v)[0];
        fo["args"] = std::move(args);
        fo["vars"] = std::move(vars);
        fo["blocks"] = std::move(blocks);
        funcs[f.getName().str()] = std::move(fo);
    }
    std::error_code ec;
    raw_fd_ostream os(argv[2], ec);
    if (ec) { errs() << ec.message() << "\n"; return 2; }
    os << json::Value(json::Object{{"structs", std::move(structs)}, {"globals", std::move(globals)}, {"functions", std::move(funcs)}, {"enums", std::move(enums)}});
    return 0;
}
