// irdump: mechanical extraction of the verified text.
// Reads the LLVM bitcode the real compiler front end made from /repo's sources
// and prints it as JSON (instructions with byte offsets resolved, constant
// initialisers, loops, DWARF class layouts).  It interprets nothing.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/CFG.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include <map>
#include <set>
using namespace llvm;
typedef json::Value JV;
typedef json::Array JA;
typedef json::Object JO;
static const DataLayout* DL;

static std::string tyStr(Type* t) {
    if (t->isVoidTy()) return "void";
    if (t->isPointerTy()) return "ptr";
    if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
    if (t->isFloatTy()) return "float";
    if (t->isDoubleTy()) return "double";
    if (t->isX86_FP80Ty()) return "fp80";
    if (auto* a = dyn_cast<ArrayType>(t))
        return "[" + std::to_string(a->getNumElements()) + "x" + tyStr(a->getElementType()) + "]";
    if (auto* s = dyn_cast<StructType>(t)) {
        std::string r = "{";
        const StructLayout* sl = s->isSized() ? DL->getStructLayout(s) : nullptr;
        for (unsigned i = 0; i < s->getNumElements(); ++i) {
            if (i) r += ",";
            if (sl) r += std::to_string((uint64_t)sl->getElementOffset(i)) + ":";
            r += tyStr(s->getElementType(i));
        }
        return r + "}";
    }
    if (t->isVectorTy()) return "vec";
    return "other";
}
static int64_t sizeOf(Type* t) {
    if (!t->isSized()) return 0;
    return (int64_t)DL->getTypeAllocSize(t).getFixedValue();
}
static std::map<const Value*, int> ids;
static JV opnd(const Value* v);

// flatten a constant initialiser to a list of [offset,kind,...] cells
static void flat(const Constant* c, int64_t off, JA& out) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || (isa<UndefValue>(c) && (t->isStructTy() || t->isArrayTy()))) {
        out.push_back(JA{off, "zero", sizeOf(t)});
        return;
    }
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
        if (d->isString() || d->getElementType()->isIntegerTy(8)) {
            std::string hex;
            static const char* H = "0123456789abcdef";
            StringRef s = d->getRawDataValues();
            for (unsigned char ch : s) { hex += H[ch >> 4]; hex += H[ch & 15]; }
            out.push_back(JA{off, "bytes", hex});
            return;
        }
        int64_t es = sizeOf(d->getElementType());
        for (unsigned i = 0; i < d->getNumElements(); ++i)
            flat(d->getElementAsConstant(i), off + i * es, out);
        return;
    }
    if (auto* s = dyn_cast<ConstantStruct>(c)) {
        const StructLayout* sl = DL->getStructLayout(s->getType());
        for (unsigned i = 0; i < s->getNumOperands(); ++i)
            flat(s->getOperand(i), off + (int64_t)sl->getElementOffset(i), out);
        return;
    }
    if (auto* a = dyn_cast<ConstantArray>(c)) {
        int64_t es = sizeOf(a->getType()->getElementType());
        for (unsigned i = 0; i < a->getNumOperands(); ++i)
            flat(a->getOperand(i), off + i * es, out);
        return;
    }
    out.push_back(JA{off, "val", sizeOf(t), tyStr(t), opnd(c)});
}

static JV opnd(const Value* v) {
    if (auto* ci = dyn_cast<ConstantInt>(v)) {
        SmallString<40> s;
        ci->getValue().toString(s, 10, false);
        return JA{"c", (int64_t)ci->getBitWidth(), std::string(s.str())};
    }
    if (isa<ConstantPointerNull>(v)) return JA{"null"};
    if (isa<UndefValue>(v)) return JA{"undef", tyStr(v->getType())};
    if (auto* gv = dyn_cast<GlobalAlias>(v)) return opnd(gv->getAliasee());
    if (auto* gv = dyn_cast<GlobalValue>(v)) return JA{"g", gv->getName().str(), 0};
    if (auto* cf = dyn_cast<ConstantFP>(v)) {
        SmallString<40> s;
        cf->getValueAPF().bitcastToAPInt().toString(s, 10, false);
        return JA{"fp", tyStr(v->getType()), std::string(s.str())};
    }
    if (auto* ce = dyn_cast<ConstantExpr>(v)) {
        if (auto* g = dyn_cast<GEPOperator>(ce)) {
            APInt off(64, 0);
            if (g->accumulateConstantOffset(*DL, off)) {
                JV base = opnd(g->getPointerOperand());
                if (auto* ja = base.getAsArray())
                    if (ja->size() == 3 && (*ja)[0] == JV("g"))
                        return JA{"g", (*ja)[1].getAsString()->str(), *(*ja)[2].getAsInteger() + off.getSExtValue()};
            }
        }
        JA a{"ce", std::string(ce->getOpcodeName()), tyStr(ce->getType())};
        for (auto& o : ce->operands()) a.push_back(opnd(o.get()));
        return a;
    }
    if (isa<ConstantAggregate>(v) || isa<ConstantDataSequential>(v) || isa<ConstantAggregateZero>(v)) {
        JA cells; flat(cast<Constant>(v), 0, cells);
        return JA{"agg", tyStr(v->getType()), std::move(cells)};
    }
    if (isa<MetadataAsValue>(v)) return JA{"md"};
    if (isa<InlineAsm>(v)) return JA{"asm"};
    if (isa<BasicBlock>(v)) return JA{"b", ids[v]};
    auto it = ids.find(v);
    if (it != ids.end()) return JA{"v", it->second};
    return JA{"unk"};
}

static JV dumpInst(const Instruction& I, std::map<const BasicBlock*, int>& bb) {
    JO o;
    o["op"] = std::string(I.getOpcodeName());
    o["id"] = ids[&I];
    o["ty"] = tyStr(I.getType());
    if (auto& d = I.getDebugLoc()) {
        o["line"] = (int64_t)d.getLine();
        o["file"] = d->getFilename().str();
    }
    if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&I)) {
        if (ob->hasNoSignedWrap()) o["nsw"] = true;
        if (ob->hasNoUnsignedWrap()) o["nuw"] = true;
    }
    if (auto* p = dyn_cast<PHINode>(&I)) {
        JA in;
        for (unsigned i = 0; i < p->getNumIncomingValues(); ++i)
            in.push_back(JA{bb[p->getIncomingBlock(i)], opnd(p->getIncomingValue(i))});
        o["in"] = std::move(in);
        return o;
    }
    if (auto* a = dyn_cast<AllocaInst>(&I)) {
        o["aty"] = tyStr(a->getAllocatedType());
        o["size"] = sizeOf(a->getAllocatedType());
        o["n"] = opnd(a->getArraySize());
        return o;
    }
    if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
        APInt off(64, 0);
        MapVector<Value*, APInt> vars;
        o["base"] = opnd(g->getPointerOperand());
        o["inb"] = g->isInBounds();
        if (cast<GEPOperator>(g)->collectOffset(*DL, 64, vars, off)) {
            o["off"] = off.getSExtValue();
            JA va;
            for (auto& kv : vars)
                va.push_back(JA{opnd(kv.first), kv.second.getSExtValue(), tyStr(kv.first->getType())});
            o["vars"] = std::move(va);
        }
        return o;
    }
    if (auto* b = dyn_cast<BranchInst>(&I)) {
        if (b->isConditional()) {
            o["cond"] = opnd(b->getCondition());
            o["t"] = bb[b->getSuccessor(0)];
            o["f"] = bb[b->getSuccessor(1)];
        } else o["t"] = bb[b->getSuccessor(0)];
        return o;
    }
    if (auto* s = dyn_cast<SwitchInst>(&I)) {
        o["cond"] = opnd(s->getCondition());
        o["def"] = bb[s->getDefaultDest()];
        JA cs;
        for (auto& c : s->cases()) cs.push_back(JA{opnd(c.getCaseValue()), bb[c.getCaseSuccessor()]});
        o["cases"] = std::move(cs);
        return o;
    }
    if (auto* c = dyn_cast<ICmpInst>(&I)) o["pred"] = std::string(CmpInst::getPredicateName(c->getPredicate()).str());
    if (auto* c = dyn_cast<FCmpInst>(&I)) o["pred"] = std::string(CmpInst::getPredicateName(c->getPredicate()).str());
    if (auto* c = dyn_cast<CallBase>(&I)) {
        o["callee"] = opnd(c->getCalledOperand()->stripPointerCasts());
        JA as, at;
        for (auto& u : c->args()) { as.push_back(opnd(u.get())); at.push_back(tyStr(u->getType())); }
        o["args"] = std::move(as);
        o["aty"] = std::move(at);
        if (auto* iv = dyn_cast<InvokeInst>(&I)) { o["t"] = bb[iv->getNormalDest()]; }
        return o;
    }
    if (auto* e = dyn_cast<ExtractValueInst>(&I)) {
        JA ix; for (auto i : e->indices()) ix.push_back((int64_t)i);
        o["idx"] = std::move(ix);
    }
    if (auto* e = dyn_cast<InsertValueInst>(&I)) {
        JA ix; for (auto i : e->indices()) ix.push_back((int64_t)i);
        o["idx"] = std::move(ix);
    }
    JA ops, ots;
    for (auto& u : I.operands()) { ops.push_back(opnd(u.get())); ots.push_back(tyStr(u->getType())); }
    o["ops"] = std::move(ops);
    o["ots"] = std::move(ots);
    return o;
}

static void dumpLoop(Loop* L, JA& out, std::map<const BasicBlock*, int>& bb) {
    JO o;
    o["header"] = bb[L->getHeader()];
    JA bl;
    for (auto* b : L->blocks()) bl.push_back(bb[b]);
    o["blocks"] = std::move(bl);
    out.push_back(std::move(o));
    for (auto* s : L->getSubLoops()) dumpLoop(s, out, bb);
}

int main(int argc, char** argv) {
    LLVMContext C;
    SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, C);
    if (!M) { err.print(argv[0], errs()); return 2; }
    DL = &M->getDataLayout();
    JO root;
    JO funcs;
    for (auto& F : *M) {
        JO fo;
        fo["dem"] = demangle(F.getName().str());
        fo["ret"] = tyStr(F.getReturnType());
        fo["va"] = F.isVarArg();
        JA ps;
        ids.clear();
        int n = 0;
        for (auto& a : F.args()) {
            ids[&a] = n;
            JO p; p["id"] = n++; p["ty"] = tyStr(a.getType());
            if (a.hasStructRetAttr()) p["sret"] = sizeOf(a.getParamStructRetType());
            ps.push_back(std::move(p));
        }
        fo["params"] = std::move(ps);
        if (!F.isDeclaration()) {
            if (auto* sp = F.getSubprogram()) {
                fo["file"] = sp->getFilename().str();
                fo["line"] = (int64_t)sp->getLine();
            }
            std::map<const BasicBlock*, int> bb;
            int k = 0;
            for (auto& B : F) { bb[&B] = k++; for (auto& I : B) ids[&I] = n++; }
            JA bs;
            JO names;
            for (auto& B : F) {
                JA is;
                for (auto& I : B) {
                    if (auto* dv = dyn_cast<DbgValueInst>(&I)) {
                        if (!dv->hasArgList() && dv->getValue() && ids.count(dv->getValue())) {
                            JO d; d["op"] = "dbg"; d["var"] = dv->getVariable()->getName().str();
                            d["val"] = opnd(dv->getValue());
                            is.push_back(std::move(d));
                        } else if (!dv->hasArgList() && dv->getValue() && isa<Constant>(dv->getValue())) {
                            JO d; d["op"] = "dbg"; d["var"] = dv->getVariable()->getName().str();
                            d["val"] = opnd(dv->getValue());
                            is.push_back(std::move(d));
                        }
                        continue;
                    }
                    if (auto* dd = dyn_cast<DbgDeclareInst>(&I)) {
                        if (dd->getAddress() && ids.count(dd->getAddress())) {
                            JO d; d["op"] = "dbgdecl"; d["var"] = dd->getVariable()->getName().str();
                            d["val"] = opnd(dd->getAddress());
                            is.push_back(std::move(d));
                        }
                        continue;
                    }
                    if (isa<DbgInfoIntrinsic>(&I)) continue;
                    is.push_back(dumpInst(I, bb));
                }
                bs.push_back(std::move(is));
            }
            fo["blocks"] = std::move(bs);
            DominatorTree DT(F);
            LoopInfo LI(DT);
            JA ls;
            for (auto* L : LI) dumpLoop(L, ls, bb);
            fo["loops"] = std::move(ls);
        }
        funcs[F.getName().str()] = std::move(fo);
    }
    root["functions"] = std::move(funcs);
    JO al;
    for (auto& A : M->aliases()) { ids.clear(); al[A.getName().str()] = opnd(A.getAliasee()); }
    root["aliases"] = std::move(al);
    JO gl;
    for (auto& G : M->globals()) {
        ids.clear();
        JO g;
        g["ty"] = tyStr(G.getValueType());
        g["size"] = sizeOf(G.getValueType());
        g["const"] = G.isConstant();
        if (G.hasInitializer()) { JA cells; flat(G.getInitializer(), 0, cells); g["init"] = std::move(cells); }
        gl[G.getName().str()] = std::move(g);
    }
    root["globals"] = std::move(gl);
    // DWARF class layouts
    DebugInfoFinder fi;
    fi.processModule(*M);
    JO cls;
    auto tname = [](const DIType* t) -> std::string {
        std::string pre;
        int guard = 0;
        while (t && guard++ < 20) {
            if (auto* d = dyn_cast<DIDerivedType>(t)) {
                switch (d->getTag()) {
                case dwarf::DW_TAG_pointer_type: pre += "*"; t = d->getBaseType(); continue;
                case dwarf::DW_TAG_reference_type: pre += "&"; t = d->getBaseType(); continue;
                case dwarf::DW_TAG_const_type: case dwarf::DW_TAG_volatile_type: t = d->getBaseType(); continue;
                case dwarf::DW_TAG_typedef:
                    if (d->getName() == "string") return pre + "std::string";
                    t = d->getBaseType(); continue;
                default: break;
                }
            }
            if (auto* ct = dyn_cast<DICompositeType>(t)) {
                std::string n = ct->getName().str();
                if (ct->getTag() == dwarf::DW_TAG_array_type) return pre + "[array]";
                return pre + n;
            }
            return pre + t->getName().str();
        }
        return pre + "void";
    };
    for (auto* t : fi.types()) {
        auto* ct = dyn_cast<DICompositeType>(t);
        if (!ct || ct->isForwardDecl()) continue;
        if (ct->getTag() != dwarf::DW_TAG_class_type && ct->getTag() != dwarf::DW_TAG_structure_type && ct->getTag() != dwarf::DW_TAG_union_type) continue;
        std::string qn = ct->getName().str();
        const DIScope* sc = ct->getScope();
        while (sc) {
            if (auto* ns = dyn_cast<DINamespace>(sc)) { qn = ns->getName().str() + "::" + qn; sc = ns->getScope(); }
            else if (auto* c2 = dyn_cast<DICompositeType>(sc)) { qn = c2->getName().str() + "::" + qn; sc = c2->getScope(); }
            else break;
        }
        if (qn.substr(0, 5) == "std::" || qn.substr(0,9) == "__gnu_cxx") continue;
        JA ms;
        for (auto* el : ct->getElements()) {
            auto* d = dyn_cast<DIDerivedType>(el);
            if (!d || d->isStaticMember()) continue;
            JO m;
            if (d->getTag() == dwarf::DW_TAG_inheritance) m["base"] = tname(d->getBaseType());
            else if (d->getTag() == dwarf::DW_TAG_member) { m["name"] = d->getName().str(); m["type"] = tname(d->getBaseType()); }
            else continue;
            m["off"] = (int64_t)(d->getOffsetInBits() / 8);
            m["size"] = (int64_t)(d->getSizeInBits() / 8);
            ms.push_back(std::move(m));
        }
        JO c;
        c["size"] = (int64_t)(ct->getSizeInBits() / 8);
        c["members"] = std::move(ms);
        cls[qn] = std::move(c);
    }
    root["classes"] = std::move(cls);
    outs() << JV(std::move(root)) << "\n";
    return 0;
}
