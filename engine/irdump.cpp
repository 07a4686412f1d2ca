// irdump: reads LLVM bitcode, runs a pass pipeline, prints the module as JSON
// for the Python symbolic executor.
#include "llvm/IR/Module.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Demangle/Demangle.h"
#include <map>
#include <string>
#include <vector>
#include <iostream>
using namespace llvm;

static const DataLayout* DL;
static std::map<const Value*, int> regs;
static raw_ostream* OS;

static std::string q(StringRef s) {
	std::string r = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r + "\"";
}

static std::string ty(Type* t) {
	if (t->isVoidTy()) return "v";
	if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
	if (t->isDoubleTy()) return "d";
	if (t->isFloatTy()) return "f";
	if (t->isX86_FP80Ty()) return "x";
	if (t->isPointerTy()) return "p";
	if (t->isStructTy() || t->isArrayTy()) return "A";
	if (t->isVectorTy()) return "V";
	return "?";
}

// full type with layout for aggregates
static std::string fty(Type* t) {
	if (auto* st = dyn_cast<StructType>(t)) {
		auto* sl = DL->getStructLayout(st);
		std::string r = "[\"S\"," + std::to_string((uint64_t) DL->getTypeAllocSize(t)) + ",[";
		for (unsigned i = 0; i < st->getNumElements(); ++i) {
			if (i) r += ",";
			r += "[" + std::to_string((uint64_t) sl->getElementOffset(i)) + "," + fty(st->getElementType(i)) + "]";
		}
		return r + "]]";
	}
	if (auto* at = dyn_cast<ArrayType>(t)) {
		std::string r = "[\"S\"," + std::to_string((uint64_t) DL->getTypeAllocSize(t)) + ",[";
		uint64_t es = DL->getTypeAllocSize(at->getElementType());
		uint64_t n = at->getNumElements();
		if (n > 256) return "[\"BIG\"]";
		for (uint64_t i = 0; i < n; ++i) {
			if (i) r += ",";
			r += "[" + std::to_string(i * es) + "," + fty(at->getElementType()) + "]";
		}
		return r + "]]";
	}
	if (auto* vt = dyn_cast<FixedVectorType>(t)) {
		std::string r = "[\"S\"," + std::to_string((uint64_t) DL->getTypeAllocSize(t)) + ",[";
		uint64_t es = DL->getTypeAllocSize(vt->getElementType());
		for (uint64_t i = 0; i < vt->getNumElements(); ++i) {
			if (i) r += ",";
			r += "[" + std::to_string(i * es) + "," + fty(vt->getElementType()) + "]";
		}
		return r + "]]";
	}
	return q(ty(t));
}

static std::string op(const Value* v);

static std::string constant(const Constant* c) {
	Type* t = c->getType();
	if (auto* ci = dyn_cast<ConstantInt>(c)) {
		SmallString<64> s; ci->getValue().toStringUnsigned(s, 10);
		return "[\"i\"," + std::to_string(ci->getBitWidth()) + "," + std::string(s.str()) + "]";
	}
	if (auto* cf = dyn_cast<ConstantFP>(c)) {
		APFloat f = cf->getValueAPF();
		SmallString<64> s; f.bitcastToAPInt().toStringUnsigned(s, 10);
		return "[\"f\"," + q(ty(t)) + "," + std::string(s.str()) + "]";
	}
	if (isa<ConstantPointerNull>(c)) return "[\"i\",64,0]";
	if (isa<UndefValue>(c)) return "[\"u\"," + fty(t) + "]";
	if (auto* f = dyn_cast<Function>(c)) return "[\"fn\"," + q(f->getName()) + "]";
	if (auto* g = dyn_cast<GlobalVariable>(c)) return "[\"g\"," + q(g->getName()) + ",0]";
	if (auto* ga = dyn_cast<GlobalAlias>(c)) return constant(ga->getAliasee());
	if (isa<ConstantAggregateZero>(c)) return "[\"z\"," + fty(t) + "]";
	if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
		std::string r = "[\"a\",[";
		for (unsigned i = 0; i < cd->getNumElements(); ++i) {
			if (i) r += ",";
			r += constant(cd->getElementAsConstant(i));
		}
		return r + "]," + fty(t) + "]";
	}
	if (isa<ConstantAggregate>(c)) {
		std::string r = "[\"a\",[";
		for (unsigned i = 0; i < c->getNumOperands(); ++i) {
			if (i) r += ",";
			r += constant(cast<Constant>(c->getOperand(i)));
		}
		return r + "]," + fty(t) + "]";
	}
	if (auto* ce = dyn_cast<ConstantExpr>(c)) {
		if (auto* gep = dyn_cast<GEPOperator>(ce)) {
			APInt off(64, 0);
			if (gep->accumulateConstantOffset(*DL, off))
				return "[\"ce+\"," + constant(cast<Constant>(gep->getPointerOperand())) + "," + std::to_string(off.getSExtValue()) + "]";
		}
		if (ce->isCast())
			return "[\"cast\"," + q(ce->getOpcodeName()) + "," + constant(ce->getOperand(0)) + "," + q(ty(t)) + "]";
		return "[\"?\"," + q(ce->getOpcodeName()) + "]";
	}
	return "[\"?\",\"const\"]";
}

static std::string op(const Value* v) {
	auto it = regs.find(v);
	if (it != regs.end()) return "[\"r\"," + std::to_string(it->second) + "]";
	if (auto* c = dyn_cast<Constant>(v)) return constant(c);
	if (isa<MetadataAsValue>(v)) return "[\"m\"]";
	if (auto* ia = dyn_cast<InlineAsm>(v))
		return "[\"asm\"," + q(ia->getAsmString()) + "," + q(ia->getConstraintString()) + "]";
	return "[\"?\",\"val\"]";
}

// Flatten a constant initialiser to (offset, scalar const) cells
static void flat(const Constant* c, uint64_t off, bool& first) {
	Type* t = c->getType();
	if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return; // zero default
	if (auto* st = dyn_cast<StructType>(t)) {
		auto* sl = DL->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); ++i)
			flat(c->getAggregateElement(i), off + sl->getElementOffset(i), first);
		return;
	}
	if (t->isArrayTy() || t->isVectorTy()) {
		uint64_t n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
		Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
		uint64_t es = DL->getTypeAllocSize(et);
		for (uint64_t i = 0; i < n; ++i) flat(c->getAggregateElement(i), off + i * es, first);
		return;
	}
	if (!first) *OS << ",";
	first = false;
	*OS << "[" << off << "," << (uint64_t) DL->getTypeStoreSize(t) << "," << q(ty(t)) << "," << constant(c) << "]";
}

int main(int argc, char** argv) {
	if (argc < 4) { errs() << "usage: irdump in.bc passes out.json\n"; return 2; }
	LLVMContext ctx; SMDiagnostic err;
	auto M = parseIRFile(argv[1], err, ctx);
	if (!M) { err.print("irdump", errs()); return 2; }
	for (auto& F : *M) { F.removeFnAttr(Attribute::OptimizeNone); }
	{
		LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
		PassBuilder PB;
		PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
		PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
		ModulePassManager MPM;
		if (auto e = PB.parsePassPipeline(MPM, argv[2])) { errs() << toString(std::move(e)) << "\n"; return 2; }
		MPM.run(*M, MAM);
	}
	DL = &M->getDataLayout();
	std::error_code ec; raw_fd_ostream out(argv[3], ec); OS = &out;
	out << "{\"globals\":[";
	bool fg = true;
	for (auto& g : M->globals()) {
		if (g.getName().starts_with("llvm.")) continue;
		if (!fg) out << ",\n"; fg = false;
		out << "{\"n\":" << q(g.getName()) << ",\"sz\":" << (g.getValueType()->isSized() ? (uint64_t) DL->getTypeAllocSize(g.getValueType()) : 0)
			<< ",\"c\":" << (g.isConstant() ? 1 : 0) << ",\"d\":" << (g.hasInitializer() ? 1 : 0) << ",\"init\":[";
		if (g.hasInitializer()) { bool first = true; flat(g.getInitializer(), 0, first); }
		out << "]}";
	}
	out << "],\n\"functions\":{";
	bool ff = true;
	for (auto& F : *M) {
		if (F.isDeclaration()) continue;
		if (!ff) out << ",\n"; ff = false;
		regs.clear();
		std::map<const BasicBlock*, int> bbs;
		int n = 0, nb = 0;
		for (auto& a : F.args()) regs[&a] = n++;
		for (auto& B : F) { bbs[&B] = nb++; for (auto& I : B) if (!I.getType()->isVoidTy()) regs[&I] = n++; }
		out << q(F.getName()) << ":{\"dn\":" << q(demangle(F.getName().str())) << ",\"na\":" << F.arg_size() << ",\"nr\":" << n << ",\"va\":" << (F.isVarArg()?1:0) << ",\"at\":[";
		{ bool fa = true; for (auto& a : F.args()) { if (!fa) out << ","; fa = false;
			// byval args: give size to copy
			if (a.hasByValAttr()) out << "[\"byval\"," << (uint64_t) DL->getTypeAllocSize(a.getParamByValType()) << "]";
			else out << q(ty(a.getType())); } }
		out << "],\"rt\":" << fty(F.getReturnType()) << ",\"file\":" << q(F.getSubprogram() ? F.getSubprogram()->getFilename() : "") << ",\"b\":[";
		bool fb = true;
		for (auto& B : F) {
			if (!fb) out << ",\n"; fb = false;
			out << "[";
			bool fi = true;
			for (auto& I : B) {
				if (isa<DbgInfoIntrinsic>(I)) continue;
				std::string d = I.getType()->isVoidTy() ? "-1" : std::to_string(regs[&I]);
				std::string s;
				unsigned line = I.getDebugLoc() ? I.getDebugLoc().getLine() : 0;
				auto head = [&](std::string o) { return "[" + q(o) + "," + d + "," + std::to_string(line); };
				if (auto* x = dyn_cast<ReturnInst>(&I)) {
					s = head("ret") + "," + (x->getReturnValue() ? op(x->getReturnValue()) : "null") + "]";
				} else if (auto* x = dyn_cast<BranchInst>(&I)) {
					if (x->isConditional())
						s = head("cbr") + "," + op(x->getCondition()) + "," + std::to_string(bbs[x->getSuccessor(0)]) + "," + std::to_string(bbs[x->getSuccessor(1)]) + "]";
					else s = head("br") + "," + std::to_string(bbs[x->getSuccessor(0)]) + "]";
				} else if (auto* x = dyn_cast<SwitchInst>(&I)) {
					s = head("switch") + "," + op(x->getCondition()) + "," + std::to_string(bbs[x->getDefaultDest()]) + "," + q(ty(x->getCondition()->getType())) + ",[";
					bool f1 = true;
					for (auto& c : x->cases()) {
						if (!f1) s += ","; f1 = false;
						SmallString<64> st; c.getCaseValue()->getValue().toStringUnsigned(st, 10);
						s += "[" + std::string(st.str()) + "," + std::to_string(bbs[c.getCaseSuccessor()]) + "]";
					}
					s += "]]";
				} else if (isa<UnreachableInst>(&I)) s = head("unreachable") + "]";
				else if (auto* x = dyn_cast<BinaryOperator>(&I)) {
					std::string fl;
					if (auto* ob = dyn_cast<OverflowingBinaryOperator>(x)) { if (ob->hasNoSignedWrap()) fl += "s"; if (ob->hasNoUnsignedWrap()) fl += "u"; }
					s = head(x->getOpcodeName()) + "," + fty(I.getType()) + "," + op(x->getOperand(0)) + "," + op(x->getOperand(1)) + "," + q(fl) + "]";
				} else if (auto* x = dyn_cast<UnaryOperator>(&I))
					s = head(x->getOpcodeName()) + "," + q(ty(I.getType())) + "," + op(x->getOperand(0)) + "]";
				else if (auto* x = dyn_cast<CmpInst>(&I))
					s = head(isa<ICmpInst>(x) ? "icmp" : "fcmp") + "," + q(CmpInst::getPredicateName(x->getPredicate())) + "," + q(ty(x->getOperand(0)->getType())) + "," + op(x->getOperand(0)) + "," + op(x->getOperand(1)) + "]";
				else if (auto* x = dyn_cast<CastInst>(&I))
					s = head(x->getOpcodeName()) + "," + q(ty(x->getSrcTy())) + "," + q(ty(x->getDestTy())) + "," + op(x->getOperand(0)) + "]";
				else if (auto* x = dyn_cast<AllocaInst>(&I))
					s = head("alloca") + "," + std::to_string((uint64_t) DL->getTypeAllocSize(x->getAllocatedType())) + "," + op(x->getArraySize()) + "]";
				else if (auto* x = dyn_cast<LoadInst>(&I))
					s = head("load") + "," + fty(I.getType()) + "," + std::to_string((uint64_t) DL->getTypeStoreSize(I.getType())) + "," + op(x->getPointerOperand()) + "]";
				else if (auto* x = dyn_cast<StoreInst>(&I))
					s = head("store") + "," + fty(x->getValueOperand()->getType()) + "," + std::to_string((uint64_t) DL->getTypeStoreSize(x->getValueOperand()->getType())) + "," + op(x->getValueOperand()) + "," + op(x->getPointerOperand()) + "]";
				else if (auto* x = dyn_cast<GetElementPtrInst>(&I)) {
					MapVector<Value*, APInt> vo; APInt co(64, 0);
					if (cast<GEPOperator>(x)->collectOffset(*DL, 64, vo, co)) {
						s = head("gep") + "," + op(x->getPointerOperand()) + "," + std::to_string(co.getSExtValue()) + ",[";
						bool f1 = true;
						for (auto& p : vo) {
							if (!f1) s += ","; f1 = false;
							s += "[" + op(p.first) + "," + std::to_string(p.second.getSExtValue()) + "," + std::to_string(p.first->getType()->getIntegerBitWidth()) + "]";
						}
						s += "]]";
					} else s = head("?gep") + "]";
				} else if (auto* x = dyn_cast<SelectInst>(&I))
					s = head("select") + "," + fty(I.getType()) + "," + op(x->getCondition()) + "," + op(x->getTrueValue()) + "," + op(x->getFalseValue()) + "]";
				else if (auto* x = dyn_cast<PHINode>(&I)) {
					s = head("phi") + "," + fty(I.getType()) + ",[";
					for (unsigned i = 0; i < x->getNumIncomingValues(); ++i) {
						if (i) s += ",";
						s += "[" + std::to_string(bbs[x->getIncomingBlock(i)]) + "," + op(x->getIncomingValue(i)) + "]";
					}
					s += "]]";
				} else if (auto* x = dyn_cast<CallBase>(&I)) {
					s = head("call") + "," + fty(I.getType()) + "," + op(x->getCalledOperand()) + ",[";
					bool f1 = true;
					for (auto& a : x->args()) { if (!f1) s += ","; f1 = false; s += op(a.get()); }
					s += "],";
					if (auto* iv = dyn_cast<InvokeInst>(x)) s += std::to_string(bbs[iv->getNormalDest()]); else s += "-1";
					s += ",[";
					f1 = true;
					for (auto& a : x->args()) { if (!f1) s += ","; f1 = false; s += q(ty(a->getType())); }
					s += "],";
					if (auto* iv = dyn_cast<InvokeInst>(x)) s += std::to_string(bbs[iv->getUnwindDest()]); else s += "-1";
					s += "]";
				} else if (auto* x = dyn_cast<LandingPadInst>(&I)) {
					s = head("landingpad") + "," + (x->isCleanup() ? "1" : "0") + ",[";
					for (unsigned i = 0; i < x->getNumClauses(); ++i) { if (i) s += ","; s += x->isCatch(i) ? op(x->getClause(i)) : std::string("[\"?\",\"filter\"]"); }
					s += "]]";
				} else if (auto* x = dyn_cast<ResumeInst>(&I)) {
					s = head("resume") + "]";
				} else if (auto* x = dyn_cast<ExtractValueInst>(&I)) {
					s = head("extractvalue") + "," + op(x->getAggregateOperand()) + ",[";
					for (unsigned i = 0; i < x->getNumIndices(); ++i) { if (i) s += ","; s += std::to_string(x->getIndices()[i]); }
					s += "]]";
				} else if (auto* x = dyn_cast<InsertValueInst>(&I)) {
					s = head("insertvalue") + "," + op(x->getAggregateOperand()) + "," + op(x->getInsertedValueOperand()) + ",[";
					for (unsigned i = 0; i < x->getNumIndices(); ++i) { if (i) s += ","; s += std::to_string(x->getIndices()[i]); }
					s += "]]";
				} else if (isa<ExtractElementInst>(&I))
					s = head("extractelement") + "," + op(I.getOperand(0)) + "," + op(I.getOperand(1)) + "]";
				else if (isa<InsertElementInst>(&I))
					s = head("insertelement") + "," + op(I.getOperand(0)) + "," + op(I.getOperand(1)) + "," + op(I.getOperand(2)) + "]";
				else if (isa<FreezeInst>(&I)) s = head("freeze") + "," + op(I.getOperand(0)) + "]";
				else s = head(std::string("?") + I.getOpcodeName()) + "]";
				if (!fi) out << ","; fi = false;
				out << s;
			}
			out << "]";
		}
		out << "]}";
	}
	out << "}}\n";
	return 0;
}
