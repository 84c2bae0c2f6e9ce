#include "exec.h"
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <fstream>
#include <functional>
#include <random>
#include <sstream>
#include <sys/resource.h>
#include <unistd.h>

using namespace llvm;

static double nowS() {
	return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------- trie
static void relObj(Obj* o) { if (o && --o->rc == 0) delete o; }
void Trie::release(Node* n) {
	if (!n || --n->rc) return;
	for (auto*& c : n->ch) {
		if (!c) continue;
		if (n->level == 0) relObj((Obj*) c);
		else release((Node*) c);
	}
	delete n;
}
Node* Trie::setRec(Node* n, int lv, u32 slot, Obj* o) {
	if (!n) {
		if (!o) return nullptr;
		n = new Node;
		n->level = lv;
		n->rc = 1;
		memset(n->ch, 0, sizeof n->ch);
	} else if (n->rc > 1) {
		Node* c = new Node;
		c->rc = 1;
		c->level = lv;
		memcpy(c->ch, n->ch, sizeof n->ch);
		for (auto* x : c->ch) if (x) { if (lv == 0) ++((Obj*) x)->rc; else ++((Node*) x)->rc; }
		--n->rc;
		n = c;
	}
	unsigned i = (slot >> (6 * lv)) & 63;
	if (lv == 0) {
		if (o) ++o->rc;
		relObj((Obj*) n->ch[i]);
		n->ch[i] = o;
	} else {
		n->ch[i] = setRec((Node*) n->ch[i], lv - 1, slot, o);
	}
	return n;
}
void Trie::set(u32 slot, Obj* o) { root = setRec(root, 3, slot, o); }

struct Done { const char* why; };     // terminates the current state

struct Exec;
using Builtin = std::function<void(Exec&, State&, KInst&, std::vector<Val>&)>;

struct Exec {
	LLVMContext ctx;
	std::unique_ptr<Module> M;
	DataLayout const* DL = nullptr;
	Options opt;
	Solver solver;
	std::unordered_map<Function const*, KFunc*> kfuncs;
	std::unordered_map<Function const*, u64> faddr;
	std::vector<Function*> fbyaddr;
	std::unordered_map<GlobalVariable const*, u64> gaddr;
	std::map<std::string, u64> extTI; // addresses of external vtables etc. by name
	std::unordered_map<std::string, int> builtinIdx;
	std::vector<std::pair<std::string, Builtin>> builtins;
	std::vector<State*> work;
	u64 nextStateId = 1;
	double tStart = 0, tViol = 0;
	// statistics
	u64 pathsDone = 0, pathsAssume = 0, pathsError = 0, pathsIncomplete = 0, forks = 0, instrs = 0, maxDepth = 0;
	std::map<std::string, u64> incomplete;
	std::vector<Violation> viol;
	std::set<std::string> violKeys;
	std::set<std::string> reachedAll;
	std::vector<std::string> samples;
	u64 samplesSeen = 0;
	bool stopAll = false;
	bool timedOut = false;
	std::unordered_map<u64, int> typeIds;
	int nextTypeId = 1;
	Model const* lastModel = nullptr;
	std::mt19937_64 rng;

	// ------------------------------------------------------------ helpers
	u128 evalS(State& s, Expr* e) {
		if (lastModel != s.model.get()) { ex::newEpoch(); lastModel = s.model.get(); }
		return ex::eval(e, *s.model);
	}
	Res query(State& s, Expr* q, Model& out) {
		if (late()) throw Done {"incomplete"};
		Res r = solver.check(s.cs, q, *s.model, out);
		lastModel = nullptr;
		return r;
	}
	// the time is over: earlier once a violation is known
	bool late() {
		if (timedOut) return true;
		double t = nowS();
		if (t - tStart > opt.timeLimit || (tViol > 0 && t - tViol > 15)) { timedOut = true; stopAll = true; note("time-limit"); }
		return timedOut;
	}
	bool allFixed(State& s, Expr* e) {
		for (u32 x : ex::syms(e)) if (x >= s.fixedSyms.size() || !s.fixedSyms[x]) return false;
		return true;
	}
	void addC(State& s, Expr* c) {
		if (c->isConst()) return;
		if (c->k == K::And) { addC(s, c->op[0]); addC(s, c->op[1]); return; }
		if (c->k == K::Eq && c->op[1]->isConst() && c->op[0]->k == K::Sym) {
			u32 x = c->op[0]->aux;
			if (s.fixedSyms.size() <= x) s.fixedSyms.resize(x + 1, 0);
			s.fixedSyms[x] = 1;
		}
		s.cs.push_back(c);
	}
	State* clone(State& s) {
		State* n = new State(s);
		n->id = nextStateId++;
		n->depth = ++s.depth;
		++forks;
		if (n->depth > maxDepth) maxDepth = n->depth;
		return n;
	}
	void note(std::string const& why) { ++incomplete[why]; }
	// fork on a condition; the sibling re-executes the current instruction
	bool decide(State& s, Expr* c) {
		if (c->isConst()) return c->val != 0;
		Expr* nc = ex::lnot(c);
		if (!s.cs.empty()) {
			if (s.cs.back() == c) return true;
			if (s.cs.back() == nc) return false;
		}
		bool v = evalS(s, c) != 0;
		if (allFixed(s, c)) return v;
		Expr* other = v ? nc : c;
		Model m2;
		Res r = query(s, other, m2);
		if (r == Res::Sat) {
			State* n = clone(s);
			addC(*n, other);
			n->model = std::make_shared<Model>(std::move(m2));
			work.push_back(n);
		} else if (r == Res::Unknown) note("solver-unknown");
		if (r != Res::Unsat) addC(s, v ? c : nc);
		return v;
	}
	u64 concretize(State& s, Val const& v, unsigned w) {
		if (!v.e) return v.c;
		Expr* e = v.e;
		if (e->isConst()) return (u64) e->val;
		auto it = s.conc.find(e->id);
		if (it != s.conc.end()) return it->second;
		u64 x = (u64) evalS(s, e);
		Expr* eq = ex::cmp(K::Eq, e, ex::cst(x, e->w));
		if (!allFixed(s, e)) {
			Model m2;
			Expr* ne = ex::lnot(eq);
			Res r = query(s, ne, m2);
			if (r == Res::Sat) {
				if (s.concForks < opt.concLimit) {
					State* n = clone(s);
					n->concForks++;
					addC(*n, ne);
					n->model = std::make_shared<Model>(std::move(m2));
					work.push_back(n);
				} else note("concretisation-limit");
			} else if (r == Res::Unknown) note("solver-unknown");
			if (r != Res::Unsat) addC(s, eq);
		}
		s.conc[e->id] = x;
		return x;
	}
	// ------------------------------------------------------------ locations
	std::string locOf(State& s, std::string* stackOut = nullptr) {
		std::string best, any;
		std::ostringstream st;
		int n = 0;
		for (size_t i = s.stack.size(); i-- > 0;) {
			Frame& f = s.stack[i];
			if (f.pc >= f.f->insts.size()) continue;
			Instruction const* I = f.f->insts[f.pc].I;
			std::string l;
			if (I && I->getDebugLoc()) {
				DILocation const* d = I->getDebugLoc().get();
				while (d) {
					std::string fn = d->getFilename().str();
					size_t p = fn.find("/repo/");
					std::string ll = (p != std::string::npos ? fn.substr(p + 6) : fn) + ":" + std::to_string(d->getLine());
					if (p != std::string::npos && best.empty()) best = ll;
					if (l.empty()) l = ll;
					d = d->getInlinedAt();
				}
			}
			if (any.empty()) any = l;
			if (n++ < 14) st << "    #" << n << " " << demangle(f.f->F->getName().str()) << " " << l << "\n";
		}
		if (stackOut) *stackOut = st.str();
		return best.empty() ? any : best;
	}
	std::string cexText(State& s, Model const& m) {
		std::ostringstream o;
		for (auto& a : s.arrays) {
			o << a.name << " " << a.size << " ";
			for (u32 i = 0; i < a.size; ++i) { char b[4]; snprintf(b, 4, "%02x", m.get(a.first + i)); o << b; }
			if (!a.size) o << "-";
			o << "\n";
		}
		return o.str();
	}
	void report(State& s, std::string kind, std::string msg, Model const& m) {
		std::string stk;
		std::string loc = locOf(s, &stk);
		std::string key = kind + "|" + loc + "|" + msg;
		if (!violKeys.insert(key).second) return;
		Violation v;
		v.kind = kind; v.msg = msg; v.loc = loc; v.stack = stk; v.path = s.id;
		if (!opt.cexDir.empty()) {
			v.cexFile = opt.cexDir + "/" + opt.entry + "." + std::to_string(viol.size()) + ".cex";
			std::ofstream f(v.cexFile);
			f << cexText(s, m);
		}
		if (opt.debug) fprintf(stderr, "VIOL %s: %s at %s\n%s%s", kind.c_str(), msg.c_str(), loc.c_str(), stk.c_str(), cexText(s, m).c_str());
		viol.push_back(v);
		if (tViol == 0) tViol = nowS();
		if (!opt.out.empty()) writeResult(false, nowS() - tStart); // in case the run is ended later
		if (viol.size() >= opt.maxViolations) stopAll = true;
	}
	[[noreturn]] void fail(State& s, std::string kind, std::string msg) {
		report(s, kind, msg, *s.model);
		throw Done {"error"};
	}
	[[noreturn]] void giveUp(State& s, std::string why) {
		note(why);
		if (opt.debug) { std::string st; locOf(s, &st); fprintf(stderr, "INCOMPLETE %s\n%s", why.c_str(), st.c_str()); }
		throw Done {"incomplete"};
	}
	// condition must hold; report otherwise, continue where it holds
	void require(State& s, Expr* c, std::string kind, std::string msg) {
		if (c->isConst()) { if (!c->val) fail(s, kind, msg); return; }
		bool v = evalS(s, c) != 0;
		Model m2;
		if (v) {
			if (allFixed(s, c)) return;
			Res r = query(s, ex::lnot(c), m2);
			if (r == Res::Sat) { report(s, kind, msg, m2); }
			else if (r == Res::Unknown) note("solver-unknown-assert");
			if (r != Res::Unsat) addC(s, c);
		} else {
			report(s, kind, msg, *s.model);
			Res r = query(s, c, m2);
			if (r != Res::Sat) throw Done {"error"};
			addC(s, c);
			s.model = std::make_shared<Model>(std::move(m2));
		}
	}

	// ------------------------------------------------------------ memory
	Obj* newObj(u64 size, u8 kind, u8 fill) {
		Obj* o = new Obj;
		o->size = size;
		o->kind = kind;
		o->data = (u8*) malloc(size ? size : 1);
		memset(o->data, fill, size ? size : 1);
		o->nslots = (u32)((SLOT_LEAD + size + 0x100 + SLOT_SIZE - 1) >> SLOT_BITS);
		return o;
	}
	u64 allocate(State& s, u64 size, u8 kind, u8 fill = 0xBE) {
		Obj* o = newObj(size, kind, fill);
		if (kind == 2) {
			o->slot = s.nextStack;
			s.nextStack += o->nslots;
			if (s.nextStack >= HEAP_FIRST) { delete o; fail(s, "stack-overflow", "stack exhausted"); }
		} else {
			o->slot = s.nextHeap;
			s.nextHeap += o->nslots;
			if (s.nextHeap >= MAX_SLOTS) { delete o; giveUp(s, "address-space"); }
		}
		++o->rc;
		for (u32 i = 0; i < o->nslots; ++i) s.mem.set(o->slot + i, o);
		u64 b = o->base();
		--o->rc;
		return b;
	}
	void release(State& s, Obj* o) {
		u32 sl = o->slot, n = o->nslots;
		for (u32 i = 0; i < n; ++i) s.mem.set(sl + i, nullptr);
	}
	Obj* find(State& s, u64 addr) {
		if (addr < ADDR_BASE || addr >= ADDR_BASE + ((u64) MAX_SLOTS << SLOT_BITS)) return nullptr;
		return s.mem.get((u32)((addr - ADDR_BASE) >> SLOT_BITS));
	}
	Obj* writable(State& s, Obj* o) {
		// exclusive iff every reference comes from this state's trie path: rc counts leaf references; clone when shared
		if (exclusive(s, o)) return o;
		Obj* c = new Obj;
		c->slot = o->slot; c->nslots = o->nslots; c->size = o->size; c->symSize = o->symSize; c->kind = o->kind; c->ro = o->ro; c->name = o->name;
		c->data = (u8*) malloc(o->size ? o->size : 1);
		memcpy(c->data, o->data, o->size);
		if (o->sym) {
			c->sym = (Expr**) malloc(sizeof(Expr*) * (o->size ? o->size : 1));
			memcpy(c->sym, o->sym, sizeof(Expr*) * o->size);
			c->nsym = o->nsym;
		}
		++c->rc;
		for (u32 i = 0; i < c->nslots; ++i) s.mem.set(c->slot + i, c);
		--c->rc;
		return c;
	}
	bool exclusive(State& s, Obj* o) {
		if ((u32) o->rc != o->nslots) return false;
		// all trie nodes on the path must be unshared
		Node* n = s.mem.root;
		for (int lv = 3; lv >= 0; --lv) {
			if (n->rc > 1) return false;
			if (lv) n = (Node*) n->ch[(o->slot >> (6 * lv)) & 63];
		}
		return true;
	}
	static std::string hex(u64 x) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long) x); return b; }
	std::string badPtr(State& s, u64 addr, u64 n, const char* what) {
		if (addr < 0x10000) return std::string("null pointer ") + what;
		if (addr >= FUNC_BASE) return std::string("wild pointer ") + what;
		return std::string("invalid or freed memory ") + what;
	}
	// Resolve [addr, addr+n). Result: object and either a concrete offset (offE==nullptr) or symbolic offset.
	struct Loc { Obj* o; u64 off; Expr* offE; };
	Loc resolve(State& s, Val addr, u64 n, bool write) {
		const char* what = write ? "write" : "read";
		if (addr.e) {
			Expr* a = addr.e;
			// case split on pointer selects
			for (;;) {
				if (a->isConst()) break;
				Expr* base = a; Expr* plus = nullptr;
				if (a->k == K::Add) { base = a->op[0]; plus = a->op[1]; if (base->k != K::Ite && plus->k == K::Ite) std::swap(base, plus); }
				if (base->k != K::Ite) break;
				// only split when the arms look like different objects
				u64 v1 = (u64) evalS(s, base->op[1]), v2 = (u64) evalS(s, base->op[2]);
				u64 p = plus ? (u64) evalS(s, plus) : 0;
				if (find(s, v1 + p) == find(s, v2 + p) && find(s, v1 + p)) break;
				if (v1 < 0x10000 && v2 < 0x10000) break;
				Expr* arm = decide(s, base->op[0]) ? base->op[1] : base->op[2];
				a = plus ? ex::bin(K::Add, arm, plus) : arm;
			}
			auto it = s.conc.find(a->id);
			if (it != s.conc.end()) addr = C(it->second);
			else if (allFixed(s, a)) addr = C((u64) evalS(s, a));
			else addr = V(a);
		}
		if (!addr.e) {
			Obj* o = find(s, addr.c);
			if (!o) fail(s, "memory", badPtr(s, addr.c, n, what));
			u64 off = addr.c - o->base();
			if (off > o->size || n > o->size - off) {
				if (n == 0) return {o, 0, nullptr};
				fail(s, "memory", std::string("out-of-bounds ") + what + " of " + std::to_string(n) + " bytes at offset " + std::to_string((i64) off) + " of " + kindName(o) + " object of " + std::to_string(o->size) + " bytes");
			}
			if (write && o->ro) fail(s, "memory", "write to constant memory");
			return {o, off, nullptr};
		}
		u64 v = (u64) evalS(s, addr.e);
		Obj* o = find(s, v);
		// prefer the object of the constant base part (provenance) over where the current model happens to point
		if (addr.e->k == K::Add && addr.e->op[1]->isConst()) {
			Obj* p = find(s, (u64) addr.e->op[1]->val);
			if (p) o = p;
		}
		else if (o) {
			// no base part: the pointer was chosen among several objects; explore each on its own
			Expr* in = ex::cmp(K::Ult, ex::bin(K::Sub, addr.e, ex::cst(o->base(), 64)), ex::cst((u64) o->nslots << SLOT_BITS, 64));
			for (int i = 0; i < 64 && !decide(s, in); ++i) {
				v = (u64) evalS(s, addr.e);
				o = find(s, v);
				if (!o) break;
				in = ex::cmp(K::Ult, ex::bin(K::Sub, addr.e, ex::cst(o->base(), 64)), ex::cst((u64) o->nslots << SLOT_BITS, 64));
			}
		}
		if (!o) fail(s, "memory", badPtr(s, v, n, what));
		Expr* off = ex::bin(K::Sub, addr.e, ex::cst(o->base(), 64));
		if (n > o->size) fail(s, "memory", std::string("out-of-bounds ") + what);
		require(s, ex::cmp(K::Ule, off, ex::cst(o->size - n, 64)), "memory", std::string("out-of-bounds ") + what + " (symbolic offset) in " + kindName(o) + " object of " + std::to_string(o->size) + " bytes");
		if (write && o->ro) fail(s, "memory", "write to constant memory");
		if (off->isConst()) return {o, (u64) off->val, nullptr};
		return {o, 0, off};
	}
	const char* kindName(Obj* o) { return o->kind == 0 ? "global" : o->kind == 2 ? "stack" : "heap"; }
	Expr* byteAt(Obj* o, u64 i) { return o->sym && o->sym[i] ? o->sym[i] : ex::cst(o->data[i], 8); }
	Val loadBytes(Obj* o, u64 off, unsigned n, unsigned w) {
		if (o->sym) {
			bool any = false;
			for (unsigned i = 0; i < n; ++i) if (o->sym[off + i]) { any = true; break; }
			if (any) {
				Expr* r = byteAt(o, off);
				for (unsigned i = 1; i < n; ++i) r = ex::concat(byteAt(o, off + i), r);
				if (w != n * 8) r = ex::extract(r, 0, w);
				return V(r);
			}
		}
		if (n <= 8) {
			u64 x = 0;
			memcpy(&x, o->data + off, n);
			if (w < 64) x &= ((u64) 1 << w) - 1;
			return C(x);
		}
		if (n > 16) return C(0);
		u128 x = 0;
		memcpy(&x, o->data + off, n);
		return V(ex::cst(x, w));
	}
	unsigned strideOf(Expr* off) { unsigned t = ex::trailingZeros(off); return 1u << std::min(t, 6u); }
	Val muxRead(State& s, Loc L, unsigned n, unsigned w) {
		unsigned st = strideOf(L.offE);
		u64 maxOff = L.o->size - n;
		u128 um = ex::umax(L.offE);
		if (um < maxOff) maxOff = (u64) um;
		u64 cand = maxOff / st + 1;
		if (cand > opt.muxLimit) {
			u64 off = concretize(s, V(L.offE), 64);
			return loadBytes(L.o, off, n, w);
		}
		std::function<Expr*(u64, u64)> build = [&](u64 lo, u64 hi) -> Expr* { // candidates [lo,hi)
			if (hi - lo == 1) return E(loadBytes(L.o, lo * st, n, w), w);
			u64 mid = (lo + hi) / 2;
			Expr *a = build(lo, mid), *b = build(mid, hi);
			if (a == b) return a;
			return ex::ite(ex::cmp(K::Ult, L.offE, ex::cst(mid * st, 64)), a, b);
		};
		return V(build(0, cand));
	}
	Val load(State& s, Val addr, unsigned w) {
		unsigned n = (w + 7) / 8;
		Loc L = resolve(s, addr, n, false);
		if (!L.offE) return loadBytes(L.o, L.off, n, w);
		return muxRead(s, L, n, w);
	}
	void setByte(Obj* o, u64 i, Expr* b) {
		if (b->isConst()) {
			o->data[i] = (u8) b->val;
			if (o->sym) o->sym[i] = nullptr;
		} else {
			if (!o->sym) o->sym = (Expr**) calloc(o->size ? o->size : 1, sizeof(Expr*));
			o->sym[i] = b;
			o->data[i] = 0;
		}
	}
	void storeAt(Obj* o, u64 off, Val v, unsigned w) {
		unsigned n = (w + 7) / 8;
		if (!v.e) {
			u64 x = v.c;
			memcpy(o->data + off, &x, n > 8 ? 8 : n);
			if (o->sym) memset(o->sym + off, 0, sizeof(Expr*) * n);
			return;
		}
		Expr* e = v.e;
		if (w != n * 8) e = ex::zext(e, n * 8);
		for (unsigned i = 0; i < n; ++i) setByte(o, off + i, ex::extract(e, i * 8, 8));
	}
	void store(State& s, Val addr, Val v, unsigned w) {
		unsigned n = (w + 7) / 8;
		Loc L = resolve(s, addr, n, true);
		if (!L.offE) { Obj* o = writable(s, L.o); storeAt(o, L.off, v, w); return; }
		unsigned st = strideOf(L.offE);
		u64 maxOff = L.o->size - n;
		u128 um = ex::umax(L.offE);
		if (um < maxOff) maxOff = (u64) um;
		u64 cand = maxOff / st + 1;
		if (cand > opt.muxLimit / 4) {
			u64 off = concretize(s, V(L.offE), 64);
			Obj* o = writable(s, L.o);
			storeAt(o, off, v, w);
			return;
		}
		Obj* o = writable(s, L.o);
		Expr* e = E(v, w);
		if (w != n * 8) e = ex::zext(e, n * 8);
		for (u64 k = 0; k < cand; ++k) {
			Expr* eq = ex::cmp(K::Eq, L.offE, ex::cst(k * st, 64));
			if (eq->isConst() && !eq->val) continue;
			for (unsigned i = 0; i < n; ++i) setByte(o, k * st + i, ex::ite(eq, ex::extract(e, i * 8, 8), byteAt(o, k * st + i)));
		}
	}
	u64 rd64(State& s, u64 addr) {
		Val v = load(s, C(addr), 64);
		return concretize(s, v, 64);
	}
	std::string cstr(State& s, u64 addr, size_t max = 4096) {
		std::string r;
		while (r.size() < max) {
			Val b = load(s, C(addr + r.size()), 8);
			u8 c = (u8) concretize(s, b, 8);
			if (!c) break;
			r.push_back((char) c);
		}
		return r;
	}
	void memCopy(State& s, Val dst, Val src, Val len, bool isMove) {
		u64 n = concretize(s, len, 64);
		if (n == 0) return;
		if (n > (1ull << 40)) fail(s, "memory", "memcpy with huge length");
		Loc a = resolve(s, src, n, false);
		if (a.offE && n == 1) { store(s, dst, muxRead(s, a, 1, 8), 8); return; }
		if (a.offE) a.off = concretize(s, V(a.offE), 64);
		Loc b = resolve(s, dst, n, true);
		if (b.offE) b.off = concretize(s, V(b.offE), 64);
		Obj* so = a.o;
		Obj* o = writable(s, b.o);
		if (so == b.o) so = o;
		memmove(o->data + b.off, so->data + a.off, n);
		if (so->sym) {
			if (!o->sym) {
				bool any = false;
				for (u64 i = 0; i < n; ++i) if (so->sym[a.off + i]) { any = true; break; }
				if (any) o->sym = (Expr**) calloc(o->size ? o->size : 1, sizeof(Expr*));
			}
			if (o->sym) memmove(o->sym + b.off, so->sym + a.off, n * sizeof(Expr*));
		} else if (o->sym) memset(o->sym + b.off, 0, n * sizeof(Expr*));
	}
	void memSet(State& s, Val dst, Val val, Val len) {
		u64 n = concretize(s, len, 64);
		if (!n) return;
		if (n > (1ull << 40)) fail(s, "memory", "memset with huge length");
		Loc b = resolve(s, dst, n, true);
		if (b.offE) b.off = concretize(s, V(b.offE), 64);
		Obj* o = writable(s, b.o);
		if (!val.e) {
			memset(o->data + b.off, (int) (u8) val.c, n);
			if (o->sym) memset(o->sym + b.off, 0, n * sizeof(Expr*));
		} else {
			Expr* e = ex::extract(val.e, 0, 8);
			for (u64 i = 0; i < n; ++i) setByte(o, b.off + i, e);
		}
	}
	Val memCmp(State& s, Val pa, Val pb, Val len, bool eqOnly) {
		u64 n = concretize(s, len, 64);
		if (!n) return C(0);
		Loc a = resolve(s, pa, n, false);
		if (a.offE) a.off = concretize(s, V(a.offE), 64);
		Loc b = resolve(s, pb, n, false);
		if (b.offE) b.off = concretize(s, V(b.offE), 64);
		if (!a.o->sym && !b.o->sym) {
			int r = memcmp(a.o->data + a.off, b.o->data + b.off, n);
			return C((u32) (r < 0 ? -1 : r > 0 ? 1 : 0));
		}
		if (eqOnly) {
			Expr* all = ex::cst(1, 1);
			for (u64 i = 0; i < n; ++i) {
				all = ex::land(all, ex::cmp(K::Eq, byteAt(a.o, a.off + i), byteAt(b.o, b.off + i)));
				if (all->isConst() && !all->val) break;
			}
			return V(ex::zext(ex::lnot(all), 32));
		}
		// stop at the first definitely different byte
		u64 stop = n;
		for (u64 i = 0; i < n; ++i) {
			Expr* eq = ex::cmp(K::Eq, byteAt(a.o, a.off + i), byteAt(b.o, b.off + i));
			if (eq->isConst() && !eq->val) { stop = i; break; }
		}
		Expr* r = ex::cst(0, 32);
		if (stop < n) {
			Expr* lt = ex::cmp(K::Ult, byteAt(a.o, a.off + stop), byteAt(b.o, b.off + stop));
			r = ex::ite(lt, ex::cst(0xffffffffu, 32), ex::cst(1, 32));
		}
		for (u64 i = stop; i-- > 0;) {
			Expr *x = byteAt(a.o, a.off + i), *y = byteAt(b.o, b.off + i);
			Expr* eq = ex::cmp(K::Eq, x, y);
			if (eq->isConst() && eq->val) continue;
			r = ex::ite(eq, r, ex::ite(ex::cmp(K::Ult, x, y), ex::cst(0xffffffffu, 32), ex::cst(1, 32)));
		}
		return V(r);
	}

	// ------------------------------------------------------------ types & constants
	unsigned widthOf(Type* t) {
		if (t->isIntegerTy()) return t->getIntegerBitWidth();
		if (t->isPointerTy()) return 64;
		if (t->isFloatTy()) return 32;
		if (t->isDoubleTy()) return 64;
		if (t->isX86_FP80Ty()) return 80;
		if (t->isHalfTy() || t->isBFloatTy()) return 16;
		if (t->isFP128Ty()) return 128;
		return 0;
	}
	void flatten(Type* t, u64 off, std::vector<Scalar>& out) {
		if (auto* st = dyn_cast<StructType>(t)) {
			auto* sl = DL->getStructLayout(st);
			for (unsigned i = 0; i < st->getNumElements(); ++i) flatten(st->getElementType(i), off + sl->getElementOffset(i), out);
		} else if (auto* at = dyn_cast<ArrayType>(t)) {
			u64 es = DL->getTypeAllocSize(at->getElementType());
			for (u64 i = 0; i < at->getNumElements(); ++i) flatten(at->getElementType(), off + i * es, out);
		} else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
			u64 es = DL->getTypeStoreSize(vt->getElementType());
			for (u64 i = 0; i < vt->getNumElements(); ++i) flatten(vt->getElementType(), off + i * es, out);
		} else if (t->isVoidTy() || t->isMetadataTy() || t->isLabelTy() || t->isTokenTy()) {
		} else out.push_back({off, widthOf(t)});
	}
	unsigned nslots(Type* t) { std::vector<Scalar> v; flatten(t, 0, v); return v.size(); }

	u64 globalAddr(GlobalValue const* gv) {
		if (auto* f = dyn_cast<Function>(gv)) {
			auto it = faddr.find(f);
			if (it != faddr.end()) return it->second;
			u64 a = FUNC_BASE + fbyaddr.size() * 16;
			fbyaddr.push_back(const_cast<Function*>(f));
			faddr[f] = a;
			return a;
		}
		if (auto* al = dyn_cast<GlobalAlias>(gv)) return globalAddr(al->getAliaseeObject());
		if (auto* g = dyn_cast<GlobalVariable>(gv)) {
			auto it = gaddr.find(g);
			if (it != gaddr.end()) return it->second;
		}
		return 0;
	}
	u64 constInt(Constant const* c) {
		std::vector<Val> v;
		constVals(c, v);
		return v.empty() || v[0].e ? 0 : v[0].c;
	}
	void constVals(Constant const* c, std::vector<Val>& out) {
		Type* t = c->getType();
		if (auto* ci = dyn_cast<ConstantInt>(c)) {
			unsigned w = ci->getBitWidth();
			if (w <= 64) out.push_back(C(ci->getZExtValue()));
			else {
				APInt const& a = ci->getValue();
				u128 v = a.extractBitsAsZExtValue(64, 0);
				v |= (u128) a.extractBitsAsZExtValue(std::min(64u, w - 64), 64) << 64;
				out.push_back(V(ex::cst(v, w)));
			}
		} else if (auto* cf = dyn_cast<ConstantFP>(c)) {
			APInt a = cf->getValueAPF().bitcastToAPInt();
			if (a.getBitWidth() <= 64) out.push_back(C(a.getZExtValue()));
			else {
				u128 v = a.extractBitsAsZExtValue(64, 0);
				v |= (u128) a.extractBitsAsZExtValue(std::min(64u, a.getBitWidth() - 64), 64) << 64;
				out.push_back(V(ex::cst(v, a.getBitWidth())));
			}
		} else if (isa<ConstantPointerNull>(c)) out.push_back(C(0));
		else if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
			std::vector<Scalar> sc;
			flatten(t, 0, sc);
			for (auto& x : sc) out.push_back(x.w > 64 ? V(ex::cst(0, x.w)) : C(0));
		} else if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
			for (unsigned i = 0; i < cds->getNumElements(); ++i) constVals(cds->getElementAsConstant(i), out);
		} else if (isa<ConstantAggregate>(c)) {
			for (unsigned i = 0; i < c->getNumOperands(); ++i) constVals(cast<Constant>(c->getOperand(i)), out);
		} else if (auto* gv = dyn_cast<GlobalValue>(c)) out.push_back(C(globalAddr(gv)));
		else if (auto* ce = dyn_cast<ConstantExpr>(c)) {
			unsigned w = widthOf(t);
			u64 m = w >= 64 ? ~0ull : (1ull << w) - 1;
			if (auto* gep = dyn_cast<GEPOperator>(ce)) {
				APInt off(64, 0);
				gep->accumulateConstantOffset(*DL, off);
				out.push_back(C(constInt(cast<Constant>(gep->getPointerOperand())) + off.getSExtValue()));
			} else {
				u64 a = constInt(cast<Constant>(ce->getOperand(0)));
				u64 b = ce->getNumOperands() > 1 ? constInt(cast<Constant>(ce->getOperand(1))) : 0;
				switch (ce->getOpcode()) {
				case Instruction::Add: out.push_back(C((a + b) & m)); break;
				case Instruction::Sub: out.push_back(C((a - b) & m)); break;
				case Instruction::Mul: out.push_back(C((a * b) & m)); break;
				case Instruction::Xor: out.push_back(C((a ^ b) & m)); break;
				case Instruction::ICmp: out.push_back(C(a != b)); break;
				default: out.push_back(C(a & m)); break; // bitcast, ptrtoint, inttoptr, trunc, addrspacecast
				}
			}
		} else if (auto* dso = dyn_cast<DSOLocalEquivalent>(c)) out.push_back(C(globalAddr(dso->getGlobalValue())));
		else out.push_back(C(0));
	}
	void initGlobalMem(Obj* o, Constant const* c, u64 off) {
		if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
		Type* t = c->getType();
		if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
			StringRef raw = cds->getRawDataValues();
			memcpy(o->data + off, raw.data(), raw.size());
			return;
		}
		if (auto* cs = dyn_cast<ConstantStruct>(c)) {
			auto* sl = DL->getStructLayout(cs->getType());
			for (unsigned i = 0; i < cs->getNumOperands(); ++i) initGlobalMem(o, cs->getOperand(i), off + sl->getElementOffset(i));
			return;
		}
		if (auto* ca = dyn_cast<ConstantArray>(c)) {
			u64 es = DL->getTypeAllocSize(ca->getType()->getElementType());
			for (unsigned i = 0; i < ca->getNumOperands(); ++i) initGlobalMem(o, ca->getOperand(i), off + i * es);
			return;
		}
		std::vector<Scalar> sc;
		flatten(t, 0, sc);
		std::vector<Val> vs;
		constVals(c, vs);
		for (size_t i = 0; i < sc.size() && i < vs.size(); ++i) storeAt(o, off + sc[i].off, vs[i], sc[i].w);
	}
	void initGlobals(State& s) {
		// addresses first
		std::vector<GlobalVariable*> gs;
		for (auto& g : M->globals()) {
			if (g.getName().starts_with("llvm.")) continue;
			u64 size = g.getValueType()->isSized() ? (u64) DL->getTypeAllocSize(g.getValueType()) : 8;
			if (!g.hasInitializer() || g.isDeclaration()) size = std::max<u64>(size, 256);
			if (g.hasExternalWeakLinkage() && g.isDeclaration()) { gaddr[&g] = 0; continue; }
			u64 a = allocate(s, size, 0, 0);
			gaddr[&g] = a;
			gs.push_back(&g);
			if (g.isDeclaration()) extTI[g.getName().str()] = a;
		}
		for (auto* g : gs) {
			if (!g->hasInitializer()) {
				// type-info objects of the C++ runtime: vtable pointer, then the name
				if (g->getName().starts_with("_ZTI")) {
					Obj* o = writable(s, find(s, gaddr[g]));
					std::string n = g->getName().drop_front(4).str();
					if (n.size() > 128) n.resize(128);
					Val pv = Val();
					pv.c = gaddr[g] + 64;
					storeAt(o, 8, pv, 64);
					for (size_t i = 0; i <= n.size(); ++i) {
						Val cv = Val();
						cv.c = (u8) n.c_str()[i];
						storeAt(o, 64 + i, cv, 8);
					}
				}
				continue;
			}
			Obj* o = writable(s, find(s, gaddr[g]));
			initGlobalMem(o, g->getInitializer(), 0);
			if (g->isConstant()) o->ro = true;
		}
	}

	// ------------------------------------------------------------ function decoding
	struct Dec {
		KFunc* kf;
		std::unordered_map<Value const*, int> slot;
		std::unordered_map<Constant const*, int> cslot;
	};
	int operand(Dec& d, Value const* v) {
		if (auto* c = dyn_cast<Constant>(v)) {
			auto it = d.cslot.find(c);
			if (it != d.cslot.end()) return it->second;
			int idx = (int) d.kf->consts.size();
			constVals(c, d.kf->consts);
			d.cslot[c] = ~idx;
			return ~idx;
		}
		auto it = d.slot.find(v);
		if (it == d.slot.end()) return ~0x3fffffff;
		return it->second;
	}
	static int opAt(int base, int i) { return base >= 0 ? base + i : ~(~base + i); }

	KFunc* getK(Function* F) {
		auto it = kfuncs.find(F);
		if (it != kfuncs.end()) return it->second;
		KFunc* kf = new KFunc;
		kf->F = F;
		kfuncs[F] = kf;
		Dec d;
		d.kf = kf;
		int next = 0;
		for (auto& a : F->args()) {
			int n = nslots(a.getType());
			d.slot[&a] = next;
			kf->argSlots.push_back(n);
			next += n;
		}
		kf->nargs = next;
		for (auto& BB : *F)
			for (auto& I : BB) {
				int n = nslots(I.getType());
				d.slot[&I] = next;
				next += n;
			}
		kf->nregs = next;
		// layout: instruction indices per block (phis and debug intrinsics skipped)
		std::unordered_map<BasicBlock const*, u32> start;
		u32 idx = 0;
		auto skipped = [](Instruction const& I) {
			if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) return true;
			if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
				switch (ii->getIntrinsicID()) {
				case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
				case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
				case Intrinsic::var_annotation: case Intrinsic::prefetch: return true;
				default: break;
				}
			}
			return false;
		};
		for (auto& BB : *F) {
			start[&BB] = idx;
			for (auto& I : BB) if (!skipped(I)) ++idx;
		}
		kf->insts.reserve(idx);
		for (auto& BB : *F)
			for (auto& I : BB) {
				if (skipped(I)) continue;
				kf->insts.emplace_back();
				KInst& k = kf->insts.back();
				k.I = &I;
				k.dst = d.slot[&I];
				k.n = nslots(I.getType());
				decode(d, I, k, start);
			}
		return kf;
	}
	Edge edge(Dec& d, BasicBlock const* from, BasicBlock const* to, std::unordered_map<BasicBlock const*, u32>& start) {
		Edge e;
		e.target = start[to];
		for (auto& p : to->phis()) {
			int i = p.getBasicBlockIndex(from);
			if (i < 0) continue;
			int n = nslots(p.getType());
			if (n) e.moves.push_back({d.slot[&p], operand(d, p.getIncomingValue(i)), n});
		}
		return e;
	}
	static K kOf(unsigned opc) {
		switch (opc) {
		case Instruction::Add: return K::Add; case Instruction::Sub: return K::Sub; case Instruction::Mul: return K::Mul;
		case Instruction::UDiv: return K::UDiv; case Instruction::SDiv: return K::SDiv; case Instruction::URem: return K::URem; case Instruction::SRem: return K::SRem;
		case Instruction::And: return K::And; case Instruction::Or: return K::Or; case Instruction::Xor: return K::Xor;
		case Instruction::Shl: return K::Shl; case Instruction::LShr: return K::LShr; case Instruction::AShr: return K::AShr;
		case Instruction::FAdd: return K::FAdd; case Instruction::FSub: return K::FSub; case Instruction::FMul: return K::FMul; case Instruction::FDiv: return K::FDiv; case Instruction::FRem: return K::FRem;
		}
		return K::Const;
	}
	void decode(Dec& d, Instruction& I, KInst& k, std::unordered_map<BasicBlock const*, u32>& start) {
		k.op = OP_UNSUPPORTED;
		Type* st = I.getType()->getScalarType();
		k.w = widthOf(st);
		for (auto& o : I.operands()) {
			if (isa<BasicBlock>(o) || isa<MetadataAsValue>(o)) continue;
			if (isa<CallBase>(I)) break;
			if (isa<LandingPadInst>(I)) break;
			k.ops.push_back(operand(d, o.get()));
			k.ws.push_back(widthOf(o->getType()->getScalarType()));
		}
		switch (I.getOpcode()) {
		case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
		case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
			k.op = OP_BIN; k.sub = (u8) kOf(I.getOpcode()); break;
		case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
			k.op = OP_DIVREM; k.sub = (u8) kOf(I.getOpcode()); break;
		case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
			if (k.w == 32 || k.w == 64) { k.op = OP_FBIN; k.sub = (u8) kOf(I.getOpcode()); }
			break;
		case Instruction::FNeg: k.op = OP_FNEG; break;
		case Instruction::ICmp: k.op = OP_ICMP; k.sub = cast<ICmpInst>(I).getPredicate(); k.w2 = widthOf(I.getOperand(0)->getType()->getScalarType()); break;
		case Instruction::FCmp: k.w2 = widthOf(I.getOperand(0)->getType()->getScalarType()); if (k.w2 <= 64) { k.op = OP_FCMP; k.sub = cast<FCmpInst>(I).getPredicate(); } break;
		case Instruction::Select: k.op = OP_SELECT; k.imm = nslots(I.getOperand(0)->getType()); {
			std::vector<Scalar> sc; flatten(I.getType(), 0, sc); k.layout = sc; } break;
		case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPTrunc: case Instruction::FPExt:
		case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP:
		case Instruction::PtrToInt: case Instruction::IntToPtr:
			k.w2 = widthOf(I.getOperand(0)->getType()->getScalarType());
			if ((k.w == 80 || k.w2 == 80)) break;
			k.op = OP_CAST; k.sub = I.getOpcode(); break;
		case Instruction::BitCast: {
			std::vector<Scalar> a, b;
			flatten(I.getOperand(0)->getType(), 0, a); flatten(I.getType(), 0, b);
			if (a.size() == b.size()) k.op = OP_MOV;
			else { k.op = OP_BITCAST; k.imm = a.size(); k.w2 = a[0].w; k.w = b[0].w; }
			break;
		}
		case Instruction::AddrSpaceCast: case Instruction::Freeze: k.op = OP_MOV; break;
		case Instruction::Load: k.op = OP_LOAD; flatten(I.getType(), 0, k.layout); break;
		case Instruction::Store: k.op = OP_STORE; flatten(I.getOperand(0)->getType(), 0, k.layout); break;
		case Instruction::Alloca: {
			auto& A = cast<AllocaInst>(I);
			k.op = OP_ALLOCA; k.imm = DL->getTypeAllocSize(A.getAllocatedType()); k.w2 = widthOf(A.getArraySize()->getType()); break;
		}
		case Instruction::GetElementPtr: {
			k.op = OP_GEP;
			auto& G = cast<GetElementPtrInst>(I);
			if (I.getType()->isVectorTy()) { k.op = OP_UNSUPPORTED; break; }
			i64 off = 0;
			for (auto gti = gep_type_begin(G), ge = gep_type_end(G); gti != ge; ++gti) {
				Value* v = gti.getOperand();
				if (StructType* sty = gti.getStructTypeOrNull()) {
					off += DL->getStructLayout(sty)->getElementOffset(cast<ConstantInt>(v)->getZExtValue());
				} else {
					u64 sc = DL->getTypeAllocSize(gti.getIndexedType());
					if (auto* ci = dyn_cast<ConstantInt>(v)) off += ci->getSExtValue() * (i64) sc;
					else k.gep.push_back({operand(d, v), sc, widthOf(v->getType())});
				}
			}
			k.imm = (u64) off;
			break;
		}
		case Instruction::Br: {
			auto& B = cast<BranchInst>(I);
			if (B.isConditional()) {
				k.op = OP_CBR;
				k.ops = {operand(d, B.getCondition())};
				k.edges.push_back(edge(d, I.getParent(), B.getSuccessor(0), start));
				k.edges.push_back(edge(d, I.getParent(), B.getSuccessor(1), start));
			} else {
				k.op = OP_BR;
				k.edges.push_back(edge(d, I.getParent(), B.getSuccessor(0), start));
			}
			break;
		}
		case Instruction::Switch: {
			auto& S = cast<SwitchInst>(I);
			k.op = OP_SWITCH;
			k.ops = {operand(d, S.getCondition())};
			k.w = widthOf(S.getCondition()->getType());
			k.edges.push_back(edge(d, I.getParent(), S.getDefaultDest(), start));
			for (auto& c : S.cases()) {
				k.cases.push_back(c.getCaseValue()->getZExtValue());
				k.edges.push_back(edge(d, I.getParent(), c.getCaseSuccessor(), start));
			}
			break;
		}
		case Instruction::Ret:
			k.op = OP_RET;
			k.n = I.getNumOperands() ? nslots(I.getOperand(0)->getType()) : 0;
			break;
		case Instruction::Unreachable: k.op = OP_UNREACHABLE; break;
		case Instruction::Resume: k.op = OP_RESUME; break;
		case Instruction::LandingPad: k.op = OP_LANDINGPAD; break;
		case Instruction::ExtractValue: {
			k.op = OP_EXTRACTVAL;
			Type* t = I.getOperand(0)->getType(); u64 skip = 0;
			for (unsigned ix : cast<ExtractValueInst>(I).indices()) {
				for (unsigned j = 0; j < ix; ++j) skip += nslots(ExtractValueInst::getIndexedType(t, {j}));
				t = ExtractValueInst::getIndexedType(t, {ix});
			}
			k.imm = skip;
			break;
		}
		case Instruction::InsertValue: {
			k.op = OP_INSERTVAL;
			Type* t = I.getType(); u64 skip = 0;
			for (unsigned ix : cast<InsertValueInst>(I).indices()) {
				for (unsigned j = 0; j < ix; ++j) skip += nslots(ExtractValueInst::getIndexedType(t, {j}));
				t = ExtractValueInst::getIndexedType(t, {ix});
			}
			k.imm = skip; k.w2 = nslots(I.getOperand(1)->getType());
			break;
		}
		case Instruction::ExtractElement: k.op = OP_EXTRACTEL; k.imm = nslots(I.getOperand(0)->getType()); break;
		case Instruction::InsertElement: k.op = OP_INSERTEL; break;
		case Instruction::ShuffleVector: {
			k.op = OP_SHUFFLE; k.imm = nslots(I.getOperand(0)->getType());
			for (int m : cast<ShuffleVectorInst>(I).getShuffleMask()) k.cases.push_back((u64)(i64) m);
			break;
		}
		case Instruction::AtomicRMW: k.op = OP_ATOMICRMW; k.sub = cast<AtomicRMWInst>(I).getOperation(); break;
		case Instruction::AtomicCmpXchg: k.op = OP_CMPXCHG; k.w = widthOf(I.getOperand(1)->getType()); break;
		case Instruction::Fence: k.op = OP_NOP; break;
		case Instruction::Call: case Instruction::Invoke: {
			auto& CB = cast<CallBase>(I);
			k.op = I.getOpcode() == Instruction::Call ? OP_CALL : OP_INVOKE;
			for (unsigned i = 0; i < CB.arg_size(); ++i) {
				Value* a = CB.getArgOperand(i);
				if (isa<MetadataAsValue>(a)) { k.argn.push_back(0); k.ops.push_back(0); k.ws.push_back(0); continue; }
				k.ops.push_back(operand(d, a));
				k.argn.push_back(nslots(a->getType()));
				k.ws.push_back(widthOf(a->getType()->getScalarType()));
			}
			k.imm = 0;
			if (auto* ia = dyn_cast<InlineAsm>(CB.getCalledOperand())) {
				if (ia->getAsmString().empty()) k.op = OP_NOP; else k.op = OP_UNSUPPORTED;
				break;
			}
			Value* cv = CB.getCalledOperand()->stripPointerCasts();
			if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
			if (auto* f = dyn_cast<Function>(cv)) {
				k.callee = f;
				k.builtin = builtinFor(f);
			} else k.ops.push_back(operand(d, CB.getCalledOperand())); // last operand: target
			if (auto* inv = dyn_cast<InvokeInst>(&I)) {
				k.edges.push_back(edge(d, I.getParent(), inv->getNormalDest(), start));
				k.edges.push_back(edge(d, I.getParent(), inv->getUnwindDest(), start));
			}
			break;
		}
		default: break;
		}
	}
	std::unordered_set<std::string> forcedBuiltins;
	int builtinFor(Function* f) {
		std::string n = f->getName().str();
		if (f->isIntrinsic()) {
			// strip type suffixes: llvm.umin.i64 -> llvm.umin
			Intrinsic::ID id = f->getIntrinsicID();
			std::string b = Intrinsic::getBaseName(id).str();
			auto it = builtinIdx.find(b);
			return it == builtinIdx.end() ? -2 : it->second;
		}
		auto it = builtinIdx.find(n);
		if (it != builtinIdx.end() && (f->isDeclaration() || forcedBuiltins.count(n))) return it->second;
		return f->isDeclaration() ? -2 : -1;
	}

	// ------------------------------------------------------------ execution
	Val const& get(Frame& f, int o) {
		if (o >= 0) return f.regs[o];
		u32 i = ~o;
		static Val zero;
		if (i >= f.f->consts.size()) return zero;
		return f.f->consts[i];
	}
	std::vector<Val> tmpMoves;
	void jump(Frame& f, Edge& e) {
		if (e.moves.size() == 1 && e.moves[0].n == 1) {
			f.regs[e.moves[0].dst] = get(f, e.moves[0].src);
		} else if (!e.moves.empty()) {
			tmpMoves.clear();
			for (auto& m : e.moves) for (int i = 0; i < m.n; ++i) tmpMoves.push_back(get(f, opAt(m.src, i)));
			size_t j = 0;
			for (auto& m : e.moves) for (int i = 0; i < m.n; ++i) f.regs[m.dst + i] = tmpMoves[j++];
		}
		f.pc = e.target;
	}
	void pushFrame(State& s, KFunc* kf, std::vector<Val>& args) {
		if (s.stack.size() > 400) fail(s, "stack-overflow", "call depth exceeds 400 frames (unbounded recursion?)");
		s.stack.emplace_back();
		Frame& f = s.stack.back();
		f.f = kf;
		f.pc = 0;
		f.stackMark = s.nextStack;
		f.regs.resize(kf->nregs);
		for (size_t i = 0; i < kf->nargs && i < args.size(); ++i) f.regs[i] = args[i];
		kf->executed++;
	}
	void popFrame(State& s) {
		Frame& f = s.stack.back();
		for (u32 sl = f.stackMark; sl < s.nextStack;) {
			Obj* o = s.mem.get(sl);
			u32 n = o ? o->nslots : 1;
			if (o) release(s, o);
			sl += n;
		}
		s.nextStack = f.stackMark;
		s.stack.pop_back();
	}
	void setResult(State& s, KInst& k, Val v) { if (k.n) s.stack.back().regs[k.dst] = v; }
	void finishCall(State& s, KInst& k) {
		Frame& f = s.stack.back();
		if (k.op == OP_INVOKE) jump(f, k.edges[0]);
		else ++f.pc;
	}
	Function* funcAt(State& s, u64 a) {
		if (a < FUNC_BASE || (a - FUNC_BASE) % 16 || (a - FUNC_BASE) / 16 >= fbyaddr.size()) return nullptr;
		return fbyaddr[(a - FUNC_BASE) / 16];
	}
	void callFunction(State& s, KInst& k, Function* F, std::vector<Val>& args, std::vector<int> const& argn) {
		int b = builtinFor(F);
		if (b >= 0) {
			builtins[b].second(*this, s, k, args);
			return;
		}
		if (b == -2 || F->isDeclaration()) giveUp(s, "unsupported external " + demangle(F->getName().str()));
		// byval copies
		auto* CB = dyn_cast<CallBase>(k.I);
		std::vector<std::pair<size_t, u64>> byval;
		if (CB) {
			size_t pos = 0;
			for (unsigned i = 0; i < CB->arg_size(); ++i) {
				if (CB->isByValArgument(i)) byval.push_back({pos, DL->getTypeAllocSize(CB->getParamByValType(i))});
				pos += argn[i];
			}
		}
		KFunc* kf = getK(F);
		size_t fixed = kf->nargs;
		u64 va = 0;
		std::vector<Val> extra;
		std::vector<unsigned> extraW;
		if (F->isVarArg() && CB) {
			size_t pos = 0;
			for (unsigned i = 0; i < CB->arg_size(); ++i) {
				for (int j = 0; j < argn[i]; ++j) if (pos + j >= fixed) { extra.push_back(args[pos + j]); extraW.push_back(k.ws[i]); }
				pos += argn[i];
			}
		}
		pushFrame(s, kf, args);
		for (auto& bv : byval) {
			u64 a = allocate(s, bv.second, 2);
			memCopy(s, C(a), args[bv.first], C(bv.second), false);
			s.stack.back().regs[bv.first] = C(a);
		}
		if (F->isVarArg()) {
			va = allocate(s, extra.size() * 8 + 8, 2, 0);
			for (size_t i = 0; i < extra.size(); ++i) store(s, C(va + i * 8), extraW[i] < 64 ? V(ex::zext(E(extra[i], extraW[i]), 64)) : extra[i], 64);
			s.stack.back().va = va;
		}
	}
	// --- exceptions
	bool typeMatches(State& s, u64 thrown, u64 want, i64& adj, int depth = 0) {
		if (thrown == want) return true;
		if (depth > 12 || !thrown) return false;
		// names may be duplicated: compare name pointers' text
		u64 vt = rd64(s, thrown) - 16;
		if (rd64(s, thrown + 8) == rd64(s, want + 8)) return true;
		auto is = [&](const char* n) { auto it = extTI.find(n); return it != extTI.end() && it->second == vt; };
		if (is("_ZTVN10__cxxabiv120__si_class_type_infoE")) return typeMatches(s, rd64(s, thrown + 16), want, adj, depth + 1);
		if (is("_ZTVN10__cxxabiv121__vmi_class_type_infoE")) {
			u32 n = (u32)(rd64(s, thrown + 16) >> 32);
			for (u32 i = 0; i < n; ++i) {
				u64 b = rd64(s, thrown + 24 + i * 16);
				i64 of = (i64) rd64(s, thrown + 32 + i * 16);
				if (!(of & 2) || (of & 1)) continue; // public non-virtual only
				i64 a2 = adj + (of >> 8);
				if (typeMatches(s, b, want, a2, depth + 1)) { adj = a2; return true; }
			}
		}
		return false;
	}
	int typeId(u64 ti) {
		auto it = typeIds.find(ti);
		if (it != typeIds.end()) return it->second;
		return typeIds[ti] = nextTypeId++;
	}
	int pendingSel = 0;
	std::string typeName(State& s, u64 ti) {
		try { return demangle("_ZTS" + cstr(s, rd64(s, ti + 8))); } catch (Done&) { return "?"; }
	}
	void unwind(State& s, u64 exn) {
		u64 ti = s.exns[exn].first;
		// phase 1: is there a handler at all?  If not: uncaught exception, reported at the throw point.
		bool handled = false;
		for (size_t i = s.stack.size(); i-- > 0 && !handled;) {
			Frame& f = s.stack[i];
			KInst& k = f.f->insts[f.pc];
			if (k.op != OP_INVOKE) continue;
			auto* lp = cast<InvokeInst>(k.I)->getLandingPadInst();
			for (unsigned c = 0; c < lp->getNumClauses(); ++c) {
				if (!lp->isCatch(c)) { handled = true; break; }
				u64 want = constInt(cast<Constant>(lp->getClause(c)));
				i64 adj = 0;
				if (!want || typeMatches(s, ti, want, adj)) { handled = true; break; }
			}
		}
		if (!handled) fail(s, "uncaught-exception", "uncaught exception of type " + typeName(s, ti));
		s.curExn = exn;
		while (!s.stack.empty()) {
			Frame& f = s.stack.back();
			KInst& k = f.f->insts[f.pc];
			if (k.op == OP_INVOKE) {
				auto* lp = cast<InvokeInst>(k.I)->getLandingPadInst();
				int sel = 0;
				bool hit = false;
				for (unsigned c = 0; c < lp->getNumClauses() && !hit; ++c) {
					if (lp->isCatch(c)) {
						u64 want = constInt(cast<Constant>(lp->getClause(c)));
						i64 adj = 0;
						if (!want || typeMatches(s, ti, want, adj)) { sel = typeId(want); hit = true; }
					} else { sel = -1; hit = true; }
				}
				if (hit || lp->isCleanup()) {
					s.exns[exn].first = ti;
					f.regs.reserve(f.regs.size());
					pendingSel = sel;
					s.exns[0] = {exn, (u64)(i64) sel}; // pending landing pad info
					jump(f, k.edges[1]);
					return;
				}
			}
			popFrame(s);
		}
		throw Done {"error"};
	}
	void throwStd(State& s, const char* rtFunc) {
		// call a runtime function which throws
		Function* F = M->getFunction(rtFunc);
		if (!F || F->isDeclaration()) giveUp(s, std::string("missing runtime function ") + rtFunc);
		std::vector<Val> a;
		pushFrame(s, getK(F), a);
	}

	void dumpSample(State& s) {
		++samplesSeen;
		if (samples.size() < 3) samples.push_back(cexText(s, *s.model));
		else if (rng() % samplesSeen == 0) samples[rng() % 3] = cexText(s, *s.model);
	}

	Val binop(State& s, K op, Val const& a, Val const& b, unsigned w) {
		if (!a.e && !b.e) {
			u64 m = w >= 64 ? ~0ull : (1ull << w) - 1;
			switch (op) {
			case K::Add: return C((a.c + b.c) & m);
			case K::Sub: return C((a.c - b.c) & m);
			case K::Mul: return C((a.c * b.c) & m);
			case K::And: return C(a.c & b.c);
			case K::Or: return C(a.c | b.c);
			case K::Xor: return C(a.c ^ b.c);
			case K::Shl: return C(b.c >= w ? shiftMask(op, a.c, b.c, w) : (a.c << b.c) & m);
			case K::LShr: return C(b.c >= w ? shiftMask(op, a.c, b.c, w) : a.c >> b.c);
			case K::AShr: { u64 sh = b.c >= w ? b.c & (w - 1) : b.c; i64 x = (i64)(a.c << (64 - w)) >> (64 - w); return C((u64)(x >> sh) & m); }
			default: break;
			}
		}
		Expr *x = E(a, w), *y = E(b, w);
		if ((op == K::Shl || op == K::LShr || op == K::AShr) && !y->isConst() && ex::umax(y) >= w) {
			if ((w & (w - 1)) == 0) y = ex::bin(K::And, y, ex::cst(w - 1, w)); // x86 semantics for oversized shifts
		}
		return V(ex::bin(op, x, y));
	}
	static u64 shiftMask(K op, u64 a, u64 b, unsigned w) {
		u64 m = w >= 64 ? ~0ull : (1ull << w) - 1;
		unsigned sh = b & (w - 1);
		return op == K::Shl ? (a << sh) & m : a >> sh;
	}
	Val icmp(unsigned pred, Val const& a, Val const& b, unsigned w) {
		if (!a.e && !b.e) {
			i64 x = (i64)(a.c << (64 - w)) >> (64 - w), y = (i64)(b.c << (64 - w)) >> (64 - w);
			bool r = false;
			switch (pred) {
			case CmpInst::ICMP_EQ: r = a.c == b.c; break;
			case CmpInst::ICMP_NE: r = a.c != b.c; break;
			case CmpInst::ICMP_UGT: r = a.c > b.c; break;
			case CmpInst::ICMP_UGE: r = a.c >= b.c; break;
			case CmpInst::ICMP_ULT: r = a.c < b.c; break;
			case CmpInst::ICMP_ULE: r = a.c <= b.c; break;
			case CmpInst::ICMP_SGT: r = x > y; break;
			case CmpInst::ICMP_SGE: r = x >= y; break;
			case CmpInst::ICMP_SLT: r = x < y; break;
			case CmpInst::ICMP_SLE: r = x <= y; break;
			}
			return C(r);
		}
		Expr *x = E(a, w), *y = E(b, w);
		switch (pred) {
		case CmpInst::ICMP_EQ: return V(ex::cmp(K::Eq, x, y));
		case CmpInst::ICMP_NE: return V(ex::lnot(ex::cmp(K::Eq, x, y)));
		case CmpInst::ICMP_UGT: return V(ex::cmp(K::Ult, y, x));
		case CmpInst::ICMP_UGE: return V(ex::cmp(K::Ule, y, x));
		case CmpInst::ICMP_ULT: return V(ex::cmp(K::Ult, x, y));
		case CmpInst::ICMP_ULE: return V(ex::cmp(K::Ule, x, y));
		case CmpInst::ICMP_SGT: return V(ex::cmp(K::Slt, y, x));
		case CmpInst::ICMP_SGE: return V(ex::cmp(K::Sle, y, x));
		case CmpInst::ICMP_SLT: return V(ex::cmp(K::Slt, x, y));
		case CmpInst::ICMP_SLE: return V(ex::cmp(K::Sle, x, y));
		}
		return C(0);
	}
	Val fpop(K k, unsigned w, Val a, unsigned inw, Val b = {}, Val c = {}, u32 aux = 0, int nops = 1) {
		if (!a.e && !b.e && !c.e) return C(ex::fpFold(k, w, inw, a.c, b.c, c.c, aux));
		return V(ex::fp(k, w, E(a, inw), nops > 1 ? E(b, inw) : nullptr, nops > 2 ? E(c, inw) : nullptr, aux));
	}
	Val castop(unsigned opc, Val a, unsigned from, unsigned to) {
		u64 m = to >= 64 ? ~0ull : (1ull << to) - 1;
		switch (opc) {
		case Instruction::Trunc: if (!a.e) return C(a.c & m); return V(ex::extract(a.e, 0, to));
		case Instruction::ZExt: if (!a.e && to <= 64) return a; return V(ex::zext(E(a, from), to));
		case Instruction::SExt:
			if (!a.e && to <= 64) { i64 x = (i64)(a.c << (64 - from)) >> (64 - from); return C((u64) x & m); }
			return V(ex::sext(E(a, from), to));
		case Instruction::PtrToInt: case Instruction::IntToPtr:
			if (to < from) return castop(Instruction::Trunc, a, from, to);
			if (to > from) return castop(Instruction::ZExt, a, from, to);
			return a;
		case Instruction::FPTrunc: return fpop(K::FPTrunc, to, a, from);
		case Instruction::FPExt: return fpop(K::FPExt, to, a, from);
		case Instruction::FPToSI: return fpop(K::FPToSI, to, a, from);
		case Instruction::FPToUI: return fpop(K::FPToUI, to, a, from);
		case Instruction::SIToFP: return fpop(K::SIToFP, to, a, from);
		case Instruction::UIToFP: return fpop(K::UIToFP, to, a, from);
		}
		return a;
	}

	void run(State& s) {
		try {
			loop(s);
		} catch (Done& d) {
			if (!strcmp(d.why, "error")) ++pathsError;
			else if (!strcmp(d.why, "assume")) ++pathsAssume;
			else if (!strcmp(d.why, "incomplete")) ++pathsIncomplete;
			else ++pathsDone;
		}
	}
	void loop(State& s) {
		u32 tick = 0;
		while (!s.stack.empty()) {
			Frame& f = s.stack.back();
			KInst& k = f.f->insts[f.pc];
			++s.steps;
			++instrs;
			if ((++tick & 0x3fff) == 0) {
				if (late()) throw Done {"incomplete"};
				if (s.steps > opt.maxSteps) {
					report(s, "non-termination", "more than " + std::to_string(opt.maxSteps) + " instructions on one path", *s.model);
					throw Done {"error"};
				}
			}
			switch (k.op) {
			case OP_BIN:
				for (int i = 0; i < k.n; ++i) f.regs[k.dst + i] = binop(s, (K) k.sub, get(f, opAt(k.ops[0], i)), get(f, opAt(k.ops[1], i)), k.w);
				if (!s.defs.empty())
					for (int i = 0; i < k.n; ++i) {
						Val& r = f.regs[k.dst + i];
						if (!r.e) continue;
						if (auto it = s.defs.find(r.e->id); it != s.defs.end()) r = V(it->second);
					}
				++f.pc;
				break;
			case OP_DIVREM:
				for (int i = 0; i < k.n; ++i) {
					Val a = get(f, opAt(k.ops[0], i)), b = get(f, opAt(k.ops[1], i));
					Expr *x = E(a, k.w), *y = E(b, k.w);
					require(s, ex::lnot(ex::cmp(K::Eq, y, ex::cst(0, k.w))), "arithmetic", "division by zero");
					if ((K) k.sub == K::SDiv || (K) k.sub == K::SRem)
						require(s, ex::lnot(ex::land(ex::cmp(K::Eq, y, ex::cst(maskw(k.w), k.w)), ex::cmp(K::Eq, x, ex::cst((u128) 1 << (k.w - 1), k.w)))), "arithmetic", "signed division overflow");
					f.regs[k.dst + i] = V(ex::bin((K) k.sub, x, y));
				}
				++f.pc;
				break;
			case OP_FBIN:
				for (int i = 0; i < k.n; ++i) f.regs[k.dst + i] = fpop((K) k.sub, k.w, get(f, opAt(k.ops[0], i)), k.w, get(f, opAt(k.ops[1], i)), {}, 0, 2);
				++f.pc;
				break;
			case OP_FNEG:
				for (int i = 0; i < k.n; ++i) f.regs[k.dst + i] = binop(s, K::Xor, get(f, opAt(k.ops[0], i)), C(1ull << (k.w - 1)), k.w);
				++f.pc;
				break;
			case OP_ICMP:
				for (int i = 0; i < k.n; ++i) f.regs[k.dst + i] = icmp(k.sub, get(f, opAt(k.ops[0], i)), get(f, opAt(k.ops[1], i)), k.w2);
				++f.pc;
				break;
			case OP_FCMP:
				for (int i = 0; i < k.n; ++i) f.regs[k.dst + i] = fpop(K::FCmp, 1, get(f, opAt(k.ops[0], i)), k.w2, get(f, opAt(k.ops[1], i)), {}, k.sub, 2);
				++f.pc;
				break;
			case OP_SELECT:
				for (int i = 0; i < k.n; ++i) {
					Val const& c = get(f, opAt(k.ops[0], k.imm > 1 ? i : 0));
					Val const &a = get(f, opAt(k.ops[1], i)), &b = get(f, opAt(k.ops[2], i));
					if (!c.e) f.regs[k.dst + i] = c.c ? a : b;
					else f.regs[k.dst + i] = V(ex::ite(c.e, E(a, k.layout[i].w), E(b, k.layout[i].w)));
				}
				++f.pc;
				break;
			case OP_CAST:
				for (int i = 0; i < k.n; ++i) f.regs[k.dst + i] = castop(k.sub, get(f, opAt(k.ops[0], i)), k.w2, k.w);
				++f.pc;
				break;
			case OP_MOV:
				for (int i = 0; i < k.n; ++i) f.regs[k.dst + i] = get(f, opAt(k.ops[0], i));
				++f.pc;
				break;
			case OP_BITCAST: {
				Expr* all = nullptr;
				for (u64 i = 0; i < k.imm; ++i) { Expr* x = E(get(f, opAt(k.ops[0], i)), k.w2); all = all ? ex::concat(x, all) : x; }
				for (int i = 0; i < k.n; ++i) f.regs[k.dst + i] = V(ex::extract(all, i * k.w, k.w));
				++f.pc;
				break;
			}
			case OP_LOAD: {
				Val a = get(f, k.ops[0]);
				if (k.layout.size() == 1) {
					unsigned w = k.layout[0].w;
					if (!a.e) { // fast path
						Obj* o = find(s, a.c);
						unsigned n = (w + 7) / 8;
						if (o) {
							u64 off = a.c - o->base();
							if (off < o->size && n <= o->size - off) { f.regs[k.dst] = loadBytes(o, off, n, w); ++f.pc; break; }
						}
					}
					f.regs[k.dst] = load(s, a, w);
				} else {
					for (size_t i = 0; i < k.layout.size(); ++i)
						f.regs[k.dst + i] = load(s, k.layout[i].off ? binop(s, K::Add, a, C(k.layout[i].off), 64) : a, k.layout[i].w);
				}
				++f.pc;
				break;
			}
			case OP_STORE: {
				Val a = get(f, k.ops[1]);
				for (size_t i = 0; i < k.layout.size(); ++i)
					store(s, k.layout[i].off ? binop(s, K::Add, a, C(k.layout[i].off), 64) : a, get(f, opAt(k.ops[0], i)), k.layout[i].w);
				++f.pc;
				break;
			}
			case OP_ALLOCA: {
				u64 n = concretize(s, get(f, k.ops[0]), k.w2);
				f.regs[k.dst] = C(allocate(s, n * k.imm, 2));
				++f.pc;
				break;
			}
			case OP_GEP: {
				Val r = get(f, k.ops[0]);
				if (k.imm) r = binop(s, K::Add, r, C(k.imm), 64);
				for (auto& t : k.gep) {
					Val ix = get(f, t.op);
					if (t.w < 64) ix = castop(Instruction::SExt, ix, t.w, 64);
					if (t.scale != 1) ix = binop(s, K::Mul, ix, C(t.scale), 64);
					r = binop(s, K::Add, r, ix, 64);
				}
				f.regs[k.dst] = r;
				++f.pc;
				break;
			}
			case OP_BR: jump(f, k.edges[0]); break;
			case OP_CBR: {
				Val c = get(f, k.ops[0]);
				bool t;
				if (!c.e) t = c.c;
				else t = decide(s, c.e);
				jump(f, k.edges[t ? 0 : 1]);
				break;
			}
			case OP_SWITCH: {
				Val c = get(f, k.ops[0]);
				if (!c.e) {
					size_t i = 0;
					for (; i < k.cases.size(); ++i) if (k.cases[i] == c.c) break;
					jump(f, k.edges[i < k.cases.size() ? i + 1 : 0]);
					break;
				}
				size_t hit = k.cases.size();
				// decide on the case selected by the current model first, siblings retry
				u64 mv = (u64) evalS(s, c.e);
				for (size_t i = 0; i < k.cases.size(); ++i) if (k.cases[i] == mv) hit = i;
				if (hit < k.cases.size()) {
					if (!decide(s, ex::cmp(K::Eq, c.e, ex::cst(mv, k.w)))) break; // cannot happen
					jump(f, k.edges[hit + 1]);
				} else {
					// default: all other cases negated
					Expr* none = ex::cst(1, 1);
					for (u64 cv : k.cases) none = ex::land(none, ex::lnot(ex::cmp(K::Eq, c.e, ex::cst(cv, k.w))));
					if (!decide(s, none)) break;
					jump(f, k.edges[0]);
				}
				break;
			}
			case OP_RET: {
				static std::vector<Val> rv;
				rv.clear();
				for (int i = 0; i < k.n; ++i) rv.push_back(get(f, opAt(k.ops[0], i)));
				popFrame(s);
				if (s.stack.empty()) break;
				Frame& c = s.stack.back();
				KInst& ck = c.f->insts[c.pc];
				for (size_t i = 0; i < rv.size() && (int) i < ck.n; ++i) c.regs[ck.dst + i] = rv[i];
				finishCall(s, ck);
				break;
			}
			case OP_CALL:
			case OP_INVOKE: {
				std::vector<Val> args;
				for (size_t i = 0; i < k.argn.size(); ++i) for (int j = 0; j < k.argn[i]; ++j) args.push_back(get(f, opAt(k.ops[i], j)));
				if (k.builtin >= 0) { builtins[k.builtin].second(*this, s, k, args); break; }
				Function* F = k.callee;
				if (!F) {
					u64 a = concretize(s, get(f, k.ops.back()), 64);
					F = funcAt(s, a);
					if (!F) fail(s, "memory", a < 0x10000 ? "call through null function pointer" : "call through invalid function pointer");
				}
				callFunction(s, k, F, args, k.argn);
				break;
			}
			case OP_LANDINGPAD: {
				auto p = s.exns[0];
				if (k.n >= 1) f.regs[k.dst] = C(p.first);
				if (k.n >= 2) f.regs[k.dst + 1] = C(p.second & 0xffffffffu);
				++f.pc;
				break;
			}
			case OP_RESUME: {
				u64 e = concretize(s, get(f, k.ops[0]), 64);
				popFrame(s);
				if (s.stack.empty()) throw Done {"error"};
				unwind(s, e);
				break;
			}
			case OP_UNREACHABLE: fail(s, "unreachable", "unreachable code reached (undefined behaviour)");
			case OP_EXTRACTVAL:
				for (int i = 0; i < k.n; ++i) f.regs[k.dst + i] = get(f, opAt(k.ops[0], (int) k.imm + i));
				++f.pc;
				break;
			case OP_INSERTVAL:
				for (int i = 0; i < k.n; ++i) f.regs[k.dst + i] = get(f, opAt(k.ops[0], i));
				for (unsigned i = 0; i < k.w2; ++i) f.regs[k.dst + k.imm + i] = get(f, opAt(k.ops[1], i));
				++f.pc;
				break;
			case OP_EXTRACTEL: {
				u64 ix = concretize(s, get(f, k.ops[1]), 64);
				if (ix >= k.imm) fail(s, "memory", "vector index out of range");
				f.regs[k.dst] = get(f, opAt(k.ops[0], (int) ix));
				++f.pc;
				break;
			}
			case OP_INSERTEL: {
				u64 ix = concretize(s, get(f, k.ops[2]), 64);
				Val v = get(f, k.ops[1]);
				for (int i = 0; i < k.n; ++i) f.regs[k.dst + i] = get(f, opAt(k.ops[0], i));
				if ((int) ix < k.n) f.regs[k.dst + ix] = v;
				++f.pc;
				break;
			}
			case OP_SHUFFLE:
				for (int i = 0; i < k.n; ++i) {
					i64 m = (i64) k.cases[i];
					Val v;
					if (m >= 0) v = (u64) m < k.imm ? get(f, opAt(k.ops[0], (int) m)) : get(f, opAt(k.ops[1], (int) (m - k.imm)));
					f.regs[k.dst + i] = v;
				}
				++f.pc;
				break;
			case OP_ATOMICRMW: {
				Val p = get(f, k.ops[0]), v = get(f, k.ops[1]);
				Val old = load(s, p, k.w);
				Val nv = v;
				switch (k.sub) {
				case AtomicRMWInst::Add: nv = binop(s, K::Add, old, v, k.w); break;
				case AtomicRMWInst::Sub: nv = binop(s, K::Sub, old, v, k.w); break;
				case AtomicRMWInst::And: nv = binop(s, K::And, old, v, k.w); break;
				case AtomicRMWInst::Or: nv = binop(s, K::Or, old, v, k.w); break;
				case AtomicRMWInst::Xor: nv = binop(s, K::Xor, old, v, k.w); break;
				default: break;
				}
				store(s, p, nv, k.w);
				f.regs[k.dst] = old;
				++f.pc;
				break;
			}
			case OP_CMPXCHG: {
				Val p = get(f, k.ops[0]), c = get(f, k.ops[1]), n = get(f, k.ops[2]);
				Val old = load(s, p, k.w);
				Val eq = icmp(CmpInst::ICMP_EQ, old, c, k.w);
				bool e = eq.e ? decide(s, eq.e) : eq.c;
				if (e) store(s, p, n, k.w);
				f.regs[k.dst] = old;
				f.regs[k.dst + 1] = C(e);
				++f.pc;
				break;
			}
			case OP_NOP: ++f.pc; break;
			default: {
				std::string str;
				raw_string_ostream o(str);
				o << *k.I;
				giveUp(s, "unsupported instruction " + str);
			}
			}
		}
		// path finished
		for (auto& r : s.reached) reachedAll.insert(r);
		dumpSample(s);
	}

	void registerBuiltins();
	void def(std::string n, Builtin b, bool force = false) {
		builtinIdx[n] = (int) builtins.size();
		builtins.push_back({n, std::move(b)});
		if (force) forcedBuiltins.insert(n);
	}
	bool load(std::string const& path) {
		SMDiagnostic err;
		M = parseIRFile(path, err, ctx);
		if (!M) { err.print("zse", errs()); return false; }
		DL = &M->getDataLayout();
		return true;
	}
	void explore();
	void writeResult(bool ok, double wall);
};

// ---------------------------------------------------------------- builtins
void Exec::registerBuiltins() {
	auto ret = [](Exec& x, State& s, KInst& k, Val v) { x.setResult(s, k, v); x.finishCall(s, k); };
	auto retv = [](Exec& x, State& s, KInst& k) { x.finishCall(s, k); };
	// --- harness interface
	def("zse_make_symbolic", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) {
		u64 n = x.concretize(s, a[1], 64);
		std::string name = x.cstr(s, x.concretize(s, a[2], 64));
		if (n) {
			Loc L = x.resolve(s, a[0], n, true);
			Obj* o = x.writable(s, L.o);
			for (u64 i = 0; i < n; ++i) x.setByte(o, L.off + i, ex::sym(s.nsyms + i));
		}
		s.arrays.push_back({name, s.nsyms, (u32) n});
		s.nsyms += n;
		retv(x, s, k);
	});
	def("zse_assume", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) {
		Expr* c = ex::lnot(ex::cmp(K::Eq, E(a[0], 32), ex::cst(0, 32)));
		if (c->isConst()) { if (!c->val) throw Done {"assume"}; }
		else if (x.evalS(s, c)) x.addC(s, c);
		else {
			Model m;
			Res r = x.query(s, c, m);
			if (r == Res::Unknown) x.giveUp(s, "solver-unknown-assume");
			if (r == Res::Unsat) throw Done {"assume"};
			x.addC(s, c);
			s.model = std::make_shared<Model>(std::move(m));
		}
		retv(x, s, k);
	});
	def("zse_assert", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) {
		Expr* c = ex::lnot(ex::cmp(K::Eq, E(a[0], 32), ex::cst(0, 32)));
		std::string msg = x.cstr(s, x.concretize(s, a[1], 64));
		++x.incomplete["#asserts"];
		if (c->isConst() && c->val) ++x.incomplete["#rewritten"];
		x.require(s, c, "assertion", msg);
		retv(x, s, k);
	});
	// equality of two byte ranges as one unsimplified term, so that the solver decides it
	def("zse_same", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) {
		u64 n = x.concretize(s, a[2], 64);
		std::vector<Expr*> t;
		bool diff = false;
		if (n) {
			Loc L = x.resolve(s, C(x.concretize(s, a[0], 64)), n, false), R = x.resolve(s, C(x.concretize(s, a[1], 64)), n, false);
			for (u64 i = 0; i < n; ++i) {
				Expr* p = L.o->sym ? L.o->sym[L.off + i] : nullptr;
				Expr* q = R.o->sym ? R.o->sym[R.off + i] : nullptr;
				if (!p && !q) { if (L.o->data[L.off + i] != R.o->data[R.off + i]) diff = true; continue; }
				if (!p) p = ex::cst(L.o->data[L.off + i], 8);
				if (!q) q = ex::cst(R.o->data[R.off + i], 8);
				t.push_back(ex::mk(K::Eq, 1, p, q));
			}
		}
		if (diff) { ret(x, s, k, C(0)); return; }
		if (t.empty()) { ret(x, s, k, C(1)); return; }
		while (t.size() > 1) {
			std::vector<Expr*> u;
			for (size_t i = 0; i + 1 < t.size(); i += 2) u.push_back(ex::mk(K::And, 1, t[i], t[i + 1]));
			if (t.size() & 1) u.push_back(t.back());
			t.swap(u);
		}
		Val v;
		v.e = ex::mk(K::ZExt, 32, t[0]);
		ret(x, s, k, v);
	});
	def("zse_reached", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) {
		s.reached.insert(x.cstr(s, x.concretize(s, a[0], 64)));
		retv(x, s, k);
	});
	def("zse_concretize", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { ret(x, s, k, C(x.concretize(s, a[0], 64))); });
	// zse_define(a, b): assumes a == b and uses b wherever a is computed again
	def("zse_define", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) {
		Expr *l = E(a[0], 64), *r = E(a[1], 64);
		Expr* c = ex::cmp(K::Eq, l, r);
		if (!c->isConst()) {
			if (!x.evalS(s, c)) x.giveUp(s, "zse_define: model does not satisfy the definition");
			x.addC(s, c);
			s.defs[l->id] = r;
		} else if (!c->val) x.giveUp(s, "zse_define: contradictory definition");
		retv(x, s, k);
	});
	// zse_dec_model(d, n, v): give the n fresh symbols at d the decimal digits of v in the current model
	def("zse_dec_model", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) {
		u64 n = x.concretize(s, a[1], 64);
		u64 v = (u64) x.evalS(s, E(a[2], 64));
		auto m = std::make_shared<Model>(s.model ? *s.model : Model {});
		if (m->v.size() < s.nsyms) m->v.resize(s.nsyms);
		// the symbols were just created: they are the last n ones
		for (u64 i = n; i > 0; --i) { m->v[s.nsyms - n + i - 1] = (u8) ('0' + v % 10); v /= 10; }
		s.model = m;
		retv(x, s, k);
	});
	def("zse_is_symbolic", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { ret(x, s, k, C(a[0].e != nullptr)); });
	def("zse_giveup", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { x.giveUp(s, x.cstr(s, x.concretize(s, a[0], 64))); });
	def("zse_native", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { ret(x, s, k, C(0)); });
	def("zse_fmt_double", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { // (buf, cap, fmt, double) -> int
		u64 cap = x.concretize(s, a[1], 64);
		std::string fmt = x.cstr(s, x.concretize(s, a[2], 64));
		u64 bits = x.concretize(s, a[3], 64);
		double d;
		memcpy(&d, &bits, 8);
		char buf[1024];
		int n = snprintf(buf, sizeof buf, fmt.c_str(), d);
		u64 w = std::min<u64>(cap, n + 1);
		for (u64 i = 0; i < w; ++i) x.store(s, x.binop(s, K::Add, a[0], C(i), 64), C((u8) (i + 1 == w ? 0 : buf[i])), 8);
		ret(x, s, k, C((u32) n));
	});
	def("zse_strtod", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { // (str, size_t* consumed, int isFloat) -> double bits
		std::string t = x.cstr(s, x.concretize(s, a[0], 64));
		char* end;
		u64 isF = x.concretize(s, a[2], 32);
		u64 r = 0;
		if (isF) { float v = strtof(t.c_str(), &end); u32 b; memcpy(&b, &v, 4); r = b; }
		else { double v = strtod(t.c_str(), &end); memcpy(&r, &v, 8); }
		x.store(s, a[1], C(end - t.c_str()), 64);
		ret(x, s, k, C(r));
	});
	// --- allocation
	auto doAlloc = [=](Exec& x, State& s, KInst& k, Val sz, u8 kind, bool isNew, u8 fill) {
		if (sz.e) {
			bool ok = x.decide(s, ex::cmp(K::Ule, sz.e, ex::cst(x.opt.symAlloc ? x.opt.symAlloc : x.opt.allocLimit, 64)));
			if (!ok) {
				// sizes no allocator can satisfy fail for real; others are outside the bound
				bool huge = x.decide(s, ex::cmp(K::Ult, ex::cst((1ull << 46), 64), sz.e));
				if (huge && isNew) { x.throwStd(s, "zse_rt_throw_bad_alloc"); return; }
				if (x.opt.symAlloc) throw Done {"assume"};
				x.giveUp(s, "allocation-limit");
			}
		}
		u64 n = x.concretize(s, sz, 64);
		if (n > (1ull << 46)) { if (isNew) { x.throwStd(s, "zse_rt_throw_bad_alloc"); return; } ret(x, s, k, C(0)); return; }
		if (n > x.opt.allocLimit) { if (x.opt.symAlloc) throw Done {"assume"}; x.giveUp(s, "allocation-limit"); }
		ret(x, s, k, C(x.allocate(s, n, kind, fill)));
	};
	for (const char* n : {"_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"})
		def(n, [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { doAlloc(x, s, k, a[0], 1, true, 0xBE); });
	def("malloc", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { doAlloc(x, s, k, a[0], 1, false, 0xBE); });
	def("calloc", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { doAlloc(x, s, k, x.binop(s, K::Mul, a[0], a[1], 64), 1, false, 0); });
	auto doFree = [=](Exec& x, State& s, KInst& k, Val p) {
		u64 a = x.concretize(s, p, 64);
		if (a) {
			Obj* o = x.find(s, a);
			if (!o || o->base() != a || (o->kind != 1)) x.fail(s, "memory", o ? "free of a pointer that was not allocated" : "double free or free of invalid pointer");
			x.release(s, o);
		}
		retv(x, s, k);
	};
	for (const char* n : {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "free", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t"})
		def(n, [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { doFree(x, s, k, a[0]); });
	def("realloc", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) {
		u64 p = x.concretize(s, a[0], 64), n = x.concretize(s, a[1], 64);
		if (n > x.opt.allocLimit) x.giveUp(s, "allocation-limit");
		u64 r = x.allocate(s, n, 1);
		if (p) {
			Obj* o = x.find(s, p);
			if (!o || o->base() != p) x.fail(s, "memory", "realloc of invalid pointer");
			x.memCopy(s, C(r), C(p), C(std::min(n, o->size)), false);
			x.release(s, x.find(s, p));
		}
		ret(x, s, k, C(r));
	});
	// --- memory
	auto cpy = [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { x.memCopy(s, a[0], a[1], a[2], true); x.setResult(s, k, a[0]); x.finishCall(s, k); };
	for (const char* n : {"memcpy", "memmove", "llvm.memcpy", "llvm.memmove", "llvm.memcpy.inline"}) def(n, cpy);
	auto mset = [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { x.memSet(s, a[0], a[1], a[2]); x.setResult(s, k, a[0]); x.finishCall(s, k); };
	for (const char* n : {"memset", "llvm.memset", "llvm.memset.inline"}) def(n, mset);
	def("memcmp", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { ret(x, s, k, x.memCmp(s, a[0], a[1], a[2], false)); });
	def("bcmp", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { ret(x, s, k, x.memCmp(s, a[0], a[1], a[2], true)); });
	def("strlen", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) {
		u64 p = x.concretize(s, a[0], 64);
		u64 i = 0;
		for (;; ++i) {
			Val b = x.load(s, C(p + i), 8);
			if (!b.e) { if (!b.c) break; continue; }
			if (x.decide(s, ex::cmp(K::Eq, b.e, ex::cst(0, 8)))) break;
		}
		ret(x, s, k, C(i));
	});
	// --- integer intrinsics
	auto minmax = [=](unsigned pred) {
		return [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) {
			int n = k.n;
			for (int i = 0; i < n; ++i) {
				Val c = x.icmp(pred, a[i], a[n + i], k.w);
				Val r = c.e ? V(ex::ite(c.e, E(a[i], k.w), E(a[n + i], k.w))) : c.c ? a[i] : a[n + i];
				s.stack.back().regs[k.dst + i] = r;
			}
			x.finishCall(s, k);
		};
	};
	def("llvm.umin", minmax(CmpInst::ICMP_ULT)); def("llvm.umax", minmax(CmpInst::ICMP_UGT));
	def("llvm.smin", minmax(CmpInst::ICMP_SLT)); def("llvm.smax", minmax(CmpInst::ICMP_SGT));
	def("llvm.abs", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) {
		Val neg = x.icmp(CmpInst::ICMP_SLT, a[0], C(0), k.w);
		Val m = x.binop(s, K::Sub, C(0), a[0], k.w);
		ret(x, s, k, neg.e ? V(ex::ite(neg.e, E(m, k.w), E(a[0], k.w))) : neg.c ? m : a[0]);
	});
	def("llvm.ctlz", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) {
		Expr* e = E(a[0], k.w);
		Expr* r = ex::cst(k.w, k.w);
		for (unsigned i = 0; i < k.w; ++i) r = ex::ite(ex::extract(e, i, 1), ex::cst(k.w - 1 - i, k.w), r);
		ret(x, s, k, V(r));
	});
	def("llvm.cttz", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) {
		Expr* e = E(a[0], k.w);
		Expr* r = ex::cst(k.w, k.w);
		for (unsigned i = k.w; i-- > 0;) r = ex::ite(ex::extract(e, i, 1), ex::cst(i, k.w), r);
		ret(x, s, k, V(r));
	});
	def("llvm.ctpop", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) {
		Expr* e = E(a[0], k.w);
		Expr* r = ex::cst(0, k.w);
		for (unsigned i = 0; i < k.w; ++i) r = ex::bin(K::Add, r, ex::zext(ex::extract(e, i, 1), k.w));
		ret(x, s, k, V(r));
	});
	def("llvm.bswap", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) {
		Expr* e = E(a[0], k.w);
		Expr* r = ex::extract(e, 0, 8);
		for (unsigned i = 8; i < k.w; i += 8) r = ex::concat(r, ex::extract(e, i, 8));
		ret(x, s, k, V(r));
	});
	def("llvm.bitreverse", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) {
		Expr* e = E(a[0], k.w);
		Expr* r = ex::extract(e, 0, 1);
		for (unsigned i = 1; i < k.w; ++i) r = ex::concat(r, ex::extract(e, i, 1));
		ret(x, s, k, V(r));
	});
	auto fsh = [=](bool left) {
		return [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) {
			u64 sh = x.concretize(s, a[2], k.w) % k.w;
			Expr *hi = E(a[0], k.w), *lo = E(a[1], k.w);
			Expr* r;
			if (sh == 0) r = left ? hi : lo;
			else if (left) r = ex::concat(ex::extract(hi, 0, k.w - sh), ex::extract(lo, k.w - sh, sh));
			else r = ex::concat(ex::extract(hi, 0, sh), ex::extract(lo, sh, k.w - sh));
			ret(x, s, k, V(r));
		};
	};
	def("llvm.fshl", fsh(true)); def("llvm.fshr", fsh(false));
	auto sat = [=](K op, bool sgn) {
		return [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) {
			Expr *p = E(a[0], k.w), *q = E(a[1], k.w), *r;
			if (!sgn) {
				if (op == K::Sub) r = ex::ite(ex::cmp(K::Ult, p, q), ex::cst(0, k.w), ex::bin(K::Sub, p, q));
				else { Expr* t = ex::bin(K::Add, p, q); r = ex::ite(ex::cmp(K::Ult, t, p), ex::cst(maskw(k.w), k.w), t); }
			} else {
				unsigned w2 = k.w + 1;
				Expr* t = ex::bin(op, ex::sext(p, w2), ex::sext(q, w2));
				Expr* mx = ex::cst(maskw(k.w - 1), w2);
				Expr* mn = ex::sext(ex::cst((u128) 1 << (k.w - 1), k.w), w2);
				r = ex::extract(ex::ite(ex::cmp(K::Slt, mx, t), mx, ex::ite(ex::cmp(K::Slt, t, mn), mn, t)), 0, k.w);
			}
			ret(x, s, k, V(r));
		};
	};
	def("llvm.usub.sat", sat(K::Sub, false)); def("llvm.uadd.sat", sat(K::Add, false));
	def("llvm.ssub.sat", sat(K::Sub, true)); def("llvm.sadd.sat", sat(K::Add, true));
	auto ovf = [=](K op, bool sgn) {
		return [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) {
			unsigned w = k.ws[0];
			unsigned w2 = op == K::Mul ? std::min(128u, w * 2) : w + 1;
			Expr *p = E(a[0], w), *q = E(a[1], w);
			Expr* t = ex::bin(op, sgn ? ex::sext(p, w2) : ex::zext(p, w2), sgn ? ex::sext(q, w2) : ex::zext(q, w2));
			Expr* lo = ex::extract(t, 0, w);
			Expr* o = ex::lnot(ex::cmp(K::Eq, t, sgn ? ex::sext(lo, w2) : ex::zext(lo, w2)));
			s.stack.back().regs[k.dst] = V(lo);
			s.stack.back().regs[k.dst + 1] = V(o);
			x.finishCall(s, k);
		};
	};
	def("llvm.uadd.with.overflow", ovf(K::Add, false)); def("llvm.usub.with.overflow", ovf(K::Sub, false)); def("llvm.umul.with.overflow", ovf(K::Mul, false));
	def("llvm.sadd.with.overflow", ovf(K::Add, true)); def("llvm.ssub.with.overflow", ovf(K::Sub, true)); def("llvm.smul.with.overflow", ovf(K::Mul, true));
	auto ident = [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { ret(x, s, k, a[0]); };
	def("llvm.expect", ident); def("llvm.expect.with.probability", ident); def("llvm.launder.invariant.group", ident); def("llvm.strip.invariant.group", ident); def("llvm.ssa.copy", ident); def("llvm.threadlocal.address", ident);
	def("llvm.is.constant", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { ret(x, s, k, C(0)); });
	def("llvm.objectsize", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { ret(x, s, k, C(~0ull)); });
	def("llvm.stacksave", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { ret(x, s, k, C(0)); });
	def("llvm.stackrestore", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { retv(x, s, k); });
	def("llvm.frameaddress", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { ret(x, s, k, C(0)); });
	def("llvm.trap", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { x.fail(s, "trap", "trap instruction (undefined behaviour)"); });
	def("llvm.ubsantrap", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { x.fail(s, "trap", "trap instruction (undefined behaviour)"); });
	def("llvm.load.relative", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) {
		Val p = x.binop(s, K::Add, a[0], a[1], 64);
		Val o = x.load(s, p, 32);
		ret(x, s, k, x.binop(s, K::Add, a[0], x.castop(Instruction::SExt, o, 32, 64), 64));
	});
	// --- floating point
	auto f1 = [=](K op, u32 aux) { return [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) {
		for (int i = 0; i < k.n; ++i) s.stack.back().regs[k.dst + i] = x.fpop(op, k.w, a[i], k.w, {}, {}, aux);
		x.finishCall(s, k); }; };
	for (const char* n : {"llvm.sqrt", "sqrt", "sqrtf"}) def(n, f1(K::FSqrt, 0));
	for (const char* n : {"llvm.ceil", "ceil", "ceilf"}) def(n, f1(K::FRound, 1));
	for (const char* n : {"llvm.floor", "floor", "floorf"}) def(n, f1(K::FRound, 2));
	for (const char* n : {"llvm.trunc", "trunc", "truncf"}) def(n, f1(K::FRound, 3));
	for (const char* n : {"llvm.round", "round", "roundf"}) def(n, f1(K::FRound, 4));
	for (const char* n : {"llvm.rint", "llvm.nearbyint", "llvm.roundeven", "rint", "rintf", "nearbyint", "nearbyintf"}) def(n, f1(K::FRound, 0));
	for (const char* n : {"llvm.fmuladd"}) def(n, [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) {
		for (int i = 0; i < k.n; ++i) s.stack.back().regs[k.dst + i] = x.fpop(K::FMulAdd, k.w, a[i], k.w, a[k.n + i], a[2 * k.n + i], 0, 3);
		x.finishCall(s, k); });
	for (const char* n : {"llvm.fabs", "fabs", "fabsf"}) def(n, [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) {
		ret(x, s, k, x.binop(s, K::And, a[0], C(k.w == 64 ? 0x7fffffffffffffffull : 0x7fffffffull), k.w)); });
	for (const char* n : {"llvm.copysign", "copysignf", "copysign"}) def(n, [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) {
		u64 sb = 1ull << (k.w - 1);
		ret(x, s, k, x.binop(s, K::Or, x.binop(s, K::And, a[0], C(sb - 1), k.w), x.binop(s, K::And, a[1], C(sb), k.w), k.w)); });
	auto fmm = [=](bool mx) { return [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) {
		// fmin/fmax: NaN loses
		Expr *p = E(a[0], k.w), *q = E(a[1], k.w);
		Expr* pn = ex::fp(K::FCmp, 1, p, p, nullptr, 8);
		Expr* lt = ex::fp(K::FCmp, 1, p, q, nullptr, mx ? 2 : 4);
		Expr* qn = ex::fp(K::FCmp, 1, q, q, nullptr, 8);
		ret(x, s, k, V(ex::ite(pn, q, ex::ite(ex::lor(lt, qn), p, q)))); }; };
	for (const char* n : {"llvm.minnum", "fminf", "fmin"}) def(n, fmm(false));
	for (const char* n : {"llvm.maxnum", "fmaxf", "fmax"}) def(n, fmm(true));
	// --- varargs
	def("llvm.va_start", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) {
		u64 ap = x.concretize(s, a[0], 64);
		x.store(s, C(ap), C(48), 32);
		x.store(s, C(ap + 4), C(304), 32);
		x.store(s, C(ap + 8), C(s.stack.back().va), 64);
		x.store(s, C(ap + 16), C(0), 64);
		retv(x, s, k);
	});
	def("llvm.va_end", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { retv(x, s, k); });
	def("llvm.va_copy", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { x.memCopy(s, a[0], a[1], C(24), false); retv(x, s, k); });
	// --- exceptions
	def("__cxa_allocate_exception", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { ret(x, s, k, C(x.allocate(s, x.concretize(s, a[0], 64), 1))); });
	def("__cxa_free_exception", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { u64 p = x.concretize(s, a[0], 64); Obj* o = x.find(s, p); if (o) x.release(s, o); retv(x, s, k); });
	def("__cxa_throw", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) {
		u64 e = x.concretize(s, a[0], 64);
		s.exns[e] = {x.concretize(s, a[1], 64), x.concretize(s, a[2], 64)};
		x.unwind(s, e);
	});
	def("__cxa_rethrow", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) {
		if (s.caught.empty()) x.fail(s, "terminate", "rethrow without active exception");
		u64 e = s.caught.back().exn;
		s.caught.back().handlers = -1; // will not be destroyed by end_catch
		x.unwind(s, e);
	});
	def("__cxa_begin_catch", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) {
		u64 e = x.concretize(s, a[0], 64);
		s.caught.push_back({e, 1});
		ret(x, s, k, C(e));
	});
	def("__cxa_end_catch", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) {
		if (!s.caught.empty()) {
			s.caught.pop_back(); // exception objects are not destroyed (their memory stays valid; no observable effect)
		}
		retv(x, s, k);
	});
	def("__cxa_get_exception_ptr", ident);
	def("__cxa_current_exception_type", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { ret(x, s, k, C(s.caught.empty() ? 0 : s.exns[s.caught.back().exn].first)); });
	def("_Unwind_Resume", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { x.unwind(s, x.concretize(s, a[0], 64)); });
	def("__cxa_call_unexpected", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { x.fail(s, "terminate", "unexpected exception"); });
	def("llvm.eh.typeid.for", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { ret(x, s, k, C((u32) x.typeId(x.concretize(s, a[0], 64)))); });
	def("_ZSt9terminatev", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) {
		std::string t = s.caught.empty() ? "" : " (exception of type " + x.typeName(s, s.exns[s.caught.back().exn].first) + " escaped a noexcept function)";
		x.fail(s, "terminate", "std::terminate called" + t);
	});
	for (const char* n : {"abort", "__cxa_pure_virtual", "__assert_fail", "_ZSt10unexpectedv", "__stack_chk_fail", "_ZSt21__glibcxx_assert_failPKciS0_S0_"})
		def(n, [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { x.fail(s, "abort", std::string(n) + " called"); });
	for (const char* n : {"exit", "_exit", "_Exit"}) def(n, [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { x.fail(s, "exit", "process exit called"); });
	def("__cxa_guard_acquire", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) {
		Val b = x.load(s, a[0], 8);
		ret(x, s, k, C(x.concretize(s, b, 8) ? 0 : 1));
	});
	def("__cxa_guard_release", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { x.store(s, a[0], C(1), 8); retv(x, s, k); });
	def("__cxa_guard_abort", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { retv(x, s, k); });
	def("__cxa_atexit", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { ret(x, s, k, C(0)); });
	def("__cxa_thread_atexit", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { ret(x, s, k, C(0)); });
	def("atexit", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) { ret(x, s, k, C(0)); });
	def("__dynamic_cast", [=](Exec& x, State& s, KInst& k, std::vector<Val>& a) {
		u64 p = x.concretize(s, a[0], 64), src = x.concretize(s, a[1], 64), dst = x.concretize(s, a[2], 64);
		u64 vt = x.rd64(s, p);
		i64 top = (i64) x.rd64(s, vt - 16);
		u64 ti = x.rd64(s, vt - 8);
		u64 whole = p + top;
		i64 adj = 0;
		bool ok = x.typeMatches(s, ti, dst, adj);
		(void) src;
		ret(x, s, k, C(ok ? whole + adj : 0));
	});
}

// ---------------------------------------------------------------- driver
void Exec::explore() {
	tStart = nowS();
	rng.seed(opt.seed);
	State* init = new State;
	init->id = nextStateId++;
	init->model = std::make_shared<Model>();
	initGlobals(*init);
	// global constructors
	std::vector<std::pair<u32, Function*>> ctors;
	if (auto* g = M->getNamedGlobal("llvm.global_ctors"))
		if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer()))
			for (auto& o : ca->operands()) {
				auto* cs = cast<ConstantStruct>(o);
				if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({(u32) cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f});
			}
	std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
	std::vector<Val> none;
	for (auto& c : ctors) {
		pushFrame(*init, getK(c.second), none);
		u64 before = incomplete.size();
		try { loop(*init); } catch (Done& d) {
			fprintf(stderr, "zse: global constructor %s failed: %s\n", c.second->getName().str().c_str(), d.why);
			for (auto& p : incomplete) fprintf(stderr, "  %s\n", p.first.c_str());
			for (auto& v : viol) fprintf(stderr, "  %s %s %s\n", v.kind.c_str(), v.msg.c_str(), v.loc.c_str());
			init->stack.clear();
		}
		(void) before;
	}
	init->steps = 0;
	samples.clear(); samplesSeen = 0;
	Function* F = M->getFunction(opt.entry);
	if (!F) { fprintf(stderr, "zse: no entry %s\n", opt.entry.c_str()); exit(3); }
	pushFrame(*init, getK(F), none);
	for (auto& kv : kfuncs) kv.second->executed = 0;
	kfuncs[F]->executed = 1;
	work.push_back(init);
	u32 it = 0;
	while (!work.empty() && !stopAll) {
		if (work.size() > 1 && (opt.random || nowS() - tStart > opt.timeLimit * 0.4)) std::swap(work[rng() % work.size()], work.back());
		State* s = work.back();
		work.pop_back();
		u64 before = viol.size();
		try {
			loop(*s);
			++pathsDone;
		} catch (Done& d) {
			if (!strcmp(d.why, "error")) ++pathsError;
			else if (!strcmp(d.why, "assume")) ++pathsAssume;
			else ++pathsIncomplete;
		}
		(void) before;
		delete s;
		if ((++it & 63) == 0) {
			if (late()) break;
			struct rusage ru;
			getrusage(RUSAGE_SELF, &ru);
			if ((size_t) ru.ru_maxrss / 1024 > opt.memLimitMB) { note("memory-limit"); stopAll = true; }
		}
	}
	if (!work.empty()) incomplete["unexplored-states"] += work.size();
}
static std::string js(std::string const& s) {
	std::string o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
		else if (c == '\n') o += "\\n";
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
		else o += (char) c;
	}
	return o + "\"";
}
void Exec::writeResult(bool ok, double wall) {
	std::ostringstream o;
	u64 asserts = incomplete.count("#asserts") ? incomplete["#asserts"] : 0;
	u64 rewritten = incomplete.count("#rewritten") ? incomplete["#rewritten"] : 0;
	for (size_t i = 0; i < samples.size() && !opt.cexDir.empty(); ++i) { std::ofstream f(opt.cexDir + "/" + opt.entry + ".sample" + std::to_string(i)); f << samples[i]; }
	o << "{\n\"entry\": " << js(opt.entry) << ",\n\"complete\": " << (incomplete.size() == incomplete.count("#asserts") + incomplete.count("#rewritten") && !timedOut && ok ? "true" : "false");
	o << ",\n\"paths_completed\": " << pathsDone << ",\n\"paths_assumed_away\": " << pathsAssume << ",\n\"paths_violating\": " << pathsError << ",\n\"paths_incomplete\": " << pathsIncomplete;
	o << ",\n\"forks\": " << forks << ",\n\"max_depth\": " << maxDepth << ",\n\"instructions\": " << instrs << ",\n\"assertions_checked\": " << asserts << ",\n\"assertions_by_rewriting\": " << rewritten;
	auto& st = solver.stats;
	o << ",\n\"solver\": {\"queries\": " << st.queries << ", \"sat\": " << st.sat << ", \"unsat\": " << st.unsat << ", \"unknown\": " << st.unknown << ", \"cache_hits\": " << st.cacheHits << ", \"model_hits\": " << st.modelHits << ", \"time_s\": " << st.time << ", \"max_s\": " << st.maxTime << "}";
	o << ",\n\"wall_s\": " << wall << ",\n\"incomplete\": {";
	bool first = true;
	for (auto& p : incomplete) if (p.first[0] != '#') { o << (first ? "" : ", ") << js(p.first) << ": " << p.second; first = false; }
	o << "},\n\"reached\": [";
	first = true;
	for (auto& r : reachedAll) { o << (first ? "" : ", ") << js(r); first = false; }
	o << "],\n\"violations\": [";
	first = true;
	for (auto& v : viol) {
		o << (first ? "" : ",") << "\n {\"kind\": " << js(v.kind) << ", \"msg\": " << js(v.msg) << ", \"loc\": " << js(v.loc) << ", \"cex\": " << js(v.cexFile) << ", \"stack\": " << js(v.stack) << "}";
		first = false;
	}
	o << "],\n\"functions\": [";
	first = true;
	std::set<std::string> fns;
	for (auto& kv : kfuncs) {
		if (!kv.second->executed) continue;
		std::string n = demangle(kv.first->getName().str());
		if (n.find("zenkit::") != std::string::npos && n.rfind("std::", 0) != 0 && n.find(" std::") == std::string::npos) fns.insert(n.size() > 120 ? n.substr(0, 120) : n);
	}
	for (auto& n : fns) { o << (first ? "" : ", ") << js(n); first = false; }
	o << "],\n\"samples\": [";
	first = true;
	for (auto& sm : samples) { o << (first ? "" : ", ") << js(sm.size() > 600 ? sm.substr(0, 600) : sm); first = false; }
	o << "]\n}\n";
	if (opt.out.empty()) fputs(o.str().c_str(), stdout);
	else { std::ofstream f(opt.out); f << o.str(); }
	(void) ok;
}

int main(int argc, char** argv) {
	struct rlimit rl {1ull << 29, 1ull << 29};
	(void) rl;
	Exec x;
	std::string mod;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto val = [&](const char* n) -> const char* { std::string p = std::string("--") + n + "="; return a.rfind(p, 0) == 0 ? argv[i] + p.size() : nullptr; };
		if (auto* v = val("entry")) x.opt.entry = v;
		else if (auto* v = val("out")) x.opt.out = v;
		else if (auto* v = val("cex-dir")) x.opt.cexDir = v;
		else if (auto* v = val("time")) x.opt.timeLimit = atof(v);
		else if (auto* v = val("max-steps")) x.opt.maxSteps = strtoull(v, 0, 10);
		else if (auto* v = val("alloc-limit")) x.opt.allocLimit = strtoull(v, 0, 10);
		else if (auto* v = val("mux-limit")) x.opt.muxLimit = atoi(v);
		else if (auto* v = val("conc-limit")) x.opt.concLimit = atoi(v);
		else if (auto* v = val("max-violations")) x.opt.maxViolations = atoi(v);
		else if (auto* v = val("mem")) x.opt.memLimitMB = atoi(v);
		else if (auto* v = val("seed")) { x.opt.seed = strtoull(v, 0, 10); }
		else if (auto* v = val("query-ms")) x.solver.timeoutMs = atoi(v);
		else if (auto* v = val("sym-alloc")) x.opt.symAlloc = strtoull(v, 0, 10);
		else if (a == "--random") x.opt.random = true;
		else if (a == "--debug") x.opt.debug = true;
		else mod = a;
	}
	double t0 = nowS();
	if (!x.opt.cexDir.empty()) (void) !system(("mkdir -p '" + x.opt.cexDir + "'").c_str());
	if (!x.load(mod)) return 3;
	x.registerBuiltins();
	x.explore();
	x.writeResult(true, nowS() - t0);
	fflush(stdout);
	_exit(x.viol.empty() ? 0 : 1);
}
