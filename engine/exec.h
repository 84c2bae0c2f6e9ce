// zse - LLVM IR symbolic executor
#pragma once
#include "expr.h"
#include "solver.h"
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Constants.h>

struct Val {
	u64 c = 0;
	Expr* e = nullptr;
};
inline Expr* E(Val const& v, unsigned w) { return v.e ? v.e : ex::cst(v.c, w); }
inline Val V(Expr* e) {
	Val v;
	if (e->isConst() && e->w <= 64) v.c = (u64) e->val;
	else v.e = e;
	return v;
}
inline Val C(u64 c) { Val v; v.c = c; return v; }

// ---------------------------------------------------------------- memory
constexpr u64 SLOT_BITS = 16;
constexpr u64 SLOT_SIZE = 1ull << SLOT_BITS;
constexpr u64 SLOT_LEAD = 0x1000; // object data starts here inside its first slot
constexpr u64 ADDR_BASE = 0x100000000000ull;
constexpr u64 FUNC_BASE = 0x700000000000ull;
constexpr u32 HEAP_FIRST = 1u << 18; // slots below: stack
constexpr u32 MAX_SLOTS = 1u << 24;

struct Obj {
	int rc = 0;
	u32 slot = 0;       // first slot
	u32 nslots = 1;
	u64 size = 0;       // concrete capacity
	Expr* symSize = nullptr;
	u8 kind = 0;        // 0 global 1 heap 2 stack 3 heap-array
	bool ro = false;
	u8* data = nullptr;
	Expr** sym = nullptr; // lazily allocated, size entries
	u32 nsym = 0;         // number of symbolic bytes (upper bound)
	char const* name = nullptr;
	u64 base() const { return ADDR_BASE + ((u64) slot << SLOT_BITS) + SLOT_LEAD; }
	~Obj() { free(data); free(sym); }
};
struct Node {
	int rc = 0;
	u8 level; // 0: leaf of Obj*
	void* ch[64];
};
// persistent radix trie slot -> Obj
struct Trie {
	Node* root = nullptr;
	Trie() {}
	Trie(Trie const& o) : root(o.root) { if (root) ++root->rc; }
	Trie& operator=(Trie const&) = delete;
	~Trie() { release(root); }
	static void release(Node* n);
	Obj* get(u32 slot) const {
		if (!root || slot >= MAX_SLOTS) return nullptr;
		Node* n = root;
		for (int lv = 3; lv > 0; --lv) {
			n = (Node*) n->ch[(slot >> (6 * lv)) & 63];
			if (!n) return nullptr;
		}
		return (Obj*) n->ch[slot & 63];
	}
	void set(u32 slot, Obj* o);
private:
	static Node* setRec(Node* n, int lv, u32 slot, Obj* o);
};

struct KFunc;
struct KInst;
struct Frame {
	KFunc* f = nullptr;
	u32 pc = 0;
	u32 stackMark = 0;
	std::vector<Val> regs;
	u64 va = 0;      // address of the vararg area
	bool isCtorHook = false;
};
struct Caught { u64 exn; int handlers; };
struct SymArray { std::string name; u32 first; u32 size; };

struct State {
	u64 id = 0;
	std::vector<Frame> stack;
	Trie mem;
	u32 nextHeap = HEAP_FIRST;
	u32 nextStack = 1;
	std::vector<Expr*> cs;         // path condition
	std::shared_ptr<Model> model;  // satisfies cs
	std::vector<char> fixedSyms;   // symbols determined by equality constraints
	std::vector<SymArray> arrays;
	u32 nsyms = 0;
	u64 steps = 0;
	u32 depth = 0;     // number of forks on this path
	// exceptions
	std::vector<Caught> caught;
	std::map<u64, std::pair<u64, u64>> exns; // exception object -> (typeinfo, dtor)
	u64 curExn = 0; // being unwound
	std::unordered_map<u32, u64> conc;       // expr id -> concretised value
	std::unordered_map<u32, Expr*> defs;     // expr id -> equal, simpler expression (zse_define)
	std::vector<std::string> notes;
	std::set<std::string> reached;
	u32 concForks = 0;
};

enum KOp : u8 {
	OP_BIN, OP_DIVREM, OP_FBIN, OP_FNEG, OP_ICMP, OP_FCMP, OP_SELECT, OP_CAST, OP_BITCAST, OP_MOV, OP_LOAD, OP_STORE, OP_ALLOCA, OP_GEP,
	OP_BR, OP_CBR, OP_SWITCH, OP_RET, OP_CALL, OP_INVOKE, OP_RESUME, OP_LANDINGPAD, OP_UNREACHABLE, OP_EXTRACTVAL,
	OP_INSERTVAL, OP_EXTRACTEL, OP_INSERTEL, OP_SHUFFLE, OP_ATOMICRMW, OP_CMPXCHG, OP_NOP, OP_UNSUPPORTED, OP_INDIRECTBR
};
struct Scalar { u64 off; unsigned w; };
struct GepTerm { int op; u64 scale; unsigned w; };
struct Move { int dst, src; int n; };
struct Edge { u32 target; std::vector<Move> moves; };
struct KInst {
	KOp op;
	u8 sub = 0;           // K / predicate / cast opcode
	unsigned w = 0, w2 = 0;
	int dst = -1;
	int n = 1;            // number of result slots
	std::vector<int> ops;
	std::vector<unsigned> ws;
	std::vector<Scalar> layout; // load/store
	std::vector<GepTerm> gep;
	u64 imm = 0;
	std::vector<Edge> edges;
	std::vector<u64> cases;
	llvm::Instruction const* I = nullptr;
	llvm::Function* callee = nullptr;
	std::vector<int> argn; // slots per arg
	int builtin = -1;
};
struct KFunc {
	llvm::Function* F = nullptr;
	std::vector<KInst> insts;
	std::vector<Val> consts;
	u32 nregs = 0;
	std::vector<int> argSlots; // slot count per arg
	u32 nargs = 0;             // total arg slots (regs 0..)
	bool interesting = false;
	u64 executed = 0;
};

struct Violation {
	std::string kind, msg, loc, stack;
	std::string cexFile;
	u64 path = 0;
};
struct Options {
	std::string entry = "harness";
	std::string out;
	std::string cexDir;
	double timeLimit = 60;
	u64 maxSteps = 30000000;
	u64 allocLimit = 1 << 20;
	u32 muxLimit = 1100;
	u32 concLimit = 300;
	u64 symAlloc = 0; // if set: allocations whose size depends on the input are only explored up to this size (a stated bound)
	unsigned maxViolations = 12;
	unsigned maxDepth = 100000;
	size_t memLimitMB = 6000;
	bool random = false;
	u64 seed = 1;
	bool checkShift = false;
	bool debug = false;
};
