// zse - expression DAG (hash-consed bit-vector / float terms over symbolic input bytes)
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <memory>
#include <unordered_map>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

enum class K : u8 {
	Const, Sym,
	Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
	Eq, Ult, Ule, Slt, Sle,
	Ite, Concat, Extract, ZExt, SExt,
	// floating point (operands are raw IEEE bit patterns of width 32/64)
	FAdd, FSub, FMul, FDiv, FRem, FSqrt, FMulAdd, FCmp /*aux=llvm predicate*/, FPExt, FPTrunc,
	FPToSI, FPToUI, SIToFP, UIToFP, FRound /* aux: 0 rne,1 up,2 down,3 zero,4 rna */
};

struct Expr {
	K k;
	u8 nops;
	uint16_t w;
	u32 id;
	u32 aux;    // Extract: low bit; Sym: symbol index; FCmp predicate
	u32 hash;
	union {
		Expr* op[3];
		u128 val;
	};
	// evaluation memo
	mutable u32 epoch;
	mutable u32 depth;
	mutable u128 memo;
	mutable std::vector<u32> const* syms; // sorted unique symbol indices (lazy)
	bool isConst() const { return k == K::Const; }
};

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128) 0 : (((u128) 1 << w) - 1); }

// A model: values of all symbol bytes (missing = 0)
struct Model {
	std::vector<u8> v;
	u8 get(u32 i) const { return i < v.size() ? v[i] : 0; }
};

namespace ex {
Expr* mk(K k, unsigned w, Expr* a, Expr* b = nullptr, Expr* c = nullptr, u32 aux = 0);
Expr* cst(u128 v, unsigned w);
Expr* sym(u32 idx);
Expr* bin(K k, Expr* a, Expr* b); // arithmetic, same width
Expr* cmp(K k, Expr* a, Expr* b); // Eq/Ult/Ule/Slt/Sle -> w1
Expr* ite(Expr* c, Expr* a, Expr* b);
Expr* concat(Expr* hi, Expr* lo);
Expr* extract(Expr* a, unsigned lo, unsigned w);
Expr* zext(Expr* a, unsigned w);
Expr* sext(Expr* a, unsigned w);
Expr* lnot(Expr* a); // 1-bit not
Expr* land(Expr* a, Expr* b);
Expr* lor(Expr* a, Expr* b);
Expr* fp(K k, unsigned w, Expr* a, Expr* b = nullptr, Expr* c = nullptr, u32 aux = 0);
u128 eval(Expr* e, Model const& m);
void newEpoch();                     // invalidate evaluation memos (call when the model changes)
std::vector<u32> const& syms(Expr* e);
u128 foldBin(K k, u128 a, u128 b, unsigned w, bool& ok);
u64 fpFold(K k, unsigned w, unsigned inw, u64 a, u64 b, u64 c, u32 aux);
std::string str(Expr* e, int depth = 4);
size_t count();
unsigned trailingZeros(Expr* e); // known zero low bits
u128 umax(Expr* e, int d = 4);   // upper bound of the unsigned value
} // namespace ex
