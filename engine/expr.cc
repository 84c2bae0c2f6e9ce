#include "expr.h"
#include <cmath>
#include <cstring>
#include <algorithm>
#include <unordered_set>
#include <cfenv>
#include <limits>

namespace ex {
static std::vector<Expr*> table(1 << 20, nullptr);
static size_t tableCount = 0;
static u32 nextId = 1;
static u32 curEpoch = 1;

static char* arena = nullptr;
static size_t arenaLeft = 0;
static Expr* allocExpr() {
	size_t sz = (sizeof(Expr) + 15) & ~15ull;
	if (arenaLeft < sz) {
		arenaLeft = 1 << 22;
		arena = (char*) aligned_alloc(64, arenaLeft);
	}
	Expr* e = (Expr*) arena;
	arena += sz;
	arenaLeft -= sz;
	memset((void*) e, 0, sizeof(Expr));
	return e;
}
size_t count() { return tableCount; }

static inline u32 hmix(u64 h) {
	h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33;
	return (u32) h;
}
static void grow() {
	std::vector<Expr*> nt(table.size() * 2, nullptr);
	for (auto* e : table)
		if (e) {
			size_t i = e->hash & (nt.size() - 1);
			while (nt[i]) i = (i + 1) & (nt.size() - 1);
			nt[i] = e;
		}
	table.swap(nt);
}
Expr* cst(u128 v, unsigned w) {
	v &= maskw(w);
	u32 h = hmix((u64) v * 31 + (u64)(v >> 64) * 7 + w * 1000003ull + 17);
	size_t i = h & (table.size() - 1);
	while (table[i]) {
		Expr* e = table[i];
		if (e->hash == h && e->k == K::Const && e->w == w && e->val == v) return e;
		i = (i + 1) & (table.size() - 1);
	}
	Expr* e = allocExpr();
	e->k = K::Const; e->w = w; e->val = v; e->hash = h; e->id = nextId++;
	table[i] = e;
	if (++tableCount * 2 > table.size()) grow();
	return e;
}
Expr* mk(K k, unsigned w, Expr* a, Expr* b, Expr* c, u32 aux) {
	u64 hh = (u64) k * 0x9e3779b97f4a7c15ULL + w * 131 + aux * 0x85ebca6bULL;
	if (a) hh = hh * 1000003 + a->id;
	if (b) hh = hh * 1000003 + b->id;
	if (c) hh = hh * 1000003 + c->id;
	u32 h = hmix(hh);
	size_t i = h & (table.size() - 1);
	while (table[i]) {
		Expr* e = table[i];
		if (e->hash == h && e->k == k && e->w == w && e->aux == aux && e->k != K::Const && e->op[0] == a && e->op[1] == b && e->op[2] == c) return e;
		i = (i + 1) & (table.size() - 1);
	}
	Expr* e = allocExpr();
	e->k = k; e->w = w; e->aux = aux; e->hash = h; e->id = nextId++;
	e->op[0] = a; e->op[1] = b; e->op[2] = c;
	e->nops = c ? 3 : b ? 2 : a ? 1 : 0;
	u32 d = 0;
	for (int j = 0; j < e->nops; ++j) d = std::max(d, e->op[j]->depth);
	e->depth = d + 1;
	table[i] = e;
	if (++tableCount * 2 > table.size()) grow();
	return e;
}
Expr* sym(u32 idx) { return mk(K::Sym, 8, nullptr, nullptr, nullptr, idx); }

static i128 sx(u128 v, unsigned w) {
	if (w >= 128) return (i128) v;
	u128 m = (u128) 1 << (w - 1);
	return (i128)((v ^ m) - m);
}
u128 foldBin(K k, u128 a, u128 b, unsigned w, bool& ok) {
	ok = true;
	u128 m = maskw(w);
	switch (k) {
	case K::Add: return (a + b) & m;
	case K::Sub: return (a - b) & m;
	case K::Mul: return (a * b) & m;
	case K::UDiv: if (!b) { return m; } return a / b;
	case K::URem: if (!b) { return a; } return a % b;
	case K::SDiv: {
		i128 x = sx(a, w), y = sx(b, w);
		if (!y) return x < 0 ? 1 : m;
		if (y == -1) return (u128)(-x) & m;
		return (u128)(x / y) & m;
	}
	case K::SRem: {
		i128 x = sx(a, w), y = sx(b, w);
		if (!y) return a;
		if (y == -1) return 0;
		return (u128)(x % y) & m;
	}
	case K::And: return a & b;
	case K::Or: return a | b;
	case K::Xor: return a ^ b;
	case K::Shl: return b >= w ? 0 : (a << (unsigned) b) & m;
	case K::LShr: return b >= w ? 0 : a >> (unsigned) b;
	case K::AShr: { i128 x = sx(a, w); unsigned s = b >= w ? w - 1 : (unsigned) b; return (u128)(x >> s) & m; }
	case K::Eq: return a == b;
	case K::Ult: return a < b;
	case K::Ule: return a <= b;
	case K::Slt: return sx(a, w) < sx(b, w);
	case K::Sle: return sx(a, w) <= sx(b, w);
	default: ok = false; return 0;
	}
}
static float tof(u64 x) { u32 y = (u32) x; float f; memcpy(&f, &y, 4); return f; }
static double tod(u64 x) { double f; memcpy(&f, &x, 8); return f; }
static u64 fromf(float f) { u32 y; memcpy(&y, &f, 4); if (f != f) { /* keep payload */ } return y; }
static u64 fromd(double f) { u64 y; memcpy(&y, &f, 8); return y; }
u64 fpFold(K k, unsigned w, unsigned inw, u64 a, u64 b, u64 c, u32 aux) {
	switch (k) {
	case K::FAdd: return w == 32 ? fromf(tof(a) + tof(b)) : fromd(tod(a) + tod(b));
	case K::FSub: return w == 32 ? fromf(tof(a) - tof(b)) : fromd(tod(a) - tod(b));
	case K::FMul: return w == 32 ? fromf(tof(a) * tof(b)) : fromd(tod(a) * tod(b));
	case K::FDiv: return w == 32 ? fromf(tof(a) / tof(b)) : fromd(tod(a) / tod(b));
	case K::FRem: return w == 32 ? fromf(fmodf(tof(a), tof(b))) : fromd(fmod(tod(a), tod(b)));
	case K::FSqrt: return w == 32 ? fromf(sqrtf(tof(a))) : fromd(sqrt(tod(a)));
	case K::FMulAdd: // not fused: separate rounding as on the reference x86-64 build
		if (w == 32) { volatile float t = tof(a) * tof(b); return fromf(t + tof(c)); }
		else { volatile double t = tod(a) * tod(b); return fromd(t + tod(c)); }
	case K::FCmp: {
		double x = inw == 32 ? (double) tof(a) : tod(a), y = inw == 32 ? (double) tof(b) : tod(b);
		bool un = x != x || y != y;
		bool r = false;
		switch (aux) { // llvm FCMP_*: bits U L G E
		case 0: return 0;
		case 15: return 1;
		default:
			if (un) r = aux & 8;
			else if (x < y) r = aux & 4;
			else if (x > y) r = aux & 2;
			else r = aux & 1;
		}
		return r;
	}
	case K::FPExt: return fromd((double) tof(a));
	case K::FPTrunc: return fromf((float) tod(a));
	case K::FPToSI: {
		double x = inw == 32 ? (double) tof(a) : tod(a);
		// x86 cvttss2si behaviour for out-of-range: integer indefinite
		i64 r;
		if (!(x >= -9223372036854775808.0 && x < 9223372036854775808.0)) r = (i64) 0x8000000000000000ull;
		else r = (i64) x;
		if (w <= 32) {
			if (w == 32 && !(x > -2147483649.0 && x < 2147483648.0)) return 0x80000000u;
			// narrower: x86 converts to i32 then truncates
			if (!(x > -2147483649.0 && x < 2147483648.0)) return (0x80000000u) & (u64) maskw(w);
			return (u64)(i64)(int32_t) (i64) x & (u64) maskw(w);
		}
		return (u64) r & (u64) maskw(w);
	}
	case K::FPToUI: {
		double x = inw == 32 ? (double) tof(a) : tod(a);
		if (w <= 32) {
			i64 r;
			if (!(x >= -9223372036854775808.0 && x < 9223372036854775808.0)) r = (i64) 0x8000000000000000ull;
			else r = (i64) x;
			return (u64) r & (u64) maskw(w);
		}
		if (x >= 9223372036854775808.0) return (u64) ((i64) (x - 9223372036854775808.0)) ^ 0x8000000000000000ull;
		return (u64) (i64) x;
	}
	case K::SIToFP: { i64 v = (i64) sx(a, inw); return w == 32 ? fromf((float) v) : fromd((double) v); }
	case K::UIToFP: return w == 32 ? fromf((float) a) : fromd((double) a);
	case K::FRound: {
		double x = inw == 32 ? (double) tof(a) : tod(a);
		double r = aux == 0 ? nearbyint(x) : aux == 1 ? ceil(x) : aux == 2 ? floor(x) : aux == 3 ? trunc(x) : round(x);
		return w == 32 ? fromf((float) r) : fromd(r);
	}
	default: return 0;
	}
}
Expr* fp(K k, unsigned w, Expr* a, Expr* b, Expr* c, u32 aux) {
	if (a->isConst() && (!b || b->isConst()) && (!c || c->isConst()))
		return cst(fpFold(k, w, a->w, (u64) a->val, b ? (u64) b->val : 0, c ? (u64) c->val : 0, aux), w);
	if ((k == K::FAdd || k == K::FMul) && b->id < a->id) std::swap(a, b); // commutative up to NaN payloads
	return mk(k, w, a, b, c, aux);
}

unsigned trailingZeros(Expr* e) {
	switch (e->k) {
	case K::Const: {
		if (!e->val) return e->w;
		unsigned n = 0;
		while (!((e->val >> n) & 1)) ++n;
		return n;
	}
	case K::ZExt: case K::SExt: { unsigned n = trailingZeros(e->op[0]); return n >= e->op[0]->w ? e->w : n; }
	case K::Concat: { unsigned n = trailingZeros(e->op[1]); if (n < e->op[1]->w) return n; return n + trailingZeros(e->op[0]); }
	case K::Add: case K::Sub: case K::Or: case K::Xor: return std::min(trailingZeros(e->op[0]), trailingZeros(e->op[1]));
	case K::Mul: return std::min<unsigned>(e->w, trailingZeros(e->op[0]) + trailingZeros(e->op[1]));
	case K::And: return std::max(trailingZeros(e->op[0]), trailingZeros(e->op[1]));
	case K::Shl: if (e->op[1]->isConst()) return std::min<u64>(e->w, trailingZeros(e->op[0]) + (u64) e->op[1]->val); return trailingZeros(e->op[0]);
	case K::Ite: return std::min(trailingZeros(e->op[1]), trailingZeros(e->op[2]));
	default: return 0;
	}
}

Expr* extract(Expr* a, unsigned lo, unsigned w) {
	if (lo == 0 && w == a->w) return a;
	switch (a->k) {
	case K::Const: return cst(a->val >> lo, w);
	case K::Extract: return extract(a->op[0], a->aux + lo, w);
	case K::Concat: {
		unsigned lw = a->op[1]->w;
		if (lo + w <= lw) return extract(a->op[1], lo, w);
		if (lo >= lw) return extract(a->op[0], lo - lw, w);
		return concat(extract(a->op[0], 0, lo + w - lw), extract(a->op[1], lo, lw - lo));
	}
	case K::ZExt: {
		unsigned iw = a->op[0]->w;
		if (lo >= iw) return cst(0, w);
		if (lo + w <= iw) return extract(a->op[0], lo, w);
		return zext(extract(a->op[0], lo, iw - lo), w);
	}
	case K::SExt: {
		unsigned iw = a->op[0]->w;
		if (lo + w <= iw) return extract(a->op[0], lo, w);
		if (lo < iw) return sext(extract(a->op[0], lo, iw - lo), w);
		break;
	}
	case K::Ite:
		if (a->op[1]->isConst() || a->op[2]->isConst() )
			return ite(a->op[0], extract(a->op[1], lo, w), extract(a->op[2], lo, w));
		break;
	case K::And: case K::Or: case K::Xor:
		if (a->op[1]->isConst() || a->op[0]->k==K::Concat || a->op[1]->k==K::Concat || a->op[0]->k==K::ZExt || a->op[1]->k==K::ZExt)
			return bin(a->k, extract(a->op[0], lo, w), extract(a->op[1], lo, w));
		break;
	case K::Add: case K::Sub: case K::Mul:
		if (lo == 0 && w < a->w) return bin(a->k, extract(a->op[0], 0, w), extract(a->op[1], 0, w));
		break;
	default: break;
	}
	return mk(K::Extract, w, a, nullptr, nullptr, lo);
}
Expr* concat(Expr* hi, Expr* lo) {
	unsigned w = hi->w + lo->w;
	if (hi->isConst() && lo->isConst()) return cst((hi->val << lo->w) | lo->val, w);
	if (hi->isConst() && hi->val == 0) return zext(lo, w);
	// adjacent extracts of the same term
	auto baseOf = [](Expr* e, Expr*& b, unsigned& off) {
		if (e->k == K::Extract) { b = e->op[0]; off = e->aux; } else { b = e; off = 0; }
	};
	Expr *hb, *lb; unsigned ho, lo_;
	baseOf(hi, hb, ho); baseOf(lo, lb, lo_);
	if (hb == lb && ho == lo_ + lo->w && !(hi->k != K::Extract)) return extract(hb, lo_, w);
	// (concat hi (concat m l)) : merge hi with m
	if (lo->k == K::Concat) {
		Expr* m = lo->op[0];
		Expr* mb; unsigned mo; baseOf(m, mb, mo);
		if ((hb == mb && hi->k == K::Extract && ho == mo + m->w) || (hi->isConst() && m->isConst()))
			return concat(concat(hi, m), lo->op[1]);
	}
	// sign extension pattern is left to the solver
	return mk(K::Concat, w, hi, lo);
}
Expr* zext(Expr* a, unsigned w) {
	if (w == a->w) return a;
	if (a->isConst()) return cst(a->val, w);
	if (a->k == K::ZExt) return zext(a->op[0], w);
	if (a->k == K::Ite && a->op[1]->isConst() && a->op[2]->isConst()) return ite(a->op[0], zext(a->op[1], w), zext(a->op[2], w));
	return mk(K::ZExt, w, a);
}
Expr* sext(Expr* a, unsigned w) {
	if (w == a->w) return a;
	if (a->isConst()) return cst((u128) sx(a->val, a->w), w);
	if (a->k == K::ZExt) return zext(a->op[0], w);
	if (a->k == K::SExt) return sext(a->op[0], w);
	if (a->k == K::Ite && a->op[1]->isConst() && a->op[2]->isConst()) return ite(a->op[0], sext(a->op[1], w), sext(a->op[2], w));
	return mk(K::SExt, w, a);
}
Expr* lnot(Expr* a) {
	if (a->isConst()) return cst(!a->val, 1);
	if (a->k == K::Xor && a->op[1]->isConst() && a->op[1]->val == 1) return a->op[0];
	if (a->k == K::Ult) return cmp(K::Ule, a->op[1], a->op[0]);
	if (a->k == K::Ule) return cmp(K::Ult, a->op[1], a->op[0]);
	if (a->k == K::Slt) return cmp(K::Sle, a->op[1], a->op[0]);
	if (a->k == K::Sle) return cmp(K::Slt, a->op[1], a->op[0]);
	return mk(K::Xor, 1, a, cst(1, 1));
}
Expr* land(Expr* a, Expr* b) { return bin(K::And, a, b); }
Expr* lor(Expr* a, Expr* b) { return bin(K::Or, a, b); }

Expr* ite(Expr* c, Expr* a, Expr* b) {
	if (c->isConst()) return c->val ? a : b;
	if (a == b) return a;
	if (c->k == K::Xor && c->op[1]->isConst()) return ite(c->op[0], b, a); // c is a negation (w1)
	if (a->w == 1) {
		if (a->isConst() && b->isConst()) return a->val ? c : lnot(c);
		if (a->isConst()) return a->val ? lor(c, b) : land(lnot(c), b);
		if (b->isConst()) return b->val ? lor(lnot(c), a) : land(c, a);
	}
	if (a->k == K::Ite && a->op[0] == c) a = a->op[1];
	if (b->k == K::Ite && b->op[0] == c) b = b->op[2];
	if (a == b) return a;
	if (b->k == K::Ite && b->op[1] == a) return ite(lor(c, b->op[0]), a, b->op[2]);
	return mk(K::Ite, a->w, c, a, b);
}

static bool commutative(K k) {
	return k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor || k == K::Eq;
}
// max unsigned value bound
u128 umax(Expr* e, int d) {
	switch (e->k) {
	case K::Const: return e->val;
	case K::ZExt: return umax(e->op[0], d);
	case K::And: if (d) return std::min(umax(e->op[0], d - 1), umax(e->op[1], d - 1)); break;
	case K::Ite: if (d) return std::max(umax(e->op[1], d - 1), umax(e->op[2], d - 1)); break;
	case K::LShr: if (e->op[1]->isConst() && e->op[1]->val < e->w) return umax(e->op[0], d) >> (unsigned) e->op[1]->val; break;
	case K::URem: if (e->op[1]->isConst() && e->op[1]->val) return e->op[1]->val - 1; break;
	case K::UDiv: if (d && e->op[1]->isConst() && e->op[1]->val) return umax(e->op[0], d - 1) / e->op[1]->val; break;
	case K::Mul: if (d && e->w <= 64) { u128 a = umax(e->op[0], d - 1), b = umax(e->op[1], d - 1); u128 p = a * b; if (a < ((u128)1 << 63) && b < ((u128)1 << 63) && p <= maskw(e->w)) return p; } break;
	case K::Add: if (d && e->w <= 64) { u128 p = umax(e->op[0], d - 1) + umax(e->op[1], d - 1); if (p <= maskw(e->w)) return p; } break;
	default: break;
	}
	return maskw(e->w);
}

Expr* bin(K k, Expr* a, Expr* b) {
	unsigned w = a->w;
	if (a->isConst() && b->isConst()) {
		bool ok;
		u128 r = foldBin(k, a->val, b->val, w, ok);
		if (ok) return cst(r, w);
	}
	if (commutative(k) && a->isConst()) std::swap(a, b);
	else if (commutative(k) && !b->isConst() && a->id > b->id) std::swap(a, b);
	bool bc = b->isConst();
	u128 bv = bc ? b->val : 0;
	switch (k) {
	case K::Add:
		if (bc && bv == 0) return a;
		if (w == 1) return bin(K::Xor, a, b);
		if (bc && a->k == K::Add && a->op[1]->isConst()) return bin(K::Add, a->op[0], cst(a->op[1]->val + bv, w));
		if (bc && a->k == K::Ite && (a->op[1]->isConst() && a->op[2]->isConst())) return ite(a->op[0], bin(k, a->op[1], b), bin(k, a->op[2], b));
		if (!bc && a->k == K::Add && a->op[1]->isConst()) return bin(K::Add, bin(K::Add, a->op[0], b), a->op[1]);
		if (!bc && b->k == K::Add && b->op[1]->isConst()) return bin(K::Add, bin(K::Add, a, b->op[0]), b->op[1]);
		// a + (b - a) -> b
		if (b->k == K::Sub && b->op[1] == a) return b->op[0];
		if (a->k == K::Sub && a->op[1] == b) return a->op[0];
		break;
	case K::Sub:
		if (a == b) return cst(0, w);
		if (bc) return bin(K::Add, a, cst((u128) 0 - bv, w));
		if (a->k == K::Add && a->op[1]->isConst()) {
			if (a->op[0] == b) return a->op[1];
			if (b->k == K::Add && b->op[1]->isConst())
				return bin(K::Add, bin(K::Sub, a->op[0], b->op[0]), cst(a->op[1]->val - b->op[1]->val, w));
			return bin(K::Add, bin(K::Sub, a->op[0], b), a->op[1]);
		}
		if (b->k == K::Add && b->op[1]->isConst()) {
			return bin(K::Add, bin(K::Sub, a, b->op[0]), cst((u128) 0 - b->op[1]->val, w));
		}
		if (a->k == K::Add && a->op[0] == b) return a->op[1];
		if (a->k == K::Add && a->op[1] == b) return a->op[0];
		break;
	case K::Mul:
		if (bc && bv == 0) return b;
		if (bc && bv == 1) return a;
		if (bc && (bv & (bv - 1)) == 0) { unsigned n = 0; while (!((bv >> n) & 1)) ++n; return bin(K::Shl, a, cst(n, w)); }
		break;
	case K::UDiv:
		if (bc && bv == 1) return a;
		if (bc && bv && (bv & (bv - 1)) == 0) { unsigned n = 0; while (!((bv >> n) & 1)) ++n; return bin(K::LShr, a, cst(n, w)); }
		if (bc && bv && umax(a) < bv) return cst(0, w);
		if (bc && bv && a->k == K::ZExt && bv <= maskw(a->op[0]->w)) return zext(bin(K::UDiv, a->op[0], cst(bv, a->op[0]->w)), w);
		break;
	case K::URem:
		if (bc && bv && (bv & (bv - 1)) == 0) return bin(K::And, a, cst(bv - 1, w));
		if (bc && bv && umax(a) < bv) return a;
		if (bc && bv && a->k == K::ZExt && bv <= maskw(a->op[0]->w)) return zext(bin(K::URem, a->op[0], cst(bv, a->op[0]->w)), w);
		break;
	case K::And:
		if (a == b) return a;
		if (bc && bv == 0) return b;
		if (bc && bv == maskw(w)) return a;
		if (w == 1) {
			if ((a->k == K::Xor && a->op[1]->isConst() && a->op[0] == b) || (b->k == K::Xor && b->op[1]->isConst() && b->op[0] == a)) return cst(0, 1);
			if (b->k == K::And && (b->op[0] == a || b->op[1] == a)) return b;
			if (a->k == K::And && (a->op[0] == b || a->op[1] == b)) return a;
			break;
		}
		if (bc) {
			if (a->k == K::And && a->op[1]->isConst()) return bin(K::And, a->op[0], cst(a->op[1]->val & bv, w));
			// low mask
			unsigned n = 0;
			while (n < w && ((bv >> n) & 1)) ++n;
			if ((bv >> n) == 0 && n > 0 && n < w) return zext(extract(a, 0, n), w);
			// contiguous high part or middle part
			unsigned lo = 0;
			while (!((bv >> lo) & 1)) ++lo;
			unsigned hi = lo;
			while (hi < w && ((bv >> hi) & 1)) ++hi;
			if (lo > 0 && (hi >= w || (bv >> hi) == 0)) {
				Expr* r = concat(extract(a, lo, hi - lo), cst(0, lo));
				return zext(r, w);
			}
			if (a->k == K::Concat || a->k == K::ZExt) {
				// distribute
				unsigned lw = a->k == K::Concat ? a->op[1]->w : a->op[0]->w;
				Expr* l = a->k == K::Concat ? a->op[1] : a->op[0];
				Expr* h = a->k == K::Concat ? a->op[0] : nullptr;
				Expr* nl = bin(K::And, l, cst(bv, lw));
				if (!h) return zext(nl, w);
				return concat(bin(K::And, h, cst(bv >> lw, w - lw)), nl);
			}
			if (a->k == K::Ite && a->op[1]->isConst() && a->op[2]->isConst()) return ite(a->op[0], bin(k, a->op[1], b), bin(k, a->op[2], b));
		}
		break;
	case K::Or:
		if (a == b) return a;
		if (bc && bv == 0) return a;
		if (bc && bv == maskw(w)) return b;
		if (w == 1) {
			if ((a->k == K::Xor && a->op[1]->isConst() && a->op[0] == b) || (b->k == K::Xor && b->op[1]->isConst() && b->op[0] == a)) return cst(1, 1);
			break;
		}
		if (bc && a->k == K::Ite && a->op[1]->isConst() && a->op[2]->isConst()) return ite(a->op[0], bin(k, a->op[1], b), bin(k, a->op[2], b));
		// structural or of concat/zext pieces
		{
			auto splitLow = [&](Expr* e) -> unsigned { // boundary width of low part
				if (e->k == K::Concat) return e->op[1]->w;
				if (e->k == K::ZExt) return e->op[0]->w;
				return 0;
			};
			unsigned sa = splitLow(a), sb = splitLow(b);
			unsigned s = 0;
			if (sa && sb) s = std::min(sa, sb);
			else if (bc && sa) s = sa;
			if (s && s < w) {
				Expr *al = extract(a, 0, s), *bl = extract(b, 0, s), *ah = extract(a, s, w - s), *bh = extract(b, s, w - s);
				bool goodl = (al->isConst() || bl->isConst()), goodh = (ah->isConst() || bh->isConst());
				if ((goodl && goodh) || (al->isConst() && al->val == 0) || (bl->isConst() && bl->val == 0))
					return concat(bin(K::Or, ah, bh), bin(K::Or, al, bl));
			}
		}
		break;
	case K::Xor:
		if (a == b) return cst(0, w);
		if (bc && bv == 0) return a;
		if (w == 1 && bc) return lnot(a);
		if (bc && a->k == K::Xor && a->op[1]->isConst()) return bin(K::Xor, a->op[0], cst(a->op[1]->val ^ bv, w));
		break;
	case K::Shl:
		if (bc) {
			if (bv == 0) return a;
			if (bv >= w) return cst(0, w);
			return concat(extract(a, 0, w - (unsigned) bv), cst(0, (unsigned) bv));
		}
		break;
	case K::LShr:
		if (bc) {
			if (bv == 0) return a;
			if (bv >= w) return cst(0, w);
			return zext(extract(a, (unsigned) bv, w - (unsigned) bv), w);
		}
		break;
	case K::AShr:
		if (bc) {
			if (bv == 0) return a;
			unsigned s = bv >= w ? w - 1 : (unsigned) bv;
			return sext(extract(a, s, w - s), w);
		}
		break;
	default: break;
	}
	return mk(k, w, a, b);
}

Expr* cmp(K k, Expr* a, Expr* b) {
	unsigned w = a->w;
	if (a->isConst() && b->isConst()) {
		bool ok;
		return cst(foldBin(k, a->val, b->val, w, ok), 1);
	}
	switch (k) {
	case K::Eq: {
		if (a == b) return cst(1, 1);
		if (a->isConst()) std::swap(a, b);
		if (b->isConst()) {
			u128 v = b->val;
			if (w == 1) return v ? a : lnot(a);
			if (a->k == K::ZExt) {
				if (v > maskw(a->op[0]->w)) return cst(0, 1);
				return cmp(K::Eq, a->op[0], cst(v, a->op[0]->w));
			}
			if (a->k == K::SExt) {
				u128 t = v & maskw(a->op[0]->w);
				if (((u128) sx(t, a->op[0]->w) & maskw(w)) != v) return cst(0, 1);
				return cmp(K::Eq, a->op[0], cst(t, a->op[0]->w));
			}
			if (a->k == K::Concat) {
				unsigned lw = a->op[1]->w;
				Expr* l = cmp(K::Eq, a->op[1], cst(v, lw));
				if (l->isConst() && !l->val) return l;
				Expr* h = cmp(K::Eq, a->op[0], cst(v >> lw, w - lw));
				return land(h, l);
			}
			if (a->k == K::Add && a->op[1]->isConst()) return cmp(K::Eq, a->op[0], cst(v - a->op[1]->val, w));
			if (a->k == K::Xor && a->op[1]->isConst()) return cmp(K::Eq, a->op[0], cst(v ^ a->op[1]->val, w));
			if (a->k == K::Sub && v == 0) return cmp(K::Eq, a->op[0], a->op[1]);
			if (a->k == K::Ite) {
				Expr* t = nullptr; Expr* f = nullptr;
				if (a->op[1]->isConst()) t = cst(a->op[1]->val == v, 1);
				if (a->op[2]->isConst()) f = cst(a->op[2]->val == v, 1);
				if (t || f) {
					if (!t) t = cmp(K::Eq, a->op[1], b);
					if (!f) f = cmp(K::Eq, a->op[2], b);
					return ite(a->op[0], t, f);
				}
			}
			if (umax(a) < v) return cst(0, 1);
			if (a->k == K::Or && v == 0) return land(cmp(K::Eq, a->op[0], b), cmp(K::Eq, a->op[1], b));
		} else {
			if (a->k == K::Concat && b->k == K::Concat && a->op[1]->w == b->op[1]->w)
				return land(cmp(K::Eq, a->op[0], b->op[0]), cmp(K::Eq, a->op[1], b->op[1]));
			if (a->k == K::ZExt && b->k == K::ZExt && a->op[0]->w == b->op[0]->w) return cmp(K::Eq, a->op[0], b->op[0]);
			if (a->k == K::SExt && b->k == K::SExt && a->op[0]->w == b->op[0]->w) return cmp(K::Eq, a->op[0], b->op[0]);
			if (a->k == K::Add && b->k == K::Add && a->op[1] == b->op[1]) return cmp(K::Eq, a->op[0], b->op[0]);
			if (a->id > b->id) std::swap(a, b);
		}
		break;
	}
	case K::Ult:
		if (a == b) return cst(0, 1);
		if (b->isConst()) {
			if (b->val == 0) return cst(0, 1);
			if (b->val == 1) return cmp(K::Eq, a, cst(0, w));
			if (a->k == K::ZExt) {
				unsigned iw = a->op[0]->w;
				if (b->val > maskw(iw)) return cst(1, 1);
				return cmp(K::Ult, a->op[0], cst(b->val, iw));
			}
			if (umax(a) < b->val) return cst(1, 1);
		}
		if (a->isConst()) {
			if (a->val == maskw(w)) return cst(0, 1);
			if (b->k == K::ZExt) {
				unsigned iw = b->op[0]->w;
				if (a->val >= maskw(iw)) return cst(0, 1);
				return cmp(K::Ult, cst(a->val, iw), b->op[0]);
			}
			if (a->val == 0) return lnot(cmp(K::Eq, b, a));
			if (umax(b) <= a->val) return cst(0, 1);
		}
		if (a->k == K::ZExt && b->k == K::ZExt && a->op[0]->w == b->op[0]->w) return cmp(k, a->op[0], b->op[0]);
		break;
	case K::Ule:
		if (a == b) return cst(1, 1);
		if (b->isConst()) {
			if (b->val == maskw(w)) return cst(1, 1);
			return cmp(K::Ult, a, cst(b->val + 1, w));
		}
		if (a->isConst()) {
			if (a->val == 0) return cst(1, 1);
			return cmp(K::Ult, cst(a->val - 1, w), b);
		}
		if (a->k == K::ZExt && b->k == K::ZExt && a->op[0]->w == b->op[0]->w) return cmp(k, a->op[0], b->op[0]);
		break;
	case K::Slt:
	case K::Sle: {
		if (a == b) return cst(k == K::Sle, 1);
		// both non-negative (top bit known zero) -> unsigned
		auto nonneg = [](Expr* e) { return (e->k == K::ZExt) || (e->isConst() && !((e->val >> (e->w - 1)) & 1)); };
		auto neg = [](Expr* e) { return e->isConst() && ((e->val >> (e->w - 1)) & 1); };
		if (nonneg(a) && nonneg(b)) return cmp(k == K::Slt ? K::Ult : K::Ule, a, b);
		if (nonneg(a) && neg(b)) return cst(0, 1);
		if (neg(a) && nonneg(b)) return cst(1, 1);
		if (a->k == K::SExt && b->k == K::SExt && a->op[0]->w == b->op[0]->w) return cmp(k, a->op[0], b->op[0]);
		if (a->k == K::SExt && b->isConst()) {
			unsigned iw = a->op[0]->w;
			u128 t = b->val & maskw(iw);
			if (((u128) sx(t, iw) & maskw(w)) == b->val) return cmp(k, a->op[0], cst(t, iw));
			return cst(!((b->val >> (w - 1)) & 1), 1); // const out of range: positive -> true
		}
		if (b->k == K::SExt && a->isConst()) {
			unsigned iw = b->op[0]->w;
			u128 t = a->val & maskw(iw);
			if (((u128) sx(t, iw) & maskw(w)) == a->val) return cmp(k, cst(t, iw), b->op[0]);
			return cst((a->val >> (w - 1)) & 1, 1);
		}
		break;
	}
	default: break;
	}
	// comparison of an ite with constant arms against a constant
	if (b->isConst() && a->k == K::Ite && a->op[1]->isConst() && a->op[2]->isConst())
		return ite(a->op[0], cmp(k, a->op[1], b), cmp(k, a->op[2], b));
	if (a->isConst() && b->k == K::Ite && b->op[1]->isConst() && b->op[2]->isConst())
		return ite(b->op[0], cmp(k, a, b->op[1]), cmp(k, a, b->op[2]));
	return mk(k, 1, a, b);
}

void newEpoch() { ++curEpoch; }
u128 eval(Expr* root, Model const& m) {
	if (root->k == K::Const) return root->val;
	if (root->epoch == curEpoch) return root->memo;
	static std::vector<Expr*> st;
	size_t base = st.size();
	st.push_back(root);
	while (st.size() > base) {
		Expr* e = st.back();
		if (e->k == K::Const || e->epoch == curEpoch) { st.pop_back(); continue; }
		if (e->k == K::Sym) { e->memo = m.get(e->aux); e->epoch = curEpoch; st.pop_back(); continue; }
		auto get = [&](Expr* x, u128& v) { if (x->k == K::Const) { v = x->val; return true; } if (x->epoch == curEpoch) { v = x->memo; return true; } return false; };
		if (e->k == K::Ite) {
			u128 c;
			if (!get(e->op[0], c)) { st.push_back(e->op[0]); continue; }
			Expr* s = c ? e->op[1] : e->op[2];
			u128 v;
			if (!get(s, v)) { st.push_back(s); continue; }
			e->memo = v; e->epoch = curEpoch; st.pop_back();
			continue;
		}
		bool ready = true;
		u128 v[3] = {0, 0, 0};
		for (int i = 0; i < e->nops; ++i)
			if (!get(e->op[i], v[i])) { st.push_back(e->op[i]); ready = false; }
		if (!ready) continue;
		u128 r = 0;
		switch (e->k) {
		case K::Concat: r = (v[0] << e->op[1]->w) | v[1]; break;
		case K::Extract: r = (v[0] >> e->aux) & maskw(e->w); break;
		case K::ZExt: r = v[0]; break;
		case K::SExt: r = (u128) sx(v[0], e->op[0]->w) & maskw(e->w); break;
		default:
			if (e->k >= K::FAdd) r = fpFold(e->k, e->w, e->op[0]->w, (u64) v[0], (u64) v[1], (u64) v[2], e->aux);
			else { bool ok; r = foldBin(e->k, v[0], v[1], e->op[0]->w, ok); }
		}
		e->memo = r; e->epoch = curEpoch; st.pop_back();
	}
	return root->memo;
}
static std::vector<u32> const emptySyms;
std::vector<u32> const& syms(Expr* root) {
	if (root->k == K::Const) return emptySyms;
	if (root->syms) return *root->syms;
	std::vector<Expr*> st {root};
	while (!st.empty()) {
		Expr* e = st.back();
		if (e->k == K::Const || e->syms) { st.pop_back(); continue; }
		if (e->k == K::Sym) { e->syms = new std::vector<u32> {e->aux}; st.pop_back(); continue; }
		bool ready = true;
		for (int i = 0; i < e->nops; ++i)
			if (e->op[i]->k != K::Const && !e->op[i]->syms) { st.push_back(e->op[i]); ready = false; }
		if (!ready) continue;
		std::vector<u32> const* only = nullptr; int n = 0;
		for (int i = 0; i < e->nops; ++i) if (e->op[i]->k != K::Const) { if (only != e->op[i]->syms) { ++n; } only = e->op[i]->syms; }
		if (n <= 1) { e->syms = only ? only : &emptySyms; }
		else {
			std::vector<u32> acc;
			for (int i = 0; i < e->nops; ++i) if (e->op[i]->k != K::Const) acc.insert(acc.end(), e->op[i]->syms->begin(), e->op[i]->syms->end());
			std::sort(acc.begin(), acc.end());
			acc.erase(std::unique(acc.begin(), acc.end()), acc.end());
			// share when equal to a child
			std::vector<u32> const* sh = nullptr;
			for (int i = 0; i < e->nops; ++i) if (e->op[i]->k != K::Const && e->op[i]->syms->size() == acc.size()) sh = e->op[i]->syms;
			e->syms = sh ? sh : new std::vector<u32>(std::move(acc));
		}
		st.pop_back();
	}
	return *root->syms;
}
std::string str(Expr* e, int depth) {
	static const char* names[] = {"const", "sym", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "concat", "extract", "zext", "sext", "fadd", "fsub", "fmul", "fdiv", "frem", "fsqrt", "fma", "fcmp", "fpext", "fptrunc", "fptosi", "fptoui", "sitofp", "uitofp", "fround"};
	if (e->k == K::Const) { char b[64]; snprintf(b, 64, "0x%llx:%u", (unsigned long long) e->val, e->w); return b; }
	if (e->k == K::Sym) return "s" + std::to_string(e->aux);
	if (depth == 0) return "...";
	std::string s = "(" + std::string(names[(int) e->k]) + ":" + std::to_string(e->w);
	if (e->k == K::Extract) s += "@" + std::to_string(e->aux);
	for (int i = 0; i < e->nops; ++i) s += " " + str(e->op[i], depth - 1);
	return s + ")";
}
} // namespace ex
