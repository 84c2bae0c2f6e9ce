#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

static double now() {
	return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct VecHash {
	size_t operator()(std::vector<u32> const& v) const {
		u64 h = 1469598103934665603ull;
		for (u32 x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; }
		return h;
	}
};

struct Solver::Impl {
	Z3_context c;
	Z3_solver sbv = nullptr, sfp = nullptr, ssimple = nullptr;
	// by expr id; [0] exact floating-point terms, [1] floating-point operations as uninterpreted functions
	std::vector<Z3_ast> cacheV[2], bcacheV[2];
	int mode = 0;
#define cache cacheV[mode]
#define bcache bcacheV[mode]
	std::unordered_map<u32, bool> hasFp;
	std::unordered_map<std::vector<u32>, std::pair<Res, std::vector<std::pair<u32, u8>>>, VecHash> qcache;
	std::deque<Model> recent;
	bool err = false;

	static void onErr(Z3_context c, Z3_error_code e) {
		fprintf(stderr, "zse: z3 error: %s\n", Z3_get_error_msg(c, e));
		abort();
	}
	Impl() {
		Z3_config cfg = Z3_mk_config();
		Z3_set_param_value(cfg, "model", "true");
		c = Z3_mk_context(cfg);
		Z3_del_config(cfg);
		Z3_set_error_handler(c, onErr);
		ssimple = Z3_mk_simple_solver(c);
		Z3_solver_inc_ref(c, ssimple);
		Z3_tactic t = nullptr;
		for (const char* n : {"simplify", "propagate-values", "solve-eqs", "simplify", "bit-blast", "sat"}) {
			Z3_tactic x = Z3_mk_tactic(c, n);
			Z3_tactic_inc_ref(c, x);
			if (!t) t = x;
			else { t = Z3_tactic_and_then(c, t, x); Z3_tactic_inc_ref(c, t); }
		}
		sbv = Z3_mk_solver_from_tactic(c, t);
		Z3_solver_inc_ref(c, sbv);
		sfp = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_FPBV"));
		Z3_solver_inc_ref(c, sfp);
	}
	Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(c, w); }
	Z3_sort fps(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(c) : Z3_mk_fpa_sort_64(c); }
	Z3_ast tofp(Z3_ast a, unsigned w) { return Z3_mk_fpa_to_fp_bv(c, a, fps(w)); }
	Z3_ast rne() { return Z3_mk_fpa_rne(c); }
	Z3_ast b2bv(Z3_ast b) {
		return Z3_mk_ite(c, b, Z3_mk_unsigned_int(c, 1, bvs(1)), Z3_mk_unsigned_int(c, 0, bvs(1)));
	}
	Z3_ast num(u128 v, unsigned w) {
		if (w <= 64) return Z3_mk_unsigned_int64(c, (u64) v, bvs(w));
		Z3_ast lo = Z3_mk_unsigned_int64(c, (u64) v, bvs(64));
		Z3_ast hi = Z3_mk_unsigned_int64(c, (u64)(v >> 64), bvs(w - 64));
		return Z3_mk_concat(c, hi, lo);
	}
	Z3_ast fnan(Z3_ast a, unsigned w) {
		u64 sign = 1ull << (w - 1), inf = w == 32 ? 0x7f800000ull : 0x7ff0000000000000ull;
		return Z3_mk_bvult(c, num(inf, w), Z3_mk_bvand(c, a, num(sign - 1, w)));
	}
	// order-preserving unsigned key of a number that is not a NaN; both zeroes have the same key
	Z3_ast fkey(Z3_ast a, unsigned w) {
		u64 sign = 1ull << (w - 1);
		Z3_ast neg = Z3_mk_bvult(c, num(sign, w), a); // -0 counts as positive
		Z3_ast zero = Z3_mk_eq(c, a, num(sign, w));
		return Z3_mk_ite(c, neg, Z3_mk_bvnot(c, a), Z3_mk_ite(c, zero, a, Z3_mk_bvor(c, a, num(sign, w))));
	}
	// facts about rounded sums with the same operand: adding a bigger constant never gives a smaller result
	void axioms(Z3_solver s, std::vector<Expr*> roots) {
		std::unordered_set<Expr*> seen;
		std::map<u32, std::vector<Expr*>> by;
		while (!roots.empty()) {
			Expr* e = roots.back(); roots.pop_back();
			if (e->k == K::Const || e->k == K::Sym || !seen.insert(e).second) continue;
			for (int i = 0; i < e->nops; ++i) roots.push_back(e->op[i]);
			if (e->k != K::FAdd) continue;
			Expr* k = e->op[0]->isConst() ? e->op[0] : e->op[1]->isConst() ? e->op[1] : nullptr;
			if (!k) continue;
			double v = cval(k);
			if (v == v && v - v == 0) by[(k == e->op[0] ? e->op[1] : e->op[0])->id].push_back(e);
		}
		for (auto& g : by) {
			auto kc = [&](Expr* e) { return e->op[0]->isConst() ? e->op[0] : e->op[1]; };
			std::sort(g.second.begin(), g.second.end(), [&](Expr* a, Expr* b) { return cval(kc(a)) < cval(kc(b)); });
			Expr* f = g.second[0];
			unsigned w = f->w;
			Expr* x = kc(f) == f->op[0] ? f->op[1] : f->op[0];
			Z3_ast xn = fnan(tr(x), w);
			for (size_t i = 0; i < g.second.size(); ++i) {
				Z3_ast a = tr(g.second[i]);
				Z3_solver_assert(c, s, Z3_mk_iff(c, xn, fnan(a, w)));
				double v = cval(kc(g.second[i]));
				Z3_ast l = fkey(v >= 0 ? tr(x) : a, w), h = fkey(v >= 0 ? a : tr(x), w);
				Z3_ast o[2] = {xn, Z3_mk_bvule(c, l, h)};
				Z3_solver_assert(c, s, Z3_mk_or(c, 2, o));
				if (i == 0) continue;
				Z3_ast o2[2] = {xn, Z3_mk_bvule(c, fkey(tr(g.second[i - 1]), w), fkey(a, w))};
				Z3_solver_assert(c, s, Z3_mk_or(c, 2, o2));
			}
		}
	}
	static double cval(Expr* k) {
		if (k->w == 32) { u32 y = (u32) k->val; float f; memcpy(&f, &y, 4); return f; }
		u64 y = (u64) k->val; double d; memcpy(&d, &y, 8); return d;
	}
	// bv (w1) term as Bool
	Z3_ast asBool(Expr* e) {
		// avoid bv1 round trip for comparisons and connectives
		Z3_ast r = boolOf(e);
		return r;
	}
	Z3_ast boolOf(Expr* root) {
		// iterative over connectives
		std::vector<Expr*> st {root};
		auto have = [&](Expr* e) { return e->id < bcache.size() && bcache[e->id]; };
		while (!st.empty()) {
			Expr* e = st.back();
			if (have(e)) { st.pop_back(); continue; }
			if (bcache.size() <= e->id) bcache.resize(std::max<size_t>(e->id + 1, bcache.size() * 2), nullptr);
			Z3_ast r = nullptr;
			auto need = [&](Expr* x) { if (!have(x)) { st.push_back(x); return true; } return false; };
			switch (e->k) {
			case K::Const: r = e->val ? Z3_mk_true(c) : Z3_mk_false(c); break;
			case K::And: case K::Or: {
				bool n = need(e->op[0]); n |= need(e->op[1]); if (n) continue;
				Z3_ast as[2] = {bcache[e->op[0]->id], bcache[e->op[1]->id]};
				r = e->k == K::And ? Z3_mk_and(c, 2, as) : Z3_mk_or(c, 2, as);
				break;
			}
			case K::Xor: {
				bool n = need(e->op[0]); n |= need(e->op[1]); if (n) continue;
				if (e->op[1]->isConst()) r = e->op[1]->val ? Z3_mk_not(c, bcache[e->op[0]->id]) : bcache[e->op[0]->id];
				else r = Z3_mk_xor(c, bcache[e->op[0]->id], bcache[e->op[1]->id]);
				break;
			}
			case K::Ite: {
				bool n = need(e->op[0]); n |= need(e->op[1]); n |= need(e->op[2]); if (n) continue;
				r = Z3_mk_ite(c, bcache[e->op[0]->id], bcache[e->op[1]->id], bcache[e->op[2]->id]);
				break;
			}
			case K::Eq:
				if (e->op[0]->w == 1) {
					bool n = need(e->op[0]); n |= need(e->op[1]); if (n) continue;
					r = Z3_mk_iff(c, bcache[e->op[0]->id], bcache[e->op[1]->id]);
				} else r = Z3_mk_eq(c, tr(e->op[0]), tr(e->op[1]));
				break;
			case K::Ult: r = Z3_mk_bvult(c, tr(e->op[0]), tr(e->op[1])); break;
			case K::Ule: r = Z3_mk_bvule(c, tr(e->op[0]), tr(e->op[1])); break;
			case K::Slt: r = Z3_mk_bvslt(c, tr(e->op[0]), tr(e->op[1])); break;
			case K::Sle: r = Z3_mk_bvsle(c, tr(e->op[0]), tr(e->op[1])); break;
			case K::FCmp: if (mode) {
				// exact, on the bits: only the arithmetic is abstracted
				Z3_ast a = tr(e->op[0]), b = tr(e->op[1]);
				unsigned p = e->aux, w = e->op[0]->w;
				Z3_ast nan[2] = {fnan(a, w), fnan(b, w)};
				Z3_ast un = Z3_mk_or(c, 2, nan), ord = Z3_mk_not(c, un), ka = fkey(a, w), kb = fkey(b, w);
				std::vector<Z3_ast> d;
				auto both = [&](Z3_ast x) { Z3_ast as[2] = {ord, x}; return Z3_mk_and(c, 2, as); };
				if (p & 8) d.push_back(un);
				if (p & 4) d.push_back(both(Z3_mk_bvult(c, ka, kb)));
				if (p & 2) d.push_back(both(Z3_mk_bvult(c, kb, ka)));
				if (p & 1) d.push_back(both(Z3_mk_eq(c, ka, kb)));
				r = d.empty() ? Z3_mk_false(c) : Z3_mk_or(c, d.size(), d.data());
				break;
			} else {
				Z3_ast a = tofp(tr(e->op[0]), e->op[0]->w), b = tofp(tr(e->op[1]), e->op[1]->w);
				unsigned p = e->aux;
				Z3_ast nans[2] = {Z3_mk_fpa_is_nan(c, a), Z3_mk_fpa_is_nan(c, b)};
				Z3_ast un = Z3_mk_or(c, 2, nans);
				std::vector<Z3_ast> d;
				if (p & 8) d.push_back(un);
				if (p & 4) d.push_back(Z3_mk_fpa_lt(c, a, b));
				if (p & 2) d.push_back(Z3_mk_fpa_gt(c, a, b));
				if (p & 1) d.push_back(Z3_mk_fpa_eq(c, a, b));
				r = Z3_mk_or(c, d.size(), d.data());
				break;
			}
			default: r = Z3_mk_eq(c, tr(e), Z3_mk_unsigned_int(c, 1, bvs(1))); break;
			}
			
			bcache[e->id] = r;
			st.pop_back();
		}
		return bcache[root->id];
	}
	Z3_ast tr(Expr* root) {
		auto have = [&](Expr* e) { return e->id < cache.size() && cache[e->id]; };
		if (have(root)) return cache[root->id];
		std::vector<Expr*> st {root};
		while (!st.empty()) {
			Expr* e = st.back();
			if (have(e)) { st.pop_back(); continue; }
			if (cache.size() <= e->id) cache.resize(std::max<size_t>(e->id + 1, cache.size() * 2), nullptr);
			Z3_ast r = nullptr;
			bool boolish = e->w == 1 && (e->k == K::Eq || e->k == K::Ult || e->k == K::Ule || e->k == K::Slt || e->k == K::Sle || e->k == K::FCmp || e->k == K::And || e->k == K::Or || e->k == K::Xor);
			if (boolish) {
				r = b2bv(boolOf(e));
			} else {
				bool ready = true;
				int start = e->k == K::Ite ? 1 : 0;
				if (e->k != K::Const && e->k != K::Sym)
					for (int i = start; i < e->nops; ++i) if (!have(e->op[i])) { st.push_back(e->op[i]); ready = false; }
				if (!ready) continue;
				auto o = [&](int i) { return cache[e->op[i]->id]; };
				if (mode && e->k >= K::FAdd && e->k != K::FCmp) {
					Z3_ast as[3]; Z3_sort so[3];
					for (int i = 0; i < e->nops; ++i) { as[i] = o(i); so[i] = bvs(e->op[i]->w); }
					char nm[48]; snprintf(nm, 48, "f%d_%u_%u_%u", (int) e->k, e->w, e->op[0]->w, e->aux);
					r = Z3_mk_app(c, Z3_mk_func_decl(c, Z3_mk_string_symbol(c, nm), e->nops, so, bvs(e->w)), e->nops, as);
					cache[e->id] = r;
					st.pop_back();
					continue;
				}
				switch (e->k) {
				case K::Const: r = num(e->val, e->w); break;
				case K::Sym: {
					char nm[32]; snprintf(nm, 32, "s%u", e->aux);
					r = Z3_mk_const(c, Z3_mk_string_symbol(c, nm), bvs(8));
					break;
				}
				case K::Add: r = Z3_mk_bvadd(c, o(0), o(1)); break;
				case K::Sub: r = Z3_mk_bvsub(c, o(0), o(1)); break;
				case K::Mul: r = Z3_mk_bvmul(c, o(0), o(1)); break;
				case K::UDiv: r = Z3_mk_bvudiv(c, o(0), o(1)); break;
				case K::SDiv: r = Z3_mk_bvsdiv(c, o(0), o(1)); break;
				case K::URem: r = Z3_mk_bvurem(c, o(0), o(1)); break;
				case K::SRem: r = Z3_mk_bvsrem(c, o(0), o(1)); break;
				case K::And: r = Z3_mk_bvand(c, o(0), o(1)); break;
				case K::Or: r = Z3_mk_bvor(c, o(0), o(1)); break;
				case K::Xor: r = Z3_mk_bvxor(c, o(0), o(1)); break;
				case K::Shl: r = Z3_mk_bvshl(c, o(0), o(1)); break;
				case K::LShr: r = Z3_mk_bvlshr(c, o(0), o(1)); break;
				case K::AShr: r = Z3_mk_bvashr(c, o(0), o(1)); break;
				case K::Ite: r = Z3_mk_ite(c, boolOf(e->op[0]), o(1), o(2)); break;
				case K::Concat: r = Z3_mk_concat(c, o(0), o(1)); break;
				case K::Extract: r = Z3_mk_extract(c, e->aux + e->w - 1, e->aux, o(0)); break;
				case K::ZExt: r = Z3_mk_zero_ext(c, e->w - e->op[0]->w, o(0)); break;
				case K::SExt: r = Z3_mk_sign_ext(c, e->w - e->op[0]->w, o(0)); break;
				case K::FAdd: r = fpv(Z3_mk_fpa_add(c, rne(), tofp(o(0), e->w), tofp(o(1), e->w))); break;
				case K::FSub: r = fpv(Z3_mk_fpa_sub(c, rne(), tofp(o(0), e->w), tofp(o(1), e->w))); break;
				case K::FMul: r = fpv(Z3_mk_fpa_mul(c, rne(), tofp(o(0), e->w), tofp(o(1), e->w))); break;
				case K::FDiv: r = fpv(Z3_mk_fpa_div(c, rne(), tofp(o(0), e->w), tofp(o(1), e->w))); break;
				case K::FRem: r = fpv(Z3_mk_fpa_rem(c, tofp(o(0), e->w), tofp(o(1), e->w))); break;
				case K::FSqrt: r = fpv(Z3_mk_fpa_sqrt(c, rne(), tofp(o(0), e->w))); break;
				case K::FMulAdd: r = fpv(Z3_mk_fpa_add(c, rne(), Z3_mk_fpa_mul(c, rne(), tofp(o(0), e->w), tofp(o(1), e->w)), tofp(o(2), e->w))); break;
				case K::FPExt: case K::FPTrunc: r = fpv(Z3_mk_fpa_to_fp_float(c, rne(), tofp(o(0), e->op[0]->w), fps(e->w))); break;
				case K::FPToSI: { // in-range semantics; x86 result for the rest
					unsigned iw = e->w <= 32 ? 32 : 64;
					Z3_ast f = tofp(o(0), e->op[0]->w);
					Z3_ast lo = Z3_mk_fpa_numeral_double(c, iw == 32 ? -2147483648.0 : -9223372036854775808.0, fps(64));
					Z3_ast hi = Z3_mk_fpa_numeral_double(c, iw == 32 ? 2147483648.0 : 9223372036854775808.0, fps(64));
					Z3_ast lo1 = Z3_mk_fpa_numeral_double(c, iw == 32 ? -2147483649.0 : -9223372036854775808.0, fps(64));
					Z3_ast d = e->op[0]->w == 64 ? f : Z3_mk_fpa_to_fp_float(c, rne(), f, fps(64));
					Z3_ast in[2] = {iw == 32 ? Z3_mk_fpa_gt(c, d, lo1) : Z3_mk_fpa_geq(c, d, lo), Z3_mk_fpa_lt(c, d, hi)};
					Z3_ast v = Z3_mk_ite(c, Z3_mk_and(c, 2, in), Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), f, iw), num((u128) 1 << (iw - 1), iw));
					r = e->w == iw ? v : Z3_mk_extract(c, e->w - 1, 0, v);
					break;
				}
				case K::FPToUI: {
					Z3_ast f = tofp(o(0), e->op[0]->w);
					if (e->w <= 32) {
						Z3_ast d = e->op[0]->w == 64 ? f : Z3_mk_fpa_to_fp_float(c, rne(), f, fps(64));
						Z3_ast lo = Z3_mk_fpa_numeral_double(c, -9223372036854775808.0, fps(64)), hi = Z3_mk_fpa_numeral_double(c, 9223372036854775808.0, fps(64));
						Z3_ast in[2] = {Z3_mk_fpa_geq(c, d, lo), Z3_mk_fpa_lt(c, d, hi)};
						Z3_ast v = Z3_mk_ite(c, Z3_mk_and(c, 2, in), Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), f, 64), num((u128) 1 << 63, 64));
						r = Z3_mk_extract(c, e->w - 1, 0, v);
					} else r = Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), f, e->w);
					break;
				}
				case K::SIToFP: r = fpv(Z3_mk_fpa_to_fp_signed(c, rne(), o(0), fps(e->w))); break;
				case K::UIToFP: r = fpv(Z3_mk_fpa_to_fp_unsigned(c, rne(), o(0), fps(e->w))); break;
				case K::FRound: {
					Z3_ast rm = e->aux == 0 ? rne() : e->aux == 1 ? Z3_mk_fpa_rtp(c) : e->aux == 2 ? Z3_mk_fpa_rtn(c) : e->aux == 3 ? Z3_mk_fpa_rtz(c) : Z3_mk_fpa_rna(c);
					r = fpv(Z3_mk_fpa_round_to_integral(c, rm, tofp(o(0), e->w)));
					break;
				}
				default: r = b2bv(boolOf(e)); break;
				}
			}
			
			cache[e->id] = r;
			st.pop_back();
		}
		return cache[root->id];
	}
	Z3_ast fpv(Z3_ast f) { return Z3_mk_fpa_to_ieee_bv(c, f); }
	bool usesFp(Expr* root) {
		auto it = hasFp.find(root->id);
		if (it != hasFp.end()) return it->second;
		std::unordered_set<Expr*> seen;
		std::vector<Expr*> st {root};
		bool r = false;
		while (!st.empty() && !r) {
			Expr* e = st.back(); st.pop_back();
			if (e->k == K::Const || e->k == K::Sym || !seen.insert(e).second) continue;
			if (e->k >= K::FAdd) { r = true; break; }
			for (int i = 0; i < e->nops; ++i) st.push_back(e->op[i]);
		}
		hasFp[root->id] = r;
		return r;
	}
};

Solver::Solver() : im(new Impl) {}

Res Solver::check(std::vector<Expr*> const& cs, Expr* q, Model const& base, Model& out) {
	if (q->isConst()) {
		if (!q->val) return Res::Unsat;
		out = base;
		return Res::Sat;
	}
	// slice
	std::vector<u32> const& qs = ex::syms(q);
	std::unordered_set<u32> symset(qs.begin(), qs.end());
	std::vector<char> used(cs.size(), 0);
	std::vector<Expr*> slice;
	bool changed = true;
	while (changed) {
		changed = false;
		for (size_t i = 0; i < cs.size(); ++i) {
			if (used[i]) continue;
			auto const& s = ex::syms(cs[i]);
			bool hit = false;
			for (u32 x : s) if (symset.count(x)) { hit = true; break; }
			if (!hit) continue;
			used[i] = 1;
			changed = true;
			slice.push_back(cs[i]);
			symset.insert(s.begin(), s.end());
		}
	}
	std::vector<u32> key;
	for (auto* e : slice) key.push_back(e->id);
	std::sort(key.begin(), key.end());
	key.erase(std::unique(key.begin(), key.end()), key.end());
	key.push_back(q->id);
	auto apply = [&](std::vector<std::pair<u32, u8>> const& vals) {
		out = base;
		for (auto& p : vals) {
			if (out.v.size() <= p.first) out.v.resize(p.first + 1, 0);
			out.v[p.first] = p.second;
		}
	};
	auto it = im->qcache.find(key);
	if (it != im->qcache.end()) {
		++stats.cacheHits;
		if (it->second.first == Res::Sat) apply(it->second.second);
		return it->second.first;
	}
	// try recent models
	for (auto& m : im->recent) {
		ex::newEpoch();
		if (!ex::eval(q, m)) continue;
		bool ok = true;
		for (auto* e : slice) if (!ex::eval(e, m)) { ok = false; break; }
		if (ok) {
			++stats.modelHits;
			std::vector<std::pair<u32, u8>> vals;
			for (u32 s : symset) vals.push_back({s, m.get(s)});
			apply(vals);
			ex::newEpoch();
			return Res::Sat;
		}
	}
	ex::newEpoch();
	bool fp = im->usesFp(q);
	for (auto* e : slice) if (!fp && im->usesFp(e)) fp = true;
	double t0 = now();
	std::vector<u32> sy(symset.begin(), symset.end());
	std::sort(sy.begin(), sy.end());
	std::vector<std::pair<u32, u8>> vals;
	auto valid = [&](std::vector<std::pair<u32, u8>> const& v) {
		apply(v);
		ex::newEpoch();
		bool ok = ex::eval(q, out);
		for (auto* e : slice) if (ok && !ex::eval(e, out)) ok = false;
		ex::newEpoch();
		return ok;
	};
	auto solve = [&](Z3_solver s, unsigned ms, std::vector<std::pair<u32, u8>>& v) {
		Z3_solver_reset(im->c, s);
		Z3_params pr = Z3_mk_params(im->c);
		Z3_params_inc_ref(im->c, pr);
		Z3_params_set_uint(im->c, pr, Z3_mk_string_symbol(im->c, "timeout"), ms);
		Z3_solver_set_params(im->c, s, pr);
		Z3_params_dec_ref(im->c, pr);
		for (auto* e : slice) Z3_solver_assert(im->c, s, im->boolOf(e));
		Z3_solver_assert(im->c, s, im->boolOf(q));
		if (im->mode) { auto all = slice; all.push_back(q); im->axioms(s, all); }
		if (char const* dump = getenv("ZSE_DUMP")) { if (FILE* f = fopen(dump, "w")) { fputs(Z3_solver_to_string(im->c, s), f); fclose(f); } }
		Z3_lbool r = Z3_solver_check(im->c, s);
		if (r == Z3_L_TRUE) {
			Z3_model m = Z3_solver_get_model(im->c, s);
			Z3_model_inc_ref(im->c, m);
			v.clear();
			for (u32 x : sy) {
				Z3_ast a;
				unsigned n = 0;
				if (Z3_model_eval(im->c, m, im->tr(ex::sym(x)), true, &a) && Z3_get_numeral_uint(im->c, a, &n)) v.push_back({x, (u8) n});
			}
			Z3_model_dec_ref(im->c, m);
		}
		return r;
	};
	Res res = Res::Unknown;
	if (!fp) {
		// a quick attempt with the incremental core, then full bit-blasting
		Z3_lbool r = solve(im->ssimple, std::min(timeoutMs, 400u), vals);
		if (r == Z3_L_UNDEF) r = solve(im->sbv, timeoutMs, vals);
		res = r == Z3_L_TRUE ? Res::Sat : r == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
		if (res == Res::Sat && !valid(vals)) {
			fprintf(stderr, "zse: model validation failed for %s\n", ex::str(q, 6).c_str());
			res = Res::Unknown;
		}
	} else {
		// 1. operations as uninterpreted functions: unsatisfiability carries over, models are validated
		im->mode = 1;
		Z3_lbool r = solve(im->ssimple, timeoutMs, vals);
		im->mode = 0;
		if (r == Z3_L_FALSE) res = Res::Unsat;
		else if (r == Z3_L_TRUE && valid(vals)) res = Res::Sat;
		else {
			// 2. models near the abstract one and the base model, validated by evaluation
			u64 seed = 0x9E3779B97F4A7C15ull;
			auto rnd = [&] { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed; };
			std::vector<std::pair<u32, u8>> v0 = vals;
			for (int i = 0; i < 400 && res == Res::Unknown; ++i) {
				std::vector<std::pair<u32, u8>> v;
				for (u32 x : sy) v.push_back({x, base.get(x)});
				if ((i & 1) && v0.size() == v.size()) v = v0;
				int kind = (i >> 1) % 4;
				for (auto& p : v) {
					u64 z = rnd();
					if (kind == 0) p.second = (u8) z;
					else if (kind == 1) { if (z % 4 == 0) p.second = (u8) (z >> 8); }
					else if (kind == 2) { if (z % 16 == 0) p.second = (u8) (z >> 8); }
					else if (z % 8 == 0) { static u8 const t[] = {0, 0xff, 0x7f, 0x80, 1, 0x3f, 0x40, 0xc0}; p.second = t[(z >> 8) % 8]; }
				}
				if (valid(v)) { vals = v; res = Res::Sat; }
			}
			// 3. exact floating-point semantics, in a child that can be ended
			if (res == Res::Unknown) {
				int fd[2];
				if (pipe(fd) == 0) {
					fflush(stdout); fflush(stderr);
					pid_t pid = fork();
					if (pid == 0) {
						struct rlimit rl {6ull << 30, 6ull << 30};
						setrlimit(RLIMIT_DATA, &rl);
						alarm(timeoutMs / 1000 + 2);
						Z3_lbool rr = solve(im->sfp, timeoutMs, vals);
						std::vector<u8> msg {(u8) (rr == Z3_L_TRUE ? 1 : rr == Z3_L_FALSE ? 2 : 0)};
						if (rr == Z3_L_TRUE) for (auto& p : vals) for (u32 z : {p.first, (u32) p.second}) for (int b = 0; b < 4; ++b) msg.push_back((u8) (z >> (8 * b)));
						size_t off = 0;
						while (off < msg.size()) { ssize_t n = write(fd[1], msg.data() + off, msg.size() - off); if (n <= 0) break; off += n; }
						_exit(0);
					}
					close(fd[1]);
					std::vector<u8> msg;
					u8 tmp[4096];
					ssize_t n;
					while ((n = ::read(fd[0], tmp, sizeof tmp)) > 0) msg.insert(msg.end(), tmp, tmp + n);
					close(fd[0]);
					if (pid > 0) { int st; waitpid(pid, &st, 0); }
					if (!msg.empty() && msg[0] == 2) res = Res::Unsat;
					else if (!msg.empty() && msg[0] == 1) {
						vals.clear();
						auto rd = [&](size_t o) { return (u32) msg[o] | (u32) msg[o + 1] << 8 | (u32) msg[o + 2] << 16 | (u32) msg[o + 3] << 24; };
						for (size_t o = 1; o + 8 <= msg.size(); o += 8) vals.push_back({rd(o), (u8) rd(o + 4)});
						if (valid(vals)) res = Res::Sat;
						else fprintf(stderr, "zse: model validation failed for %s (fp)\n", ex::str(q, 6).c_str());
					}
				}
			}
		}
	}
	++stats.queries;
	if (res == Res::Sat) {
		apply(vals);
		im->recent.push_front(out);
		if (im->recent.size() > 12) im->recent.pop_back();
	}
	double dt = now() - t0;
	stats.time += dt;
	stats.maxTime = std::max(stats.maxTime, dt);
	if (dt > (getenv("ZSE_SLOW") ? atof(getenv("ZSE_SLOW")) : 5) && getenv("ZSE_DEBUG")) fprintf(stderr, "zse: slow query %.1fs res=%d slice=%zu q=%s\n", dt, (int) res, slice.size(), ex::str(q, 6).c_str());
	if (res == Res::Sat) ++stats.sat; else if (res == Res::Unsat) ++stats.unsat; else ++stats.unknown;
	if (res != Res::Unknown) im->qcache[key] = {res, vals};
	return res;
}
