// Reference encoder of compiled Daedalus scripts.
#pragma once
#include "zse.h"
#include <zenkit/DaedalusScript.hh>
#include <zenkit/DaedalusVm.hh>
#include <zenkit/Stream.hh>
using namespace zenkit;
enum : uint32_t { TVOID, TFLOAT, TINT, TSTRING, TCLASS, TFUNC, TPROTO, TINST };
enum : uint32_t { FCONST = 1, FRETURN = 2, FMEMBER = 4, FEXTERNAL = 8, FMERGED = 16 };
inline void p8(std::string& o, uint32_t v) { o.push_back((char) v); }
inline void p32(std::string& o, uint32_t v) { for (int i = 0; i < 4; ++i) o.push_back((char) (v >> (8 * i))); }
template <typename T> void praw(std::string& o, T v) { o.append((char const*) &v, sizeof v); }
struct DSym {
	std::string name;
	uint32_t type = TINT, flags = 0, count = 1, vary = 0;
	std::string value; // encoded value
	int32_t parent = -1;
	uint32_t loc[5] = {0, 0, 0, 0, 0};
	bool named = true;
	uint32_t spare = 0; // unused property bits
};
struct Dat {
	std::vector<DSym> syms;
	std::string text;
	uint32_t add(DSym s) { syms.push_back(std::move(s)); return (uint32_t) syms.size() - 1; }
	// symbols of the usual kinds
	uint32_t ivar(std::string n, std::vector<int32_t> v = {0}, uint32_t flags = 0) {
		DSym s {std::move(n), TINT, flags, (uint32_t) v.size()};
		for (auto x : v) p32(s.value, (uint32_t) x);
		return add(std::move(s));
	}
	uint32_t fvar(std::string n, std::vector<float> v = {0.f}, uint32_t flags = 0) {
		DSym s {std::move(n), TFLOAT, flags, (uint32_t) v.size()};
		for (auto x : v) praw(s.value, x);
		return add(std::move(s));
	}
	uint32_t svar(std::string n, std::vector<std::string> v = {""}, uint32_t flags = 0) {
		DSym s {std::move(n), TSTRING, flags, (uint32_t) v.size()};
		for (auto& x : v) s.value += x, s.value += '\n';
		return add(std::move(s));
	}
	uint32_t cls(std::string n, uint32_t members, uint32_t size = 0) {
		DSym s {std::move(n), TCLASS, 0, members, size};
		p32(s.value, 0);
		return add(std::move(s));
	}
	uint32_t member(std::string n, uint32_t type, uint32_t cls, uint32_t count = 1, uint32_t off = 0, uint32_t flags = 0) {
		DSym s {std::move(n), type, FMEMBER | flags, count, off};
		s.parent = (int32_t) cls;
		return add(std::move(s));
	}
	// a function (constant) or a function variable
	uint32_t func(std::string n, uint32_t params, uint32_t address, uint32_t rtype = TVOID, uint32_t flags = FCONST) {
		DSym s {std::move(n), TFUNC, flags | (rtype != TVOID ? FRETURN : 0u), params, rtype};
		p32(s.value, address);
		return add(std::move(s));
	}
	uint32_t inst(std::string n, uint32_t parent = (uint32_t) -1, uint32_t address = (uint32_t) -1, uint32_t flags = 0) {
		DSym s {std::move(n), TINST, flags, 0};
		p32(s.value, address);
		s.parent = (int32_t) parent;
		return add(std::move(s));
	}
	uint32_t proto(std::string n, uint32_t parent, uint32_t address) {
		DSym s {std::move(n), TPROTO, FCONST, 0};
		p32(s.value, address);
		s.parent = (int32_t) parent;
		return add(std::move(s));
	}
	// code
	uint32_t here() const { return (uint32_t) text.size(); }
	Dat& op(DaedalusOpcode o) { p8(text, (uint32_t) o); return *this; }
	Dat& op(DaedalusOpcode o, uint32_t v) { p8(text, (uint32_t) o); p32(text, v); return *this; }
	Dat& opvv(uint32_t s, uint32_t i) { p8(text, (uint32_t) DaedalusOpcode::PUSHVV); p32(text, s); p8(text, i); return *this; }
	Dat& pushi(int32_t v) { return op(DaedalusOpcode::PUSHI, (uint32_t) v); }
	Dat& pushv(uint32_t s) { return op(DaedalusOpcode::PUSHV, s); }
	Dat& ret() { return op(DaedalusOpcode::RSR); }
	void at(uint32_t pos, uint32_t v) { for (int i = 0; i < 4; ++i) text[pos + i] = (char) (v >> (8 * i)); }

	static void enc(std::string& o, DSym const& s) {
		p32(o, s.named ? 1 : 0);
		if (s.named) { o += s.name; o += '\n'; }
		p32(o, s.vary);
		p32(o, (s.count & 0xFFF) | (s.type << 12) | (s.flags << 16) | (s.spare << 22));
		for (auto l : s.loc) p32(o, l);
		if (!(s.flags & FMEMBER)) o += s.value;
		p32(o, (uint32_t) s.parent);
	}
	std::string bytes() const {
		std::string o;
		p8(o, 50);
		p32(o, (uint32_t) syms.size());
		for (size_t i = 0; i < syms.size(); ++i) p32(o, (uint32_t) i);
		for (auto& s : syms) enc(o, s);
		p32(o, (uint32_t) text.size());
		o += text;
		return o;
	}
	DaedalusScript script() const {
		std::string b = bytes();
		std::vector<std::byte> v(b.size());
		if (!b.empty()) memcpy(v.data(), b.data(), b.size());
		auto r = Read::from(std::move(v));
		DaedalusScript s;
		s.load(r.get());
		return s;
	}
};
