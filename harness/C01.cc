// C01: every value written to a byte stream is read back bit for bit
//@bound one value of every kind with all bit patterns; sinks: growing vector, fixed buffer, FILE*, std::ostream, file path; sources: vector, span, owned vector, FILE*, std::istream, file path
//@bound value placed at every offset 0..8 of a 96-byte sink; raw blocks of 0,1,3,8,255,256,1500 bytes with arbitrary contents; sequences of 6 values
//@assume FILE*, streams and files follow the C/C++ library model (in-memory; writing never fails)
//@bound blocks and strings of 4095..70000 bytes and 1000 values in a row through every kind of sink and source
//@outside larger sinks, big-endian hosts
#include "zse.h"
#include <cstdio>
#include <filesystem>
#include <sstream>
#include <zenkit/Stream.hh>
using namespace zenkit;

// The little-endian encoding of a value, independent of the implementation.
static void le(uint32_t v, unsigned n, uint8_t* out) { for (unsigned i = 0; i < n; ++i) out[i] = (uint8_t) (v >> (8 * i)); }
static uint32_t fbits(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }

struct Vals {
	char c; int8_t b; uint8_t ub; int16_t s; uint16_t us; int32_t i; uint32_t u; float f; Vec2 v2; Vec3 v3; Mat3 m3; Mat4 m4;
};
static Vals make() {
	Vals v;
	v.c = sym<char>("c"); v.b = sym<int8_t>("b"); v.ub = sym<uint8_t>("ub"); v.s = sym<int16_t>("s"); v.us = sym<uint16_t>("us");
	v.i = sym<int32_t>("i"); v.u = sym<uint32_t>("u"); v.f = sym<float>("f");
	sym_bytes(&v.v2, sizeof v.v2, "v2"); sym_bytes(&v.v3, sizeof v.v3, "v3");
	sym_bytes(&v.m3, sizeof v.m3, "m3"); sym_bytes(&v.m4, sizeof v.m4, "m4");
	return v;
}
static constexpr unsigned SIZES[] = {1, 1, 1, 2, 2, 4, 4, 4, 8, 12, 36, 64};

static void put(Write& w, unsigned k, Vals const& v) {
	switch (k) {
	case 0: w.write_char(v.c); break;
	case 1: w.write_byte(v.b); break;
	case 2: w.write_ubyte(v.ub); break;
	case 3: w.write_short(v.s); break;
	case 4: w.write_ushort(v.us); break;
	case 5: w.write_int(v.i); break;
	case 6: w.write_uint(v.u); break;
	case 7: w.write_float(v.f); break;
	case 8: w.write_vec2(v.v2); break;
	case 9: w.write_vec3(v.v3); break;
	case 10: w.write_mat3(v.m3); break;
	case 11: w.write_mat4(v.m4); break;
	}
}
static void get(Read& r, unsigned k, Vals const& v) {
	switch (k) {
	case 0: CHECK(r.read_char() == v.c); break;
	case 1: CHECK(r.read_byte() == v.b); break;
	case 2: CHECK(r.read_ubyte() == v.ub); break;
	case 3: CHECK(r.read_short() == v.s); break;
	case 4: CHECK(r.read_ushort() == v.us); break;
	case 5: CHECK(r.read_int() == v.i); break;
	case 6: CHECK(r.read_uint() == v.u); break;
	case 7: CHECK(same(r.read_float(), v.f)); break;
	case 8: { auto x = r.read_vec2(); CHECK(same_bytes(&x, &v.v2, 8)); break; }
	case 9: { auto x = r.read_vec3(); CHECK(same_bytes(&x, &v.v3, 12)); break; }
	case 10: { auto x = r.read_mat3(); CHECK(same_bytes(&x, &v.m3, 36)); break; }
	case 11: { auto x = r.read_mat4(); CHECK(same_bytes(&x, &v.m4, 64)); break; }
	}
}
// expected bytes (matrices are stored row by row while the in-memory layout is column-major)
static void expect(unsigned k, Vals const& v, uint8_t* o) {
	switch (k) {
	case 0: le((uint8_t) v.c, 1, o); break;
	case 1: le((uint8_t) v.b, 1, o); break;
	case 2: le(v.ub, 1, o); break;
	case 3: le((uint16_t) v.s, 2, o); break;
	case 4: le(v.us, 2, o); break;
	case 5: le((uint32_t) v.i, 4, o); break;
	case 6: le(v.u, 4, o); break;
	case 7: le(fbits(v.f), 4, o); break;
	case 8: for (int i = 0; i < 2; ++i) le(fbits(v.v2[i]), 4, o + 4 * i); break;
	case 9: for (int i = 0; i < 3; ++i) le(fbits(v.v3[i]), 4, o + 4 * i); break;
	case 10: for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) le(fbits(v.m3.columns[c][r]), 4, o + 4 * (r * 3 + c)); break;
	case 11: for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) le(fbits(v.m4.columns[c][r]), 4, o + 4 * (r * 4 + c)); break;
	}
}

HARNESS(C01_fixed_buffer) {
	Vals v = make();
	uint8_t before[96];
	sym_bytes(before, 96, "before");
	for (unsigned k = 0; k < 12; ++k)
		for (unsigned off = 0; off <= 8; ++off) {
			std::byte buf[96];
			memcpy(buf, before, 96);
			auto w = Write::to(buf, sizeof buf);
			w->seek(off, Whence::BEG);
			put(*w, k, v);
			CHECK(w->tell() == off + SIZES[k]);
			uint8_t want[96];
			memcpy(want, before, 96);
			expect(k, v, want + off);
			CHECKM(same_bytes(buf, want, 96), "stored little-endian, nothing else changed");
			auto r = Read::from(buf, sizeof buf);
			r->seek(off, Whence::BEG);
			get(*r, k, v);
			CHECK(r->tell() == off + SIZES[k]);
		}
}
HARNESS(C01_growing_vector) {
	Vals v = make();
	uint8_t before[40];
	sym_bytes(before, 40, "before");
	for (unsigned k = 0; k < 12; ++k)
		for (unsigned off : {0u, 1u, 7u, 33u, 40u}) {
			std::vector<std::byte> buf((std::byte*) before, (std::byte*) before + 40);
			auto w = Write::to(&buf);
			w->seek(off, Whence::BEG);
			put(*w, k, v);
			unsigned n = off + SIZES[k];
			CHECK(w->tell() == n);
			CHECK(buf.size() == (n > 40 ? n : 40));
			uint8_t want[160] = {};
			memcpy(want, before, 40);
			expect(k, v, want + off);
			CHECK(same_bytes(buf.data(), want, buf.size()));
			auto r = Read::from(buf);
			r->seek(off, Whence::BEG);
			get(*r, k, v);
			CHECK(r->tell() == n);
		}
}
HARNESS(C01_sequence) {
	Vals v = make();
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	size_t pos = 0;
	for (unsigned k = 0; k < 12; ++k) { put(*w, k, v); pos += SIZES[k]; CHECK(w->tell() == pos); CHECK(buf.size() == pos); }
	for (unsigned k = 12; k-- > 0;) { put(*w, k, v); pos += SIZES[k]; CHECK(w->tell() == pos); }
	auto r = Read::from(&buf);
	pos = 0;
	for (unsigned k = 0; k < 12; ++k) { get(*r, k, v); pos += SIZES[k]; CHECK(r->tell() == pos); CHECK(!r->eof()); }
	for (unsigned k = 12; k-- > 0;) { CHECK(!r->eof()); get(*r, k, v); pos += SIZES[k]; CHECK(r->tell() == pos); }
	CHECK(r->eof());
}
HARNESS(C01_raw_blocks) {
	static uint8_t data[1500], out[1504];
	sym_bytes(data, sizeof data, "data");
	for (size_t n : {0, 1, 3, 8, 255, 256, 1023, 1024, 1025, 1500}) {
		std::vector<std::byte> buf;
		auto w = Write::to(&buf);
		CHECK(w->write(data, n) == n);
		CHECK(w->write(data, 3) == 3);
		CHECK(w->tell() == n + 3);
		CHECK(buf.size() == n + 3);
		auto r = Read::from(&buf);
		memset(out, 0x5a, sizeof out);
		CHECK(r->read(out, n) == n);
		CHECK(same_bytes(out, data, n));
		CHECK(out[n] == 0x5a);
		CHECK(r->tell() == n);
		CHECK(r->read(out, 8) == 3);
		CHECK(same_bytes(out, data, 3));
		CHECK(r->eof());
		CHECK(r->read(out, 4) == 0);
	}
	std::string s = sym_raw(17, "s");
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	w->write_string(s);
	w->write_string0(s);
	CHECK(w->tell() == 35);
	auto r = Read::from(&buf);
	CHECK(same(r->read_string(17), s));
	CHECK(same(r->read_string(17), s));
	CHECK(r->read_char() == 0);
}
HARNESS(C01_overwrite) {
	// rewriting part of an existing stream changes exactly those bytes
	uint8_t before[24];
	sym_bytes(before, 24, "before");
	auto v = sym<uint32_t>("v");
	for (unsigned off = 0; off <= 24; off += 3)
		for (int dyn = 0; dyn < 2; ++dyn) {
			std::vector<std::byte> buf((std::byte*) before, (std::byte*) before + 24);
			auto w = dyn ? Write::to(&buf) : Write::to(buf.data(), buf.size());
			w->seek(0, Whence::END);
			CHECK(w->tell() == 24);
			w->seek(off, Whence::BEG);
			w->write_uint(v);
			w->seek(-4, Whence::CUR);
			if (off <= 20) {
				CHECK(w->tell() == off);
				w->write_uint(~v);
				auto r = Read::from(&buf);
				r->seek(off, Whence::BEG);
				CHECK(r->read_uint() == ~v);
				CHECK(buf.size() == 24);
				for (unsigned i = 0; i < 24; ++i) if (i < off || i >= off + 4) CHECK((uint8_t) buf[i] == before[i]);
			}
		}
}
HARNESS(C01_file) {
	Vals v = make();
	FILE* f = tmpfile();
	{
		auto w = Write::to(f);
		size_t pos = 0;
		for (unsigned k = 0; k < 12; ++k) { put(*w, k, v); pos += SIZES[k]; CHECK(w->tell() == pos); }
		w->seek(2, Whence::BEG);
		w->write_ubyte(v.ub);
		w->seek(0, Whence::END);
		CHECK(w->tell() == pos);
	}
	rewind(f);
	auto r = Read::from(f);
	size_t pos = 0;
	for (unsigned k = 0; k < 12; ++k) { get(*r, k, v); pos += SIZES[k]; CHECK(r->tell() == pos); }
	r->seek(-64, Whence::END);
	get(*r, 11, v);
	r->seek(3, Whence::BEG);
	get(*r, 3, v);
	r->seek(2, Whence::CUR);
	CHECK(r->tell() == 7);
	get(*r, 5, v);
	fclose(f);
}
HARNESS(C01_iostream) {
	Vals v = make();
	std::stringstream ss;
	{
		auto w = Write::to((std::ostream*) &ss);
		size_t pos = 0;
		for (unsigned k = 0; k < 12; ++k) { put(*w, k, v); pos += SIZES[k]; CHECK(w->tell() == pos); }
		w->seek(2, Whence::BEG);
		w->write_ubyte(v.ub);
		w->seek(0, Whence::END);
		CHECK(w->tell() == pos);
	}
	auto r = Read::from((std::istream*) &ss);
	size_t pos = 0;
	for (unsigned k = 0; k < 12; ++k) { get(*r, k, v); pos += SIZES[k]; CHECK(r->tell() == pos); }
	r->seek(-64, Whence::END);
	get(*r, 11, v);
	r->seek(3, Whence::BEG);
	get(*r, 3, v);
	r->seek(2, Whence::CUR);
	CHECK(r->tell() == 7);
	get(*r, 5, v);
}
// large blocks, long strings and many values through every kind of sink and source
HARNESS(C01_large) {
	static size_t const LEN[] = {255, 256, 4095, 4096, 4097, 8192, 32768, 65535, 65536, 70000};
	size_t const n = LEN[choose(0, 9, "len")]; unsigned kind = choose(0, 4, "kind");
	std::string s(n, 'x'), sy = sym_raw(8, "s");
	for (size_t i = 0; i < n; ++i) s[i] = (char) (i * 31 + i / 251);
	for (size_t i = 0; i < 4; ++i) { s[i] = sy[i]; s[n - 1 - i] = sy[4 + i]; }
	std::vector<std::byte> buf(kind == 1 ? 2 * n + 4000 + 9 : 0); std::stringstream ss; FILE* f = nullptr;
	size_t end;
	{
		std::unique_ptr<Write> w;
		switch (kind) {
		case 1: w = Write::to(buf.data(), buf.size()); break;
		case 2: f = tmpfile(); w = Write::to(f); break;
		case 3: w = Write::to((std::ostream*) &ss); break;
		default: w = Write::to(&buf); break;
		}
		CHECK(w->write(s.data(), n) == n); CHECK(w->tell() == n);
		w->write_string0(s); CHECK(w->tell() == 2 * n + 1);
		for (uint32_t i = 0; i < 1000; ++i) w->write_uint(i * 65537u + (uint8_t) sy[0]);
		end = 2 * n + 1 + 4000; CHECK(w->tell() == end);
		w->seek((ssize_t) n, Whence::BEG); w->write_ubyte((uint8_t) sy[3]); CHECK(w->tell() == n + 1);
		w->seek(0, Whence::END);
		if (kind != 1) { CHECK(w->tell() == end); w->write_uint(0x11223344); w->write_uint(0x55667788); CHECK(w->tell() == end + 8); }
	}
	if (kind != 1 && kind < 2) CHECK(buf.size() == end + 8);
	std::unique_ptr<Read> r;
	switch (kind) {
	case 1: r = Read::from(buf.data(), buf.size()); break;
	case 2: rewind(f); r = Read::from(f); break;
	case 3: r = Read::from((std::istream*) &ss); break;
	case 4: r = Read::from(buf); break;
	default: r = Read::from(&buf); break;
	}
	std::string t(n, '\0');
	CHECK(r->read(t.data(), n) == n); CHECK(same(t, s)); CHECK(r->tell() == n);
	s[0] = sy[3];
	CHECK(same(r->read_string(n), s)); CHECK(r->read_char() == 0);
	for (uint32_t i = 0; i < 1000; ++i) CHECK(r->read_uint() == i * 65537u + (uint8_t) sy[0]);
	CHECK(r->tell() == end);
	if (kind != 1) { CHECK(r->read_uint() == 0x11223344u); CHECK(r->read_uint() == 0x55667788u); CHECK(r->tell() == end + 8); }
	r->seek((ssize_t) (end - 4000 + 4 * 501), Whence::BEG); CHECK(r->read_uint() == 501u * 65537u + (uint8_t) sy[0]);
	r->seek(-(ssize_t) n, Whence::CUR); CHECK(r->tell() == end - 4000 + 4 * 502 - n);
	if (f) fclose(f);
}
// operating system files given by their path
HARNESS(C01_path) {
	Vals v = make();
	std::filesystem::path p = std::filesystem::path(zse_scratch()) / "a.bin";
	unsigned before = choose(0, 2, "before"); // nothing, a shorter or a longer file
	if (before) { auto w = Write::to(p); for (unsigned i = 0; i < (before == 1 ? 3u : 2000u); ++i) w->write_ubyte(7); }
	size_t pos = 0;
	{
		auto w = Write::to(p);
		CHECK(w->tell() == 0);
		for (unsigned k = 0; k < 12; ++k) { put(*w, k, v); pos += SIZES[k]; CHECK(w->tell() == pos); }
		w->seek(2, Whence::BEG);
		w->write_ubyte(v.ub);
		w->seek(0, Whence::END);
		CHECK(w->tell() == pos);
		std::string big(5000, 'b'); big[4999] = (char) v.ub;
		w->write_string(big);
	}
	auto r = Read::from(p);
	r->seek(0, Whence::END); CHECK(r->tell() == pos + 5000); r->seek(0, Whence::BEG);
	size_t q = 0;
	for (unsigned k = 0; k < 12; ++k) { get(*r, k, v); q += SIZES[k]; CHECK(r->tell() == q); }
	r->seek(2, Whence::BEG); CHECK(r->read_ubyte() == v.ub);
	r->seek(-1, Whence::END); CHECK(r->read_ubyte() == v.ub); CHECK(r->eof());
	std::filesystem::path none = std::filesystem::path(zse_scratch()) / "none";
	CHECK(throws([&] { (void) Read::from(none); }));
}
