// C06: ASCII archives return entries as written
//@bound one entry of every kind followed by an integer entry, at nesting depth 1 and 2: all 32-bit integers and enums, all bytes, words, bools and colours; strings of 0..4 arbitrary bytes other than NUL/CR/LF, and strings and raw blocks of 63..4100 bytes with arbitrary edge bytes; nesting up to depth 20; raw blocks of 0..4 arbitrary bytes; matrices with any one of the nine elements with two neighbouring arbitrary bytes
//@bound floats (scalar, vectors, boxes): 16 chosen values (the largest finite ones included), exactly representable with six decimals, in every position
//@bound every pair (stored kind, asked kind) for the error behaviour
//@outside floats that need more than six decimals (the format stores %f and is lossy there)
#include "arc.h"

static float const F[] = {0.0f, 1.0f, -1.0f, 0.5f, -0.25f, 1024.0f, -65536.0f, 16777216.0f, 0.015625f, -0.015625f, 3.75f, 100000.0f, -7.0f, 12345.5f, 3.40282346638528859812e+38f, -3.40282346638528859812e+38f};
static float pick(char const* n) { return F[choose(0, 15, n)]; }

// floats come from the table, matrices are raw bytes and stay arbitrary
static void make_ascii(Val& v, Kind k, unsigned len) {
	v.k = k;
	switch (k) {
	case FLT: v.f = pick("f"); break;
	case VEC3: { v.v3.x = pick("x"); unsigned big = choose(0, 1, "big"); v.v3.y = F[big ? 15 : 3]; v.v3.z = F[big ? 15 : 11]; break; }
	case VEC2: case RAWF: v.v2 = Vec2 {pick("x"), F[4]}; break;
	case BBOX: {
		unsigned i = choose(0, 15, "rot");
		float t[6];
		for (int j = 0; j < 6; ++j) t[j] = F[(i + j) % 16];
		v.bb.min.x = t[0]; v.bb.min.y = t[1]; v.bb.min.z = t[2]; v.bb.max.x = t[3]; v.bb.max.y = t[4]; v.bb.max.z = t[5];
		break;
	}
	case STR: v.s = sym_line(len, "str"); break;
	case MAT3: {
		unsigned at = choose(0, 8, "at");
		for (unsigned i = 0; i < 9; ++i) {
			uint32_t bits = 0x0A1F0300u + i * 0x10203u; // digits and letters, with and without leading zero
			memcpy(&v.m[i / 3][i % 3], &bits, 4);
		}
		uint8_t b[2];
		sym_bytes(b, 2, "bits");
		memcpy((uint8_t*) &v.m[at / 3][at % 3] + 2 * choose(0, 1, "half"), b, 2);
		break;
	}
	default: make(v, k, ArchiveFormat::ASCII, len);
	}
}
static void one(Kind k, unsigned len) {
	Val v, tail;
	make_ascii(v, k, len);
	tail.k = INT;
	tail.i = 4711;
	unsigned deep = choose(0, 1, "deep");
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	auto a = WriteArchive::to(w.get(), ArchiveFormat::ASCII);
	if (deep) a->write_object_begin("outer", "zCOuter", 3);
	uint32_t idx = a->write_object_begin("obj", "zCTest:zCBase", 51969);
	put(*a, "name", v);
	put(*a, "tail", tail);
	a->write_object_end();
	if (deep) a->write_object_end();
	a->write_header();
	auto rd = Read::from(&buf);
	auto r = ReadArchive::from(rd.get());
	CHECK(r->get_header().format == ArchiveFormat::ASCII);
	ArchiveObject obj;
	if (deep) CHECK(r->read_object_begin(obj));
	CHECK(r->read_object_begin(obj));
	CHECK(obj.object_name == "obj");
	CHECK(obj.class_name == "zCTest:zCBase");
	CHECK(obj.version == 51969);
	CHECK(obj.index == idx);
	get(*r, v);
	CHECK(!r->read_object_end());
	get(*r, tail);
	CHECK(r->read_object_end());
	if (deep) CHECK(r->read_object_end());
}
HARNESS(C06_string) { one(STR, choose(0, 4, "len")); }
HARNESS(C06_int) { one(INT, 0); }
HARNESS(C06_float) { one(FLT, 0); }
HARNESS(C06_byte) { one(BYTE, 0); }
HARNESS(C06_word) { one(WORD, 0); }
HARNESS(C06_enum) { one(ENUM, 0); }
HARNESS(C06_bool) { one(BOOL, 0); }
HARNESS(C06_color) { one(COLOR, 0); }
HARNESS(C06_vec3) { one(VEC3, 0); }
HARNESS(C06_vec2) { one(VEC2, 0); }
HARNESS(C06_bbox) { one(BBOX, 0); }
HARNESS(C06_mat3) { one(MAT3, 0); }
HARNESS(C06_raw_0) { one(RAW, 0); }
HARNESS(C06_raw_1) { one(RAW, 1); }
HARNESS(C06_raw_2) { one(RAWP, 2); }
HARNESS(C06_raw_3) { one(RAW, 3); }
HARNESS(C06_rawfloat) { one(RAWF, 0); }
HARNESS(C06_mismatch) {
	unsigned k = choose(0, KINDS - 1, "kind"), q = choose(0, KINDS - 1, "ask");
	auto cls = [](unsigned x) {
		return x == VEC2 || x == BBOX || x == RAWF ? 100u : x == RAW || x == RAWP || x == MAT3 ? 101u : x == BYTE || x == WORD ? (unsigned) INT : x;
	};
	ASSUME(cls(k) != cls(q));
	Val v;
	v.s = "abcd"; v.i = 5; v.f = 1; v.b = 3; v.w = 4; v.e = 2; v.t = true; v.c = {1, 2, 3, 4}; v.raw.resize(4); v.k = (Kind) k;
	v.v3.x = v.v3.y = v.v3.z = 1; v.v2 = Vec2 {1, 2}; v.bb.min = v.bb.max = v.v3; v.m = Mat3 {};
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	auto a = WriteArchive::to(w.get(), ArchiveFormat::ASCII);
	a->write_object_begin("obj", "zCTest", 0);
	put(*a, "name", v);
	a->write_object_end();
	a->write_header();
	auto rd = Read::from(&buf);
	auto r = ReadArchive::from(rd.get());
	ArchiveObject obj;
	CHECK(r->read_object_begin(obj));
	CHECK(throws([&] { ask(*r, (int) q); }));
}
// lengths around the sizes buffers usually have
HARNESS(C06_long) {
	static unsigned const L[] = {63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4100};
	unsigned n = L[choose(0, 12, "len")], what = choose(0, 1, "what");
	Val v, tail;
	tail.k = INT; tail.i = -4711;
	v.k = what ? RAW : STR;
	if (what) { v.raw.assign(n, std::byte {0x5a}); v.raw[n / 2] = sym<std::byte>("mid"); v.raw[n - 1] = sym<std::byte>("last"); }
	else { v.s.assign(n, 'q'); std::string e = sym_line(2, "edge"); v.s[0] = e[0]; v.s[n - 1] = e[1]; }
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	auto a = WriteArchive::to(w.get(), ArchiveFormat::ASCII);
	a->write_object_begin("obj", "c", 1);
	put(*a, "entry", v); put(*a, "tail", tail);
	a->write_object_end();
	a->write_header();
	auto rd = Read::from(&buf);
	auto r = ReadArchive::from(rd.get());
	ArchiveObject obj;
	CHECK(r->read_object_begin(obj));
	get(*r, v); get(*r, tail);
	CHECK(r->read_object_end());
}
// names of entries are not limited, and deep nesting is only indentation
HARNESS(C06_deep) {
	unsigned depth = choose(1, 20, "depth"), len = choose(0, 1, "long") ? 300 : 1;
	std::string nm = std::string(len, 'n') + sym_word(1, "name");
	ASSUME((nm[len] != '=') & (nm[len] != '[') & (nm[len] != ']'));
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	auto a = WriteArchive::to(w.get(), ArchiveFormat::ASCII);
	for (unsigned d = 0; d < depth; ++d) { a->write_object_begin("o", "c", (uint16_t) d); a->write_int(nm, (int) d); }
	for (unsigned d = 0; d < depth; ++d) { a->write_string(nm, "after"); a->write_object_end(); }
	a->write_header();
	auto rd = Read::from(&buf);
	auto r = ReadArchive::from(rd.get());
	ArchiveObject obj;
	for (unsigned d = 0; d < depth; ++d) { CHECK(r->read_object_begin(obj)); CHECK(obj.version == d); CHECK(r->read_int() == (int) d); }
	for (unsigned d = 0; d < depth; ++d) { CHECK(r->read_string() == "after"); CHECK(r->read_object_end()); }
}
