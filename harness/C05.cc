// C05: binary and key-safe binary archives return entries as written
//@bound objects with every ordered pair of the 14 entry kinds (all values of each kind arbitrary), both formats; strings of 0..3 arbitrary bytes other than NUL/CR/LF (key-safe: any byte), 255..260 and 65535-byte strings (key-safe) with arbitrary edge bytes; raw blocks of 0..4 and 300 bytes; entry names of 1..2 arbitrary bytes
//@bound nesting up to depth 20; up to 301 differently named entries and names of 300 characters in the key table
//@bound BINARY object sizes 12..300 in steps of one (string contents pad the object)
//@assume enums below 256 in the BINARY format (its storage width)
//@outside raw blocks and strings above 65535 bytes (not representable in the key-safe format)
#include "arc.h"

static void pair(ArchiveFormat f, Kind ka, Kind kb) {
	Val va, vb, tail;
	make(va, ka, f, choose(0, 3, "lenA"));
	make(vb, kb, f, ka == kb ? 2 : choose(0, 1, "lenB"));
	make(tail, INT, f, 0);
	std::string na = sym_word(1 + (kb & 1), "nameA"), nb = sym_word(1, "nameB");
	uint16_t ver = sym<uint16_t>("ver");
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	auto a = WriteArchive::to(w.get(), f);
	uint32_t idx = a->write_object_begin("obj", "zCTest:zCBase", f == ArchiveFormat::BINARY ? ver : 12345);
	put(*a, na, va);
	put(*a, nb, vb);
	a->write_object_end();
	a->write_object_begin("end", "zCEnd", 0);
	put(*a, "t", tail);
	a->write_object_end();
	a->write_header();
	auto rd = Read::from(&buf);
	auto r = ReadArchive::from(rd.get());
	ArchiveObject obj;
	CHECK(r->read_object_begin(obj));
	CHECK(obj.object_name == "obj");
	CHECK(obj.class_name == "zCTest:zCBase");
	CHECK(same(obj.version, f == ArchiveFormat::BINARY ? ver : (uint16_t) 12345));
	CHECK(obj.index == idx);
	get(*r, va);
	CHECK(!r->read_object_end());
	get(*r, vb);
	finish(*r, tail);
}
template <int F, int LO, int HI> static void pairs() {
	unsigned a = choose(LO, HI, "kindA"), b = choose(0, KINDS - 1, "kindB");
	ASSUME(b != RAWP || a < 3);
	// an empty second BINARY entry makes "not at the end yet" meaningless
	if (F == 0 && (b == RAW || b == RAWP)) return;
	pair(FMT[F], (Kind) a, (Kind) b);
}
HARNESS(C05_binary_pairs_a) { pairs<0, 0, 4>(); }
HARNESS(C05_binary_pairs_b) { pairs<0, 5, 9>(); }
HARNESS(C05_binary_pairs_c) { pairs<0, 10, 14>(); }
HARNESS(C05_binsafe_pairs_a) { pairs<1, 0, 4>(); }
HARNESS(C05_binsafe_pairs_b) { pairs<1, 5, 9>(); }
HARNESS(C05_binsafe_pairs_c) { pairs<1, 10, 14>(); }

// the kind of an entry in the key-safe format is enforced
HARNESS(C05_binsafe_mismatch) {
	unsigned k = choose(0, KINDS - 1, "kind"), q = choose(0, KINDS - 1, "ask");
	auto cls = [](unsigned x) { return x == VEC2 || x == BBOX || x == RAWF ? 100u : x == RAW || x == RAWP || x == MAT3 ? 101u : x; };
	ASSUME(cls(k) != cls(q));
	Val v;
	make(v, (Kind) k, ArchiveFormat::BINSAFE, 4);
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	auto a = WriteArchive::to(w.get(), ArchiveFormat::BINSAFE);
	a->write_object_begin("obj", "zCTest", 0);
	put(*a, sym_word(2, "name"), v);
	a->write_object_end();
	a->write_header();
	auto rd = Read::from(&buf);
	auto r = ReadArchive::from(rd.get());
	ArchiveObject obj;
	CHECK(r->read_object_begin(obj));
	CHECK(throws([&] { ask(*r, (int) q); }));
}

// objects of every size: the header/object boundary must not depend on the size
template <int LO, int HI> static void sizes(ArchiveFormat f) {
	unsigned const n = LO + choose(0, HI - LO, "n");
	std::string s(n, 'x');
	if (n) { s[0] = sym<char>("first"); s[n - 1] = sym<char>("last"); ASSUME((s[0] != 0) & (s[0] != '\n') & (s[0] != '\r') & (s[n - 1] != 0) & (s[n - 1] != '\n') & (s[n - 1] != '\r')); }
	std::vector<std::byte> buf;
	Val tail;
	make(tail, INT, f, 0);
	auto w = Write::to(&buf);
	auto a = WriteArchive::to(w.get(), f);
	a->write_object_begin("o", "c", 7);
	a->write_string("s", s);
	a->write_object_end();
	a->write_object_begin("end", "zCEnd", 0);
	put(*a, "t", tail);
	a->write_object_end();
	a->write_header();
	auto rd = Read::from(&buf);
	auto r = ReadArchive::from(rd.get());
	ArchiveObject obj;
	CHECK(r->read_object_begin(obj));
	CHECK(obj.object_name == "o");
	CHECK(obj.class_name == "c");
	CHECK(obj.version == 7);
	CHECK(same(r->read_string(), s));
	finish(*r, tail);
}
HARNESS(C05_binary_sizes_a) { sizes<0, 150>(ArchiveFormat::BINARY); }
HARNESS(C05_binary_sizes_b) { sizes<151, 300>(ArchiveFormat::BINARY); }
HARNESS(C05_binsafe_sizes) { sizes<250, 260>(ArchiveFormat::BINSAFE); }
HARNESS(C05_binsafe_big) { sizes<65533, 65535>(ArchiveFormat::BINSAFE); }
// raw blocks of awkward sizes
HARNESS(C05_raw_sizes) {
	unsigned const L[] = {0, 1, 127, 255, 256, 257, 1000, 32768};
	unsigned n = L[choose(0, 7, "L")], f = choose(0, 1, "fmt"), api = choose(0, 1, "api");
	std::vector<std::byte> raw(n, std::byte {9}), buf;
	if (n) { raw[0] = sym<std::byte>("b0"); raw[n / 2] = sym<std::byte>("bm"); raw[n - 1] = sym<std::byte>("bn"); }
	Val v, tail;
	v.k = api ? RAWP : RAW;
	v.raw = raw;
	make(tail, INT, FMT[f], 0);
	auto w = Write::to(&buf);
	auto a = WriteArchive::to(w.get(), FMT[f]);
	a->write_object_begin("o", "c", 7);
	put(*a, "raw", v);
	a->write_object_end();
	a->write_object_begin("end", "zCEnd", 0);
	put(*a, "t", tail);
	a->write_object_end();
	a->write_header();
	auto rd = Read::from(&buf);
	auto r = ReadArchive::from(rd.get());
	ArchiveObject obj;
	CHECK(r->read_object_begin(obj));
	get(*r, v);
	finish(*r, tail);
}
// entries with many different names: the key table of the key-safe format grows with them
HARNESS(C05_binsafe_keys) {
	static unsigned const N[] = {1, 127, 128, 255, 256, 257, 300};
	unsigned n = N[choose(0, 6, "n")], len = n < 10 && choose(0, 1, "long") ? 300 : 0;
	int32_t v0 = sym<int32_t>("v0"), v1 = sym<int32_t>("v1");
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	auto a = WriteArchive::to(w.get(), ArchiveFormat::BINSAFE);
	a->write_object_begin("o", "c", 7);
	for (unsigned i = 0; i < n; ++i) a->write_int("key" + std::to_string(i) + std::string(len, 'k'), i == 0 ? v0 : i + 1 == n ? v1 : (int) i);
	a->write_int("key0", 5); // a name that was used before (or is new)
	a->write_object_end();
	a->write_header();
	auto rd = Read::from(&buf);
	auto r = ReadArchive::from(rd.get());
	ArchiveObject obj;
	CHECK(r->read_object_begin(obj));
	for (unsigned i = 0; i < n; ++i) CHECK(r->read_int() == (i == 0 ? v0 : i + 1 == n ? v1 : (int) i));
	CHECK(r->read_int() == 5);
	CHECK(r->read_object_end());
}
// deep nesting
HARNESS(C05_deep) {
	unsigned f = choose(0, 1, "fmt"), depth = choose(1, 20, "depth");
	int32_t x = sym<int32_t>("x");
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	auto a = WriteArchive::to(w.get(), FMT[f]);
	for (unsigned d = 0; d < depth; ++d) { a->write_object_begin("o", "c", (uint16_t) d); a->write_int("i", x + (int) d); }
	for (unsigned d = 0; d < depth; ++d) { a->write_string("s", "after"); a->write_object_end(); }
	a->write_header();
	auto rd = Read::from(&buf);
	auto r = ReadArchive::from(rd.get());
	ArchiveObject obj;
	for (unsigned d = 0; d < depth; ++d) { CHECK(r->read_object_begin(obj)); CHECK(obj.version == d); CHECK(!r->read_object_end()); CHECK(r->read_int() == x + (int) d); }
	for (unsigned d = 0; d < depth; ++d) { CHECK(r->read_string() == "after"); CHECK(r->read_object_end()); }
}
