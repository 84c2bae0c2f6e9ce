// C21: a damaged disk archive is rejected or mounted without leaving its data
//@bound archives of a header, up to 3 catalog entries and 4 bytes of data, cut at any of 12 places; every value of the other header fields (signatures: the three known ones and an arbitrary one), catalog offsets of 0 and from 270 (thorough: all), entry offsets, sizes, types and first name bytes; mounted alone or over an existing file or directory
//@outside catalogs of more entries
#include "vfs.h"
static void walk(VfsNode const& n, size_t total, unsigned depth) {
	CHECK(depth < 6);
	if (depth >= 6) return;
	for (auto& c : n.children()) {
		if (c.type() == VfsNodeType::DIRECTORY) { walk(c, total, depth + 1); continue; }
		auto r = c.open_read();
		r->seek(0, Whence::END);
		size_t size = r->tell();
		CHECK(size <= total);
		if (size == 0 || size > total) continue;
		char b;
		r->seek(0, Whence::BEG);
		CHECK(r->read(&b, 1) == 1);
		r->seek((ssize_t) size - 1, Whence::BEG);
		CHECK(r->read(&b, 1) == 1);
	}
}
static void damaged(unsigned entries, unsigned sig, bool free_catalog, size_t cut, bool over, bool near = false) {
	Disk d;
	std::string s(256, '\x1A');
	d.raw(s.data(), 256);
	if (sig < 3) d.raw(sig == 0 ? "PSVDSC_V2.00\n\r\n\r" : sig == 1 ? "PSVDSC_V2.00\r\n\r\n" : "PSVDSC_V2.00\x1A\x1A\x1A\x1A", 16);
	else { std::string x = sym_raw(16, "signature"); d.raw(x.data(), 16); }
	d.u32(sym<uint32_t>("count")); d.u32(sym<uint32_t>("files"));
	d.u32(0x28610800);
	d.u32(sym<uint32_t>("size"));
	uint32_t cat = free_catalog ? sym<uint32_t>("catalog") : 296;
	if (near) ASSUME((cat == 0) | (cat >= 270));
	d.u32(cat);
	d.u32(sym<uint32_t>("flags"));
	for (unsigned i = 0; i < entries; ++i) {
		std::string n(64, ' ');
		n[0] = (char) ('a' + i);
		if (choose(0, 1, "same")) n[0] = 'A';
		d.raw(n.data(), 64);
		d.u32(sym<uint32_t>("e_offset")); d.u32(sym<uint32_t>("e_size")); d.u32(sym<uint32_t>("e_type")); d.u32(sym<uint32_t>("e_attr"));
	}
	d.u32(0x04030201);
	if (cut < d.b.size()) d.b.resize(cut);
	Vfs v;
	if (over) { v.mount(choose(0, 1, "dir") ? VfsNode::directory("a", 0) : VfsNode::file("a", own("1"), 0), "/"); }
	auto r = Read::from(&d.b);
	try { v.mount_disk(r.get()); } catch (Error const&) {}
	walk(v.root(), d.b.size(), 0);
	// the file system is still usable
	v.mount(VfsNode::file("new", own("1")), "/");
	CHECK(v.resolve("new") != nullptr);
}
HARNESS(C21_header) { damaged(1, 3, false, 9999, false); }
HARNESS(C21_one) { damaged(1, choose(0, 2, "sig"), false, 9999, choose(0, 1, "over")); }
//@entry C21_catalog time=200
HARNESS(C21_catalog) { damaged(1, 0, true, 9999, false, true); }
//@entry C21_catalog_all tier=thorough time=900
HARNESS(C21_catalog_all) { damaged(1, 0, true, 9999, false); }
//@entry C21_two time=120
HARNESS(C21_two) { damaged(2, 0, false, 9999, false); }
//@entry C21_three time=120
HARNESS(C21_three) { damaged(3, 0, false, 9999, false); }
HARNESS(C21_cut) { static size_t const c[] = {0, 1, 255, 256, 270, 272, 280, 295, 296, 297, 360, 370, 376, 378, 379}; damaged(1, choose(0, 1, "sig"), false, c[choose(0, 14, "cut")], false); }
HARNESS(C21_cut_two) { static size_t const c[] = {376, 377, 440, 450, 455}; damaged(2, 0, false, c[choose(0, 4, "cut")], false); }
HARNESS(C21_null) { Vfs v; std::vector<std::byte> b; auto r = Read::from(&b); try { v.mount_disk(r.get()); } catch (Error const&) {} CHECK(v.root().children().size() <= 1); }
