// C13: progressive meshes are restored exactly and refer only to their own data
//@bound meshes of 0..2 sub-meshes; every list of a sub-mesh takes the lengths 0..2 (some 0..3) in combinations where neighbouring lists differ, all elements arbitrary bit for bit; positions and normals 0..2; materials arbitrary (strings 0..2 bytes); boxes arbitrary with 0..2 children; both game versions and the alternative file version; stored by the library and by an independent encoder that places the sections in either order with gaps of 0 or 3 bytes
//@bound sub-meshes whose lists have about 300 elements; meshes of 40 and of 255 sub-meshes
//@outside more elements per list; nested children of oriented boxes beyond one level (C30)
#include "mesh.h"
static GameVersion ver() { return choose(0, 1, "ver") ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1; }
static void save_load(unsigned nsub, unsigned kmax) {
	Ctx c {ArchiveFormat::BINARY, ver(), false};
	unsigned k = choose(0, kmax, "k");
	c.k = k % 3;
	MultiResolutionMesh m;
	fill_mrm(c, m, nsub, k);
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	bool section = choose(0, 1, "section");
	w->write_uint(0x11223344);
	if (section) m.save_to_section(w.get(), c.ver);
	else m.save(w.get(), c.ver);
	if (section) w->write_uint(0x55667788);
	auto rd = Read::from(&buf);
	CHECK(rd->read_uint() == 0x11223344);
	MultiResolutionMesh b;
	if (section) b.load_from_section(rd.get());
	else b.load(rd.get());
	same_mrm(c, m, b);
	if (section) CHECK(rd->read_uint() == 0x55667788);
	CHECK(rd->tell() == buf.size());
}
// lists of about 300 elements, many sub-meshes
HARNESS(C13_save_long) { g_more = 300; save_load(1, 3); }
HARNESS(C13_save_many) { save_load(choose(0, 1, "max") ? 255 : 40, 1); }
HARNESS(C13_save_0) { save_load(0, 2); }
HARNESS(C13_save_1) { save_load(1, 11); }
HARNESS(C13_save_2) { save_load(2, 3); }
static void decode(unsigned nsub, unsigned kmax) {
	Ctx c {ArchiveFormat::BINARY, ver(), false};
	unsigned k = choose(0, kmax, "k");
	c.k = k % 3;
	MultiResolutionMesh m, b;
	fill_mrm(c, m, nsub, k);
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	uint16_t v = !c.g2() ? 0x305 : choose(0, 1, "other") ? 0x905 : 0x805;
	std::vector<std::byte> body;
	auto bw = Write::to(&body);
	emit_mrm(bw.get(), c, m, choose(0, 1, "reverse"), choose(0, 1, "gap") * 3, v);
	w->write_ushort(0xB100); w->write_uint((uint32_t) body.size()); w->write(body.data(), body.size());
	w->write_ushort(0xB1FF); w->write_uint(0);
	auto rd = Read::from(&buf);
	b.load(rd.get());
	same_mrm(c, m, b);
	CHECK(rd->tell() == buf.size());
}
HARNESS(C13_decode_1) { decode(1, 11); }
HARNESS(C13_decode_2) { decode(2, 2); }
HARNESS(C13_decode_long) { g_more = 300; decode(1, 3); }
