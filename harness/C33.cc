// C33: morph meshes decode to what the file says
//@bound 0..2 sources, a name of 0..2 bytes, a base mesh of 0..2 positions, as many morph positions, 0..2 animations of 0..2 vertices and 0..2 frames; every number arbitrary bit for bit; both mesh file versions; unknown chunks in between
//@bound meshes, morph positions and animations of about 300 vertices with 300 sources; 300 animations
//@outside more elements
#include "mesh.h"
#include <zenkit/MorphMesh.hh>
static void chunk(Write* w, uint16_t type, std::vector<std::byte> const& body) { w->write_ushort(type); w->write_uint((uint32_t) body.size()); w->write(body.data(), body.size()); }
struct Buf { std::vector<std::byte> v; std::unique_ptr<Write> w = Write::to(&v); Write* operator->() { return w.get(); } };
static void line(Write* w, std::string const& s) { w->write(s.data(), s.size()); w->write_char('\n'); }
static void decode(unsigned sources, unsigned anims) {
	Ctx c {ArchiveFormat::BINARY, choose(0, 1, "ver") ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1, false};
	unsigned k = choose(0, 2, "k"); c.k = k;
	MorphMesh a, b;
	a.name = sym_line(k, "name");
	a.sources.resize(sources);
	for (unsigned i = 0; i < a.sources.size(); ++i) {
		auto& d = a.sources[i].file_date;
		d.year = sym<uint32_t>("y"); d.month = sym<uint16_t>("mo"); d.day = sym<uint16_t>("d"); d.hour = sym<uint16_t>("h"); d.minute = sym<uint16_t>("mi"); d.second = sym<uint16_t>("s");
		a.sources[i].file_name = sym_line((i + k) % 3, "file");
	}
	fill_mrm(c, a.mesh, k % 2, k);
	a.morph_positions.resize(a.mesh.positions.size());
	for (auto& p : a.morph_positions) p = v3("morph");
	a.animations.resize(anims);
	for (unsigned i = 0; i < a.animations.size(); ++i) {
		auto& n = a.animations[i];
		n.name = sym_line((i + k + 1) % 3, "anim"); n.blend_in = sym<float>("bi"); n.blend_out = sym<float>("bo"); n.duration = sym<float>("du"); n.layer = sym<int32_t>("la"); n.speed = sym<float>("sp"); n.flags = sym<uint8_t>("fl");
		n.frame_count = (i + k) % 3; n.vertices = sym_vec<uint32_t>((i * 2 + k + 1) % 3, "vert"); n.samples.resize(n.frame_count * n.vertices.size()); for (auto& x : n.samples) x = v3("sample");
	}
	Buf f, s, h, p, m, an, u;
	s->write_ushort((uint16_t) a.sources.size());
	for (auto& x : a.sources) { x.file_date.save(s.w.get()); line(s.w.get(), x.file_name); }
	h->write_uint(3); line(h.w.get(), a.name); chunk(f.w.get(), 0xE000, u.v); chunk(f.w.get(), 0xE020, h.v);
	emit_mrm(p.w.get(), c, a.mesh, k == 1, k, c.g2() ? 0x905 : 0x305); chunk(f.w.get(), 0xB100, p.v);
	for (auto& v : a.morph_positions) m->write_vec3(v); chunk(f.w.get(), 0xB1FF, m.v);
	u->write_uint(0x20202020); chunk(f.w.get(), 0xE0F0, u.v);
	an->write_ushort((uint16_t) a.animations.size());
	for (auto& n : a.animations) {
		line(an.w.get(), n.name); an->write_float(n.blend_in); an->write_float(n.blend_out); an->write_float(n.duration); an->write_int(n.layer); an->write_float(n.speed); an->write_ubyte(n.flags);
		an->write_uint((uint32_t) n.vertices.size()); an->write_uint(n.frame_count); for (auto v : n.vertices) an->write_uint(v); for (auto& v : n.samples) an->write_vec3(v);
	}
	chunk(f.w.get(), 0xE030, an.v); chunk(f.w.get(), 0xE010, s.v);
	auto r = Read::from(&f.v);
	b.load(r.get());
	CHECK(same(a.name, b.name)); same_mrm(c, a.mesh, b.mesh); CHECK(same_vec(a.morph_positions, b.morph_positions));
	CHECK(a.sources.size() == b.sources.size());
	if (a.sources.size() == b.sources.size()) for (size_t i = 0; i < a.sources.size(); ++i) {
		auto &x = a.sources[i].file_date, &y = b.sources[i].file_date;
		CHECK(x.year == y.year); CHECK(x.month == y.month); CHECK(x.day == y.day); CHECK(x.hour == y.hour); CHECK(x.minute == y.minute); CHECK(x.second == y.second);
		CHECK(same(a.sources[i].file_name, b.sources[i].file_name));
	}
	CHECK(a.animations.size() == b.animations.size());
	if (a.animations.size() == b.animations.size()) for (size_t i = 0; i < a.animations.size(); ++i) {
		auto &x = a.animations[i], &y = b.animations[i];
		CHECK(same(x.name, y.name)); CHECK(same(x.blend_in, y.blend_in)); CHECK(same(x.blend_out, y.blend_out)); CHECK(same(x.duration, y.duration)); CHECK(same(x.speed, y.speed)); CHECK(x.layer == y.layer); CHECK(x.flags == y.flags);
		CHECK(x.frame_count == y.frame_count); CHECK(same_vec(x.vertices, y.vertices)); CHECK(same_vec(x.samples, y.samples));
	}
}
HARNESS(C33_decode) { decode(choose(0, 2, "sources"), choose(0, 2, "anims")); }
HARNESS(C33_decode_many) { g_more = 300; decode(300, 12); }
HARNESS(C33_animations_many) { decode(1, 300); }
