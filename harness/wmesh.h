// world meshes: an independent encoder and comparison
#pragma once
#include "mesh.h"
#include <zenkit/Mesh.hh>
static void chunk(Write* w, uint16_t type, std::vector<std::byte> const& body) { w->write_ushort(type); w->write_uint((uint32_t) body.size()); w->write(body.data(), body.size()); }
struct Buf { std::vector<std::byte> v; std::unique_ptr<Write> w = Write::to(&v); Write* operator->() { return w.get(); } };
struct Poly { uint16_t material; int16_t lightmap; float dist; Vec3 normal; uint8_t f1, f2; int16_t sector; std::vector<uint32_t> vi, fi; };
static Poly sym_poly(unsigned corners, bool wide) {
	Poly p;
	p.material = sym<uint16_t>("material"); p.lightmap = sym<int16_t>("lightmap"); p.dist = sym<float>("dist"); p.normal = v3("normal");
	p.f1 = sym<uint8_t>("flags1"); p.f2 = sym<uint8_t>("flags2"); p.sector = sym<int16_t>("sector");
	for (unsigned i = 0; i < corners; ++i) { p.vi.push_back(wide ? sym<uint32_t>("vi") : sym<uint16_t>("vi")); p.fi.push_back(sym<uint32_t>("fi")); }
	return p;
}
static void emit_poly(Write* w, Poly const& p, bool g2, bool wide) {
	w->write_ushort(p.material); w->write_short(p.lightmap); w->write_float(p.dist); w->write_vec3(p.normal);
	w->write_ubyte(p.f1);
	if (!g2) w->write_ubyte(p.f2);
	w->write_short(p.sector);
	w->write_ubyte((uint8_t) p.vi.size());
	for (size_t i = 0; i < p.vi.size(); ++i) { if (wide) w->write_uint(p.vi[i]); else w->write_ushort((uint16_t) p.vi[i]); w->write_uint(p.fi[i]); }
}
static void same_flags(PolygonFlagSet const& f, Poly const& p, bool g2) {
	CHECK(f.is_portal == (p.f1 & 3)); CHECK(f.is_occluder == ((p.f1 >> 2) & 1)); CHECK(f.is_sector == ((p.f1 >> 3) & 1));
	CHECK(f.is_outdoor == ((p.f1 >> 5) & 1)); CHECK(f.is_ghost_occluder == ((p.f1 >> 6) & 1)); CHECK(f.sector_index == p.sector);
	if (g2) { CHECK(f.should_relight == ((p.f1 >> 4) & 1)); CHECK(f.is_dynamically_lit == ((p.f1 >> 7) & 1)); }
	else { CHECK(f.is_lod == ((p.f1 >> 4) & 1)); CHECK(f.normal_axis == (((p.f1 >> 7) & 1) | ((p.f2 & 1) << 1))); }
}
static void same_poly(Mesh const& m, size_t i, Poly const& p, size_t off, bool g2) {
	auto& g = m.geometry[i];
	CHECK(g.material == p.material); CHECK(g.lightmap == p.lightmap); CHECK(same(g.plane_distance, p.dist)); CHECK(same(g.plane_normal, p.normal));
	same_flags(g.flags, p, g2);
	CHECK(g.index_count == p.vi.size()); CHECK(g.index_offset == off);
	if (g.index_count != p.vi.size() || g.index_offset != off) return;
	CHECK(off + p.vi.size() <= m.polygon_vertex_indices.size()); CHECK(off + p.vi.size() <= m.polygon_feature_indices.size());
	for (size_t j = 0; j < p.vi.size(); ++j) { CHECK(m.polygon_vertex_indices[off + j] == p.vi[j]); CHECK(m.polygon_feature_indices[off + j] == p.fi[j]); }
}
