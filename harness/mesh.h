// meshes with arbitrary contents, their comparison, and an independent encoder of the file layout
#pragma once
#include "vob.h"
#include <zenkit/Material.hh>
#include <zenkit/MultiResolutionMesh.hh>
template <typename V> void mat(V& v, Material& a, Material& b) {
	F(name); F(group); F(color); F(smooth_angle); F(texture); F(texture_anim_fps); F(texture_anim_map_mode);
	F(disable_collision); F(disable_lightmap); F(dont_collapse); F(detail_object);
	if (v.c.g2()) {
		F(detail_object_scale); F(force_occluder); F(environment_mapping); F(environment_mapping_strength); F(wave_mode); F(wave_speed);
		F(wave_max_amplitude); F(wave_grid_size); F(ignore_sun); F(alpha_func);
	}
	F(default_mapping);
}
static float const VALS[] = {0.f, 1.f, -0.5f, 512.f, 0.1f, 123.456f, -1e-3f, 98765.43f};
static void fill_material(Ctx& c, Material& m, unsigned i) {
	Fill f {c};
	mat(f, m, m);
	m.texture_scale = Vec2 {VALS[i % 8], VALS[(i + 1) % 8]};
	m.texture_anim_map_dir = Vec2 {VALS[(i + 3) % 8], VALS[(i + 6) % 8]};
}
static void same_material(Ctx& c, Material& a, Material& b) {
	Same s {c};
	mat(s, a, b);
	s(a.texture_scale, b.texture_scale);
	s(a.texture_anim_map_dir, b.texture_anim_map_dir);
}
static unsigned g_more = 0; // makes lists that are not empty longer by this number of elements
template <typename T> static std::vector<T> sym_vec(size_t n, char const* name) {
	if (n) n += g_more;
	std::vector<T> v(n);
	if (n) sym_bytes((void*) v.data(), n * sizeof(T), name);
	return v;
}
static std::vector<MeshWedge> sym_wedges(size_t n) {
	std::vector<MeshWedge> v(n ? n + g_more : 0);
	for (auto& x : v) { x.normal = v3("wn"); x.texture = Vec2 {sym<float>("wu"), sym<float>("wv")}; x.index = sym<uint16_t>("wi"); }
	return v;
}
static void same_wedges(std::vector<MeshWedge> const& a, std::vector<MeshWedge> const& b) {
	CHECK(a.size() == b.size());
	if (a.size() != b.size()) return;
	for (size_t i = 0; i < a.size(); ++i) {
		CHECK(same(a[i].normal, b[i].normal));
		CHECK(same(a[i].texture, b[i].texture));
		CHECK(same(a[i].index, b[i].index));
	}
}
static void sym_obb(OrientedBoundingBox& o, unsigned children, unsigned depth) {
	o.center = v3("center"); o.axes[0] = v3("ax0"); o.axes[1] = v3("ax1"); o.axes[2] = v3("ax2"); o.half_width = v3("half");
	if (depth) { o.children.resize(children); for (auto& c : o.children) sym_obb(c, children, depth - 1); }
}
static void same_obb(OrientedBoundingBox const& a, OrientedBoundingBox const& b) {
	CHECK(same(a.center, b.center)); CHECK(same(a.half_width, b.half_width));
	for (int i = 0; i < 3; ++i) CHECK(same(a.axes[i], b.axes[i]));
	CHECK(a.children.size() == b.children.size());
	if (a.children.size() == b.children.size())
		for (size_t i = 0; i < a.children.size(); ++i) same_obb(a.children[i], b.children[i]);
}
// sizes of the nine lists of a sub-mesh are derived from k so that neighbouring lists differ in length
static void fill_submesh(SubMesh& s, unsigned k) {
	s.triangles = sym_vec<MeshTriangle>((k + 1) % 3, "tri");
	s.wedges = sym_wedges((k + 2) % 3);
	s.colors = sym_vec<float>((k + 2) % 4, "col");
	s.triangle_plane_indices = sym_vec<uint16_t>(k % 3, "tpi");
	s.triangle_planes = sym_vec<MeshPlane>((k + 1) % 2, "pl");
	s.triangle_edges = sym_vec<MeshTriangleEdge>((k + 2) % 3, "te");
	s.edges = sym_vec<MeshEdge>((k + 1) % 4, "ed");
	s.edge_scores = sym_vec<float>(k % 2, "es");
	s.wedge_map = sym_vec<uint16_t>((k + 3) % 4, "wm");
}
static void same_submesh(SubMesh const& a, SubMesh const& b) {
	CHECK(same_vec(a.triangles, b.triangles)); same_wedges(a.wedges, b.wedges); CHECK(same_vec(a.colors, b.colors));
	CHECK(same_vec(a.triangle_plane_indices, b.triangle_plane_indices)); CHECK(same_vec(a.triangle_planes, b.triangle_planes));
	CHECK(same_vec(a.triangle_edges, b.triangle_edges)); CHECK(same_vec(a.edges, b.edges));
	CHECK(same_vec(a.edge_scores, b.edge_scores)); CHECK(same_vec(a.wedge_map, b.wedge_map));
}
static void fill_mrm(Ctx& c, MultiResolutionMesh& m, unsigned nsub, unsigned k) {
	m.positions = sym_vec<Vec3>((k + 1) % 3, "pos");
	m.normals = sym_vec<Vec3>((k + 2) % 3, "nrm");
	m.sub_meshes.resize(nsub);
	for (unsigned i = 0; i < nsub; ++i) {
		fill_submesh(m.sub_meshes[i], k + i);
		fill_material(c, m.sub_meshes[i].mat, k + i);
		m.materials.push_back(m.sub_meshes[i].mat);
	}
	m.alpha_test = sym<bool>("alpha_test");
	m.bbox.min = v3("bmin"); m.bbox.max = v3("bmax");
	sym_obb(m.obbox, k % 3, 1);
}
static void same_mrm(Ctx& c, MultiResolutionMesh& a, MultiResolutionMesh& b) {
	CHECK(same_vec(a.positions, b.positions));
	CHECK(same_vec(a.normals, b.normals));
	CHECK(a.sub_meshes.size() == b.sub_meshes.size());
	CHECK(b.materials.size() == b.sub_meshes.size());
	if (a.sub_meshes.size() == b.sub_meshes.size() && b.materials.size() == b.sub_meshes.size())
		for (size_t i = 0; i < a.sub_meshes.size(); ++i) {
			same_submesh(a.sub_meshes[i], b.sub_meshes[i]);
			same_material(c, a.sub_meshes[i].mat, b.sub_meshes[i].mat);
			same_material(c, a.materials[i], b.materials[i]);
		}
	if (c.g2()) CHECK(same(a.alpha_test, b.alpha_test));
	CHECK(same(a.bbox.min, b.bbox.min)); CHECK(same(a.bbox.max, b.bbox.max));
	same_obb(a.obbox, b.obbox);
}
// independent encoder: sections in arbitrary order with gaps in between
static void emit_mrm(Write* w, Ctx& c, MultiResolutionMesh& m, bool reverse, unsigned gap, uint16_t version) {
	w->write_ushort(version);
	size_t n = m.sub_meshes.size();
	std::vector<std::byte> content;
	auto cw = Write::to(&content);
	struct Sec { uint32_t off, n; };
	std::vector<Sec> secs(2 + n * 10);
	auto emit = [&](size_t id) {
		for (unsigned i = 0; i < gap; ++i) cw->write_ubyte(0xEE);
		Sec s {(uint32_t) content.size(), 0};
		if (id == 0) { for (auto& p : m.positions) cw->write_vec3(p); s.n = m.positions.size(); }
		else if (id == 1) { for (auto& p : m.normals) cw->write_vec3(p); s.n = m.normals.size(); }
		else {
			auto& x = m.sub_meshes[(id - 2) / 10];
			switch ((id - 2) % 10) {
			case 0: for (auto& t : x.triangles) for (auto u : t.wedges) cw->write_ushort(u); s.n = x.triangles.size(); break;
			case 1: for (auto& t : x.wedges) { cw->write_vec3(t.normal); cw->write_vec2(t.texture); cw->write_ushort(t.index); cw->write_ushort(0xABCD); } s.n = x.wedges.size(); break;
			case 2: for (auto t : x.colors) cw->write_float(t); s.n = x.colors.size(); break;
			case 3: for (auto t : x.triangle_plane_indices) cw->write_ushort(t); s.n = x.triangle_plane_indices.size(); break;
			case 4: for (auto& t : x.triangle_planes) { cw->write_float(t.distance); cw->write_vec3(t.normal); } s.n = x.triangle_planes.size(); break;
			case 5: for (auto t : x.wedge_map) cw->write_ushort(t); s.n = x.wedge_map.size(); break;
			case 6: cw->write_uint(0xDDDDDDDD); s.n = 1; break;
			case 7: for (auto& t : x.triangle_edges) for (auto u : t.edges) cw->write_ushort(u); s.n = x.triangle_edges.size(); break;
			case 8: for (auto& t : x.edges) for (auto u : t.edges) cw->write_ushort(u); s.n = x.edges.size(); break;
			case 9: for (auto t : x.edge_scores) cw->write_float(t); s.n = x.edge_scores.size(); break;
			}
		}
		secs[id] = s;
	};
	for (size_t i = 0; i < secs.size(); ++i) emit(reverse ? secs.size() - 1 - i : i);
	w->write_uint((uint32_t) content.size());
	w->write(content.data(), content.size());
	w->write_ubyte((uint8_t) n);
	for (auto& s : secs) { w->write_uint(s.off); w->write_uint(s.n); }
	auto ar = WriteArchive::to(w, ArchiveFormat::BINARY);
	for (auto& s : m.sub_meshes) { ar->write_string("", s.mat.name); ar->write_object("%", &s.mat, c.ver); }
	ar->write_header();
	if (c.g2()) w->write_byte(m.alpha_test);
	w->write_vec3(m.bbox.min); w->write_vec3(m.bbox.max);
	m.obbox.save(w);
	for (int i = 0; i < 16; ++i) w->write_ubyte(0x55);
}
