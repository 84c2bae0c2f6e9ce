// C15: world meshes - polygons, flags and lightmaps decode to what the file says
//@bound meshes of 0..3 polygons with 0..5 corners each; every index, flag byte, plane, vertex, feature, box, date and lightmap vector arbitrary bit for bit; every subset of polygons as the (sorted, possibly repeating) list of leaf polygons; 0..3 lightmaps over 0..2 images of 1x1..2x1 pixels; both game versions, the 16-bit and the 32-bit index layout; read from an independent encoder and from the library's own writer
//@bound 300 polygons of 0..255 corners (flags of the last one arbitrary); 300 vertices and features, 60 materials, 280 lightmaps over 90 images
//@outside more polygons or corners; unsorted leaf lists; corner indices that exceed the vertex list are returned as stored
#include "wmesh.h"
// many: 300 polygons of 0..255 corners, the flags of most of them fixed
static void polygons(unsigned maxN, unsigned maxC, bool many = false) {
	unsigned n = many ? maxN : choose(0, maxN, "n");
	bool g2 = choose(0, 1, "g2"), force = choose(0, 1, "force"), wide = g2 || force;
	std::vector<Poly> ps;
	std::vector<uint32_t> leaf;
	static unsigned const CORNERS[] = {3, 4, 0, 255, 3, 6, 1, 3, 130, 2, 3};
	for (unsigned i = 0; i < n; ++i) {
		ps.push_back(sym_poly(many ? CORNERS[i % 11] : choose(0, maxC, "corners"), wide));
		if (many && i != n - 1) ps.back().f1 = (uint8_t) (i * 37 & (i % 3 ? 0x9C : 0xFF));
	}
	bool tri = choose(0, 1, "tri");
	if (tri) for (unsigned i = 0; i < n; ++i) for (unsigned k = many ? (i % 5 != 2) + (i % 7 == 0) : choose(0, i ? 1 : 2, "leaf"); k > 0; --k) leaf.push_back(i);
	Buf f, h, q, e;
	h->write_ushort(g2 ? 265 : 9); Date d {}; d.save(h.w.get()); h->write_ubyte('\n'); chunk(f.w.get(), 0xB000, h.v);
	q->write_uint(n); for (auto& p : ps) emit_poly(q.w.get(), p, g2, wide); chunk(f.w.get(), 0xB050, q.v);
	chunk(f.w.get(), 0xB060, e.v);
	auto r = Read::from(&f.v);
	Mesh m;
	if (tri) m.load(r.get(), leaf, force); else m.load(r.get(), force);
	CHECK(m.geometry.size() == n);
	if (m.geometry.size() != n) return;
	size_t off = 0, t = 0;
	for (unsigned i = 0; i < n; ++i) { same_poly(m, i, ps[i], off, g2); off += ps[i].vi.size(); }
	CHECK(m.polygon_vertex_indices.size() == off); CHECK(m.polygon_feature_indices.size() == off);
	auto& l = m.polygons;
	if (tri) for (unsigned i = 0; i < n; ++i) {
		bool in = false; for (auto x : leaf) in = in || x == i;
		if (!in || ps[i].vi.size() < 3) continue;
		if ((ps[i].f1 & 0x63) != 0) continue; // portal, outdoor, ghost occluder
		for (size_t b = 2; b < ps[i].vi.size(); ++b, ++t) {
			CHECK(l.vertex_indices.size() >= (t + 1) * 3); CHECK(l.feature_indices.size() >= (t + 1) * 3); CHECK(l.material_indices.size() > t);
			if (l.vertex_indices.size() < (t + 1) * 3 || l.feature_indices.size() < (t + 1) * 3 || l.material_indices.size() <= t || l.lightmap_indices.size() <= t || l.flags.size() <= t) return;
			size_t c[3] = {0, b - 1, b};
			for (int k = 0; k < 3; ++k) { CHECK(l.vertex_indices[t * 3 + k] == ps[i].vi[c[k]]); CHECK(l.feature_indices[t * 3 + k] == ps[i].fi[c[k]]); }
			CHECK(l.material_indices[t] == ps[i].material); CHECK(l.lightmap_indices[t] == ps[i].lightmap); same_flags(l.flags[t], ps[i], g2);
		}
	}
	CHECK(l.vertex_indices.size() == t * 3); CHECK(l.feature_indices.size() == t * 3); CHECK(l.material_indices.size() == t); CHECK(l.lightmap_indices.size() == t); CHECK(l.flags.size() == t);
}
HARNESS(C15_polygons_2) { polygons(2, 5); }
//@entry C15_polygons_3 time=200
HARNESS(C15_polygons_3) { polygons(3, 3); }
HARNESS(C15_polygons_many) { polygons(300, 0, true); }
static void emit_tex(Write* w, std::vector<uint8_t> const& px, unsigned width) {
	w->write("ZTEX", 4); w->write_uint(0); w->write_uint(5); w->write_uint(width); w->write_uint(1); w->write_uint(1); w->write_uint(width); w->write_uint(1); w->write_uint(0x01020304);
	w->write(px.data(), px.size());
}
static void contents(bool many) {
	Ctx c {ArchiveFormat::BINARY, choose(0, 1, "ver") ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1, false};
	unsigned k = choose(0, 2, "k"); c.k = k;
	Mesh a, b;
	a.date.year = sym<uint32_t>("y"); a.date.month = sym<uint16_t>("mo"); a.date.day = sym<uint16_t>("d"); a.date.hour = sym<uint16_t>("h"); a.date.minute = sym<uint16_t>("mi"); a.date.second = sym<uint16_t>("s");
	a.name = std::string(many ? 300 : 0, 'x') + sym_line(k, "name");
	a.bbox.min = v3("bmin"); a.bbox.max = v3("bmax"); sym_obb(a.obb, k, 1);
	a.materials.resize((k + 1) % 3 + (many ? 60 : 0)); for (unsigned i = 0; i < a.materials.size(); ++i) fill_material(c, a.materials[i], i + k);
	a.vertices = sym_vec<Vec3>((k + 2) % 3, "vertex");
	a.features = sym_vec<VertexFeature>((k + 1) % 3, "feature");
	bool shared = choose(0, 1, "shared"), lib = shared && choose(0, 1, "lib");
	unsigned nl = many ? 280 : choose(0, 3, "lightmaps"), ni = many ? 90 : nl ? choose(1, 2, "images") : 0;
	std::vector<std::vector<uint8_t>> px;
	std::vector<unsigned> img;
	for (unsigned i = 0; i < ni; ++i) { px.emplace_back(3 * (i + 1)); sym_bytes(px.back().data(), px.back().size(), "px"); }
	std::vector<Vec3> lv;
	for (unsigned i = 0; i < nl; ++i) { img.push_back(many ? i * 7 % ni : choose(0, ni - 1, "image")); for (int j = 0; j < 3; ++j) lv.push_back(v3("lm")); }
	Buf f;
	if (!lib) {
		Buf h, x, mt, vt, ft, lm, e;
		h->write_ushort(c.g2() ? 265 : 9); a.date.save(h.w.get()); h->write(a.name.data(), a.name.size()); h->write_ubyte('\n'); chunk(f.w.get(), 0xB000, h.v);
		a.bbox.save(x.w.get()); a.obb.save(x.w.get()); chunk(f.w.get(), 0xB010, x.v);
		{
			auto ar = WriteArchive::to(mt.w.get(), ArchiveFormat::BINARY);
			mt->write_uint((uint32_t) a.materials.size());
			for (auto& m : a.materials) { ar->write_string("", m.name); ar->write_object("%", &m, c.ver); }
			ar->write_header();
		}
		chunk(f.w.get(), 0xB020, mt.v);
		if (shared) {
			lm->write_uint(ni); for (unsigned i = 0; i < ni; ++i) emit_tex(lm.w.get(), px[i], i + 1);
			lm->write_uint(nl); for (unsigned i = 0; i < nl; ++i) { for (int j = 0; j < 3; ++j) lm->write_vec3(lv[i * 3 + j]); lm->write_uint(img[i]); }
			chunk(f.w.get(), 0xB026, lm.v);
		} else {
			lm->write_uint(nl); for (unsigned i = 0; i < nl; ++i) { for (int j = 0; j < 3; ++j) lm->write_vec3(lv[i * 3 + j]); emit_tex(lm.w.get(), px[img[i]], img[i] + 1); }
			chunk(f.w.get(), 0xB025, lm.v);
		}
		vt->write_uint((uint32_t) a.vertices.size()); for (auto& v : a.vertices) vt->write_vec3(v); chunk(f.w.get(), 0xB030, vt.v);
		ft->write_uint((uint32_t) a.features.size()); for (auto& v : a.features) { ft->write_vec2(v.texture); ft->write_uint(v.light); ft->write_vec3(v.normal); } chunk(f.w.get(), 0xB040, ft.v);
		chunk(f.w.get(), 0xB060, e.v);
	} else {
		std::vector<std::shared_ptr<Texture>> im;
		for (unsigned i = 0; i < ni; ++i) { TextureBuilder tb {i + 1, 1}; tb.add_mipmap(px[i], TextureFormat::R8G8B8); im.push_back(std::make_shared<Texture>(tb.build(TextureFormat::R8G8B8))); }
		for (unsigned i = 0; i < nl; ++i) a.lightmaps.push_back(LightMap {im[img[i]], {lv[i * 3 + 1], lv[i * 3 + 2]}, lv[i * 3]});
		a.save(f.w.get(), c.ver);
	}
	f->write_uint(0x7654321);
	auto r = Read::from(&f.v);
	b.load(r.get(), false);
	CHECK(r->read_uint() == 0x7654321);
	CHECK(a.date.year == b.date.year); CHECK(a.date.month == b.date.month); CHECK(a.date.day == b.date.day); CHECK(a.date.hour == b.date.hour); CHECK(a.date.minute == b.date.minute); CHECK(a.date.second == b.date.second);
	CHECK(same(a.name, b.name)); CHECK(same(a.bbox.min, b.bbox.min)); CHECK(same(a.bbox.max, b.bbox.max)); same_obb(a.obb, b.obb);
	CHECK(a.materials.size() == b.materials.size());
	if (a.materials.size() == b.materials.size()) for (size_t i = 0; i < a.materials.size(); ++i) same_material(c, a.materials[i], b.materials[i]);
	CHECK(same_vec(a.vertices, b.vertices)); CHECK(same_vec(a.features, b.features));
	CHECK(b.lightmaps.size() == nl);
	if (b.lightmaps.size() != nl) return;
	for (unsigned i = 0; i < nl; ++i) {
		auto& l = b.lightmaps[i];
		CHECK(same(l.origin, lv[i * 3])); CHECK(same(l.normals[0], lv[i * 3 + 1])); CHECK(same(l.normals[1], lv[i * 3 + 2]));
		CHECK(l.image != nullptr); if (!l.image) continue;
		CHECK(l.image->width() == img[i] + 1); CHECK(same_vec(l.image->data(0), px[img[i]]));
		if (shared) for (unsigned j = 0; j < i; ++j) CHECK((l.image == b.lightmaps[j].image) == (img[i] == img[j]));
	}
}
HARNESS(C15_contents) { contents(false); }
HARNESS(C15_contents_many) { g_more = 300; contents(true); }
// polygons written by the library
HARNESS(C15_save) {
	GameVersion ver = choose(0, 1, "ver") ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
	bool g2 = ver == GameVersion::GOTHIC_2;
	unsigned n = choose(0, 2, "n");
	Buf f, h, q, e;
	std::vector<Poly> ps;
	for (unsigned i = 0; i < n; ++i) ps.push_back(sym_poly(choose(0, 4, "corners"), g2));
	h->write_ushort(g2 ? 265 : 9); Date d {}; d.save(h.w.get()); h->write_ubyte('\n'); chunk(f.w.get(), 0xB000, h.v);
	q->write_uint(n); for (auto& p : ps) emit_poly(q.w.get(), p, g2, g2); chunk(f.w.get(), 0xB050, q.v);
	chunk(f.w.get(), 0xB060, e.v);
	auto r = Read::from(&f.v);
	Mesh m, b;
	std::vector<uint32_t> leaf {0, 1};
	m.load(r.get(), leaf, false);
	Buf o;
	m.save(o.w.get(), ver);
	auto r2 = Read::from(&o.v);
	b.load(r2.get(), leaf, false);
	CHECK(b.geometry.size() == n);
	size_t off = 0;
	for (unsigned i = 0; i < n; ++i) { same_poly(b, i, ps[i], off, g2); off += ps[i].vi.size(); }
	CHECK(same_vec(b.polygons.vertex_indices, m.polygons.vertex_indices)); CHECK(same_vec(b.polygons.feature_indices, m.polygons.feature_indices));
	CHECK(r2->tell() == o.v.size());
}
