// C27: damaged asset files never make a loader touch foreign memory or hang
//@bound per format a small valid file (both game versions where they differ), (a) cut off after every number of bytes, (b) with a window of 4 bytes replaced by arbitrary bytes: at every even offset in the quick tier (every fourth in textures), at every offset in the thorough tier
//@assume lists whose length comes from the damaged bytes are explored up to 1 KiB of memory and 400 reads past the end of the file
//@outside damage in more than one place; memory and time proportional to a damaged list length; nesting depth that exhausts the stack (several megabytes of nested boxes or objects)
#include "rob.h"
#include <zenkit/Font.hh>
#include <zenkit/Texture.hh>
#include <zenkit/ModelHierarchy.hh>
#include <zenkit/ModelAnimation.hh>
#include <zenkit/SoftSkinMesh.hh>
#include <zenkit/MorphMesh.hh>
#include <zenkit/ModelMesh.hh>
#include <zenkit/Model.hh>
#include <zenkit/ModelScript.hh>
#include <zenkit/Mesh.hh>
#include <zenkit/world/BspTree.hh>
using File = std::vector<std::byte>;
struct Buf { File v; std::unique_ptr<Write> w = Write::to(&v); Write* operator->() { return w.get(); } };
static void chunk(Write* w, uint16_t type, File const& body) { w->write_ushort(type); w->write_uint((uint32_t) body.size()); w->write(body.data(), body.size()); }
static void line(Write* w, char const* s) { w->write(s, strlen(s)); w->write_char('\n'); }
template <typename T> static void load(Read* r) { T t; t.load(r); }
static GameVersion const VER[] = {GameVersion::GOTHIC_1, GameVersion::GOTHIC_2};
// ------------------------------------------------------------------ small valid files
static File font() { Font f; f.name = "F"; f.height = 8; f.glyphs.resize(2); Buf b; f.save(b.w.get()); return b.v; }
static File texture(unsigned fmt, unsigned w, unsigned h, unsigned n) {
	Buf b; b->write("ZTEX", 4);
	for (uint32_t v : {0u, fmt, w, h, n, w, h, 0u}) b->write_uint(v);
	if (fmt == 9) for (int i = 0; i < 256; ++i) b->write_uint(i);
	for (int i = 0; i < 16; ++i) b->write_uint(7);
	return b.v;
}
static File hierarchy() { ModelHierarchy h; h.nodes.resize(2); h.nodes[0].name = "A"; h.nodes[0].parent_index = -1; h.nodes[1].name = "B"; h.nodes[1].parent_index = 0; h.source_path = "P"; h.checksum = 5; Buf b; h.save(b.w.get()); return b.v; }
static File animation() {
	Buf f, h, z, e, m, s;
	chunk(f.w.get(), 0xa000, m.v);
	h->write_ushort(12); line(h.w.get(), "A"); h->write_uint(1); h->write_uint(2); h->write_uint(1); for (int i = 0; i < 10; ++i) h->write_float(1); line(h.w.get(), "N"); chunk(f.w.get(), 0xa020, h.v);
	for (int i = 0; i < 4; ++i) s->write_uint(1); line(s.w.get(), "P"); line(s.w.get(), "S"); chunk(f.w.get(), 0xa010, s.v);
	e->write_uint(1); e->write_uint(0); e->write_uint(1); for (int i = 0; i < 5; ++i) line(e.w.get(), "T"); for (int i = 0; i < 5; ++i) e->write_float(1); chunk(f.w.get(), 0xa030, e.v);
	z->write_uint(9); z->write_uint(0); for (int i = 0; i < 12; ++i) z->write_ushort(32767); chunk(f.w.get(), 0xa090, z.v);
	return f.v;
}
static SubMesh submesh() {
	SubMesh s; s.triangles.resize(1); s.wedges.resize(2); s.colors.resize(1); s.triangle_plane_indices.resize(1); s.triangle_planes.resize(1); s.triangle_edges.resize(1); s.edges.resize(1); s.edge_scores.resize(1); s.wedge_map.resize(1); s.mat.name = "M";
	return s;
}
static MultiResolutionMesh mrm(unsigned nsub) {
	MultiResolutionMesh m; m.positions.resize(2); m.normals.resize(1);
	for (unsigned i = 0; i < nsub; ++i) { m.sub_meshes.push_back(submesh()); m.materials.push_back(m.sub_meshes[i].mat); }
	m.obbox.children.resize(1);
	return m;
}
static File mrm_file(unsigned v) { Buf b; mrm(1).save(b.w.get(), VER[v]); return b.v; }
static SoftSkinMesh skin() { SoftSkinMesh s; s.mesh = mrm(0); s.weights.resize(2); s.weights[0].resize(1); s.wedge_normals.resize(1); s.nodes.resize(1); s.bboxes.resize(1); return s; }
static File skin_file() { Buf b; skin().save(b.w.get(), VER[1]); return b.v; }
static File model_mesh() { ModelMesh m; m.meshes.push_back(skin()); m.attachments["HEAD"] = mrm(0); m.checksum = 3; Buf b; m.save(b.w.get(), VER[1]); return b.v; }
static File morph() {
	Buf f, a, h, p, m, s;
	s->write_ushort(1); for (int i = 0; i < 4; ++i) s->write_uint(1); line(s.w.get(), "S"); chunk(f.w.get(), 0xe010, s.v);
	h->write_uint(1); line(h.w.get(), "H"); chunk(f.w.get(), 0xe020, h.v);
	mrm(0).save_to_section(p.w.get(), VER[1]); chunk(f.w.get(), 0xb100, p.v);
	for (int i = 0; i < 6; ++i) m->write_float(1); chunk(f.w.get(), 0xb1ff, m.v);
	a->write_ushort(1); line(a.w.get(), "N"); for (int i = 0; i < 5; ++i) a->write_uint(1); a->write_ubyte(0); a->write_uint(2); a->write_uint(1); for (int i = 0; i < 8; ++i) a->write_uint(0); chunk(f.w.get(), 0xe030, a.v);
	return f.v;
}
static Mesh plain_mesh() {
	Mesh m; m.name = "N"; m.materials.resize(1); m.materials[0].name = "M"; m.vertices.resize(2); m.features.resize(2); m.geometry.resize(2);
	m.geometry[0].index_count = 3; m.geometry[1].index_count = 3; m.geometry[1].index_offset = 3;
	m.polygon_vertex_indices = {0, 1, 0, 1, 0, 1}; m.polygon_feature_indices = {0, 1, 0, 1, 0, 1};
	return m;
}
static File tiny_texture() { return texture(9, 1, 1, 1); }
static File mesh(unsigned v, bool lm) {
	Mesh m = plain_mesh();
	if (lm) { auto t = std::make_shared<Texture>(); auto f = texture(5, 1, 1, 1); auto r = Read::from(&f); t->load(r.get()); m.lightmaps.push_back(LightMap {t, {}, {}}); }
	Buf b; m.save(b.w.get(), VER[v]); return b.v;
}
static BspTree plain_bsp() {
	BspTree t; t.polygon_indices = {0, 1}; t.nodes.resize(3);
	t.nodes[0].front_index = 1; t.nodes[0].back_index = 2; t.nodes[1].parent_index = t.nodes[2].parent_index = 0; t.nodes[1].polygon_count = 1; t.nodes[2].polygon_index = 1; t.nodes[2].polygon_count = 1;
	t.leaf_node_indices = {1, 2}; t.light_points.resize(2); t.sectors.resize(1); t.sectors[0].name = "S"; t.sectors[0].node_indices = {1}; t.sectors[0].portal_polygon_indices = {0}; t.portal_polygon_indices = {1};
	return t;
}
static File bsp(unsigned v) { Buf b; plain_bsp().save(b.w.get(), VER[v]); return b.v; }
template <unsigned V> static void load_bsp(Read* r) { BspTree t; t.load(r, V ? 0x4090000 : 0x2090000); }
static void load_mesh(Read* r) { Mesh m; m.load(r, std::vector<uint32_t> {0, 1, 5}, false); }
// ------------------------------------------------------------------ truncation
//@entry C27_cut_assets time=150 conc-limit=20000
HARNESS(C27_cut_assets) {
	switch (choose(0, 7, "format")) {
	case 0: truncated(font(), load<Font>); break;
	case 1: truncated(texture(2, 2, 2, 2), load<Texture>); break;
	case 2: truncated(hierarchy(), load<ModelHierarchy>); break;
	case 3: truncated(animation(), load<ModelAnimation>); break;
	case 4: truncated(mrm_file(1), load<MultiResolutionMesh>); break;
	case 5: truncated(skin_file(), load<SoftSkinMesh>); break;
	case 6: truncated(model_mesh(), load<ModelMesh>); break;
	case 7: truncated(morph(), load<MorphMesh>); break;
	}
}
//@entry C27_cut_world_geometry time=150 conc-limit=20000
HARNESS(C27_cut_world_geometry) {
	switch (choose(0, 3, "format")) {
	case 0: truncated(mesh(0, false), load_mesh); break;
	case 1: truncated(mesh(1, true), load_mesh); break;
	case 2: truncated(bsp(0), load_bsp<0>); break;
	case 3: truncated(bsp(1), load_bsp<1>); break;
	}
}
// ------------------------------------------------------------------ corruption
#define DAMAGE(name, step, file, loader)                                                                               \
	HARNESS(C27_damage_##name) { damaged(file, 4, step, loader); }                                                      \
	HARNESS(C27_deep_##name) { damaged(file, 4, 1, loader); }
//@entry C27_damage_font time=150 conc-limit=20000 sym-alloc=1024
//@entry C27_deep_font tier=thorough conc-limit=20000 sym-alloc=1024
DAMAGE(font, 2, font(), load<Font>)
//@entry C27_damage_texture time=150 conc-limit=20000 sym-alloc=128
//@entry C27_deep_texture tier=thorough conc-limit=20000 sym-alloc=128
DAMAGE(texture, 4, texture(2, 2, 2, 2), load<Texture>)
//@entry C27_damage_hierarchy time=150 conc-limit=20000 sym-alloc=1024
//@entry C27_deep_hierarchy tier=thorough conc-limit=20000 sym-alloc=1024
DAMAGE(hierarchy, 2, hierarchy(), load<ModelHierarchy>)
//@entry C27_damage_animation time=150 conc-limit=20000 sym-alloc=1024
//@entry C27_deep_animation tier=thorough conc-limit=20000 sym-alloc=1024
DAMAGE(animation, 2, animation(), load<ModelAnimation>)
//@entry C27_damage_mrm time=150 conc-limit=20000 sym-alloc=256
//@entry C27_deep_mrm tier=thorough conc-limit=20000 sym-alloc=256
DAMAGE(mrm, 2, mrm_file(1), load<MultiResolutionMesh>)
//@entry C27_damage_skin time=150 conc-limit=20000 sym-alloc=256
//@entry C27_deep_skin tier=thorough conc-limit=20000 sym-alloc=256
DAMAGE(skin, 2, skin_file(), load<SoftSkinMesh>)
//@entry C27_damage_model_mesh time=150 conc-limit=20000 sym-alloc=256
//@entry C27_deep_model_mesh tier=thorough conc-limit=20000 sym-alloc=256
DAMAGE(model_mesh, 2, model_mesh(), load<ModelMesh>)
//@entry C27_damage_morph time=150 conc-limit=20000 sym-alloc=256
//@entry C27_deep_morph tier=thorough conc-limit=20000 sym-alloc=256
DAMAGE(morph, 2, morph(), load<MorphMesh>)
//@entry C27_damage_mesh_a time=150 conc-limit=20000 sym-alloc=256
HARNESS(C27_damage_mesh_a) { auto f = mesh(1, true); damaged(f, 4, 2, load_mesh, 0, (unsigned) f.size() / 2); }
//@entry C27_damage_mesh_b time=150 conc-limit=20000 sym-alloc=256
HARNESS(C27_damage_mesh_b) { auto f = mesh(1, true); damaged(f, 4, 2, load_mesh, (unsigned) f.size() / 2); }
//@entry C27_deep_mesh tier=thorough conc-limit=20000 sym-alloc=256
HARNESS(C27_deep_mesh) { damaged(mesh(1, true), 4, 1, load_mesh); }
//@entry C27_damage_bsp time=150 conc-limit=20000 sym-alloc=1024
//@entry C27_deep_bsp tier=thorough conc-limit=20000 sym-alloc=1024
DAMAGE(bsp, 2, bsp(1), load_bsp<1>)
