// C12: materials keep every attribute across save and load
//@bound one material with every attribute arbitrary (floats bit for bit, enumeration values up to 255), strings of 0..2 arbitrary bytes other than NUL, CR, LF (also surrounded by 300 fixed characters), texture scale and mapping direction from eight values per component (stored as decimal text by the format), both game versions, three archive formats (ASCII: fixed values, arbitrary text), inside an archive and through the mesh-embedded loader
//@outside texture scales other than the listed values
#include "mesh.h"
#include <zenkit/Material.hh>
template <int FM> static void run(unsigned pad = 0) {
	Ctx c {FMT[FM], choose(0, 1, "ver") ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1, false};
	c.k = choose(0, 2, "k");
	c.pad = pad;
	auto o = std::make_shared<Material>();
	Fill f {c};
	mat(f, *o, *o);
	unsigned i = choose(0, 7, "scale");
	o->texture_scale = Vec2 {VALS[i], VALS[(i + 1) % 8]};
	o->texture_anim_map_dir = Vec2 {VALS[(i + 3) % 8], VALS[(i + 6) % 8]};
	if (c.text()) o->alpha_func = (AlphaFunction) choose(0, 6, "alpha");
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	auto a = WriteArchive::to(w.get(), c.fmt);
	bool embedded = choose(0, 1, "embedded");
	if (embedded) a->write_string("", o->name);
	a->write_object(std::static_pointer_cast<Object>(o), c.ver);
	a->write_object_begin("e", "f", 1);
	a->write_object_end();
	a->write_header();
	if (!embedded) class_record(buf, ObjectType::zCMaterial, c.g2());
	auto rd = Read::from(&buf);
	auto r = ReadArchive::from(rd.get());
	std::shared_ptr<Material> p;
	if (embedded) { p = std::make_shared<Material>(); p->load(*r); }
	else p = r->read_object<Material>(c.ver);
	CHECK(p != nullptr);
	ArchiveObject e;
	CHECK(r->read_object_begin(e));
	CHECK(e.object_name == "e");
	Same s {c};
	mat(s, *o, *p);
	s(o->texture_scale, p->texture_scale);
	s(o->texture_anim_map_dir, p->texture_anim_map_dir);
}
HARNESS(C12_binary) { run<0>(); }
HARNESS(C12_binsafe) { run<1>(); }
HARNESS(C12_ascii) { run<2>(); }
// long strings
HARNESS(C12_long_binary) { run<0>(300); }
HARNESS(C12_long_binsafe) { run<1>(300); }
HARNESS(C12_long_ascii) { run<2>(300); }
