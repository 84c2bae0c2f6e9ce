// typed archive entries with arbitrary values
#pragma once
#include "zse.h"
#include <zenkit/Archive.hh>
#include <zenkit/Stream.hh>
using namespace zenkit;

enum Kind { STR, INT, FLT, BYTE, WORD, ENUM, BOOL, COLOR, VEC3, VEC2, BBOX, MAT3, RAW, RAWP, RAWF, KINDS };
static ArchiveFormat const FMT[] = {ArchiveFormat::BINARY, ArchiveFormat::BINSAFE, ArchiveFormat::ASCII};

struct Val {
	Kind k;
	std::string s;
	int32_t i; float f; uint8_t b; uint16_t w; uint32_t e; bool t; Color c; Vec3 v3; Vec2 v2; AxisAlignedBoundingBox bb; Mat3 m;
	std::vector<std::byte> raw;
};
static Vec3 v3(char const* n) { Vec3 v {}; v.x = sym<float>(n); v.y = sym<float>(n); v.z = sym<float>(n); return v; }
static void make(Val& v, Kind k, ArchiveFormat f, unsigned strlen) {
	v.k = k;
	switch (k) {
	case STR: v.s = f == ArchiveFormat::BINSAFE ? sym_raw(strlen, "str") : sym_line(strlen, "str"); break;
	case INT: v.i = sym<int32_t>("int"); break;
	case FLT: v.f = sym<float>("float"); break;
	case BYTE: v.b = sym<uint8_t>("byte"); break;
	case WORD: v.w = sym<uint16_t>("word"); break;
	case ENUM: v.e = sym<uint32_t>("enum"); if (f == ArchiveFormat::BINARY) ASSUME(v.e < 256); break;
	case BOOL: v.t = sym<bool>("bool"); break;
	case COLOR: v.c = Color {sym<uint8_t>("r"), sym<uint8_t>("g"), sym<uint8_t>("b"), sym<uint8_t>("a")}; break;
	case VEC3: v.v3 = v3("vec3"); break;
	case VEC2: v.v2 = Vec2 {sym<float>("x"), sym<float>("y")}; break;
	case BBOX: v.bb.min = v3("min"); v.bb.max = v3("max"); break;
	case MAT3: for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) v.m[a][b] = sym<float>("mat"); break;
	case RAW: case RAWP: v.raw.resize(strlen); sym_bytes(v.raw.data(), strlen, "raw"); break;
	case RAWF: v.v2 = Vec2 {sym<float>("x"), sym<float>("y")}; break;
	default: break;
	}
}
static void put(WriteArchive& a, std::string_view n, Val const& v) {
	switch (v.k) {
	case STR: a.write_string(n, v.s); break;
	case INT: a.write_int(n, v.i); break;
	case FLT: a.write_float(n, v.f); break;
	case BYTE: a.write_byte(n, v.b); break;
	case WORD: a.write_word(n, v.w); break;
	case ENUM: a.write_enum(n, v.e); break;
	case BOOL: a.write_bool(n, v.t); break;
	case COLOR: a.write_color(n, v.c); break;
	case VEC3: a.write_vec3(n, v.v3); break;
	case VEC2: a.write_vec2(n, v.v2); break;
	case BBOX: a.write_bbox(n, v.bb); break;
	case MAT3: a.write_mat3x3(n, v.m); break;
	case RAW: a.write_raw(n, v.raw); break;
	case RAWP: a.write_raw(n, v.raw.data(), (uint16_t) v.raw.size()); break;
	case RAWF: a.write_raw_float(n, v.v2.pointer(), 2); break;
	default: break;
	}
}
static void get(ReadArchive& a, Val const& v) {
	switch (v.k) {
	case STR: CHECK(same(a.read_string(), v.s)); break;
	case INT: CHECK(same(a.read_int(), v.i)); break;
	case FLT: CHECK(same(a.read_float(), v.f)); break;
	case BYTE: CHECK(same(a.read_byte(), v.b)); break;
	case WORD: CHECK(same(a.read_word(), v.w)); break;
	case ENUM: CHECK(same(a.read_enum(), v.e)); break;
	case BOOL: CHECK(a.read_bool() == v.t); break;
	case COLOR: CHECK(same(a.read_color(), v.c)); break;
	case VEC3: CHECK(same(a.read_vec3(), v.v3)); break;
	case VEC2: case RAWF: CHECK(same(a.read_vec2(), v.v2)); break;
	case BBOX: CHECK(same(a.read_bbox(), v.bb)); break;
	case MAT3: CHECK(same(a.read_mat3x3(), v.m)); break;
	case RAW: case RAWP: {
		auto r = a.read_raw(v.raw.size());
		std::vector<std::byte> got(v.raw.size() + 1);
		CHECK(r->read(got.data(), got.size()) == v.raw.size());
		CHECK(same_bytes(got.data(), v.raw.data(), v.raw.size()));
		break;
	}
	default: break;
	}
}
// what a reader of kind k asks the archive for
static void ask(ReadArchive& a, int k) {
	switch (k) {
	case STR: (void) a.read_string(); break;
	case INT: (void) a.read_int(); break;
	case FLT: (void) a.read_float(); break;
	case BYTE: (void) a.read_byte(); break;
	case WORD: (void) a.read_word(); break;
	case ENUM: (void) a.read_enum(); break;
	case BOOL: (void) a.read_bool(); break;
	case COLOR: (void) a.read_color(); break;
	case VEC3: (void) a.read_vec3(); break;
	case VEC2: case RAWF: (void) a.read_vec2(); break;
	case BBOX: (void) a.read_bbox(); break;
	case MAT3: (void) a.read_mat3x3(); break;
	case RAW: case RAWP: (void) a.read_raw(1); break;
	default: break;
	}
}
static void finish(ReadArchive& r, Val const& tail) {
	CHECK(r.read_object_end());
	ArchiveObject obj;
	CHECK(r.read_object_begin(obj));
	CHECK(obj.class_name == "zCEnd");
	CHECK(obj.object_name == "end");
	CHECK(same(r.read_int(), tail.i));
	CHECK(r.read_object_end());
}
