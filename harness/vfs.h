// a reference model of the virtual file system
#pragma once
#include "zse.h"
#include <utility>
#include <zenkit/Stream.hh>
#include <zenkit/Vfs.hh>
using namespace zenkit;
inline unsigned char low(char c) { unsigned char u = (unsigned char) c; return (unsigned char) (u | (unsigned) ((u >= 65) & (u <= 90)) << 5); }
inline bool blank(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
// names are equal if they differ in letter case only
inline bool ieq(std::string_view a, std::string_view b) {
	if (a.size() != b.size()) return false;
	bool e = true;
	for (size_t i = 0; i < a.size(); ++i) e &= low(a[i]) == low(b[i]);
	return e;
}
inline std::string trimmed(std::string s) { while (!s.empty() && blank(s.back())) s.pop_back(); return s; }
// an arbitrary name of n bytes without path separator and without trailing white space
inline std::string sym_name(size_t n, char const* what) {
	std::string s = sym_raw(n, what);
	for (char c : s) ASSUME((c != '/') & (c != 0));
	if (n) ASSUME(!blank(s.back()));
	return s;
}
struct Mod {
	std::string name;
	bool file = false;
	std::string data;
	std::vector<Mod> kids;
	Mod* child(std::string_view n) { for (auto& k : kids) if (ieq(k.name, n)) return &k; return nullptr; }
	bool drop(std::string_view n) { for (size_t i = 0; i < kids.size(); ++i) if (ieq(kids[i].name, n)) { kids.erase(kids.begin() + (long) i); return true; } return false; }
	Mod* add(Mod m) { drop(m.name); kids.push_back(std::move(m)); return &kids.back(); }
	size_t count() const { size_t n = 1; for (auto& k : kids) n += k.count(); return n; }
};
inline std::string content(VfsNode const& n) {
	auto r = n.open_read();
	r->seek(0, Whence::END);
	auto size = r->tell();
	r->seek(0, Whence::BEG);
	CHECK(size < 8192);
	if (size >= 8192) return "?";
	std::string s(size, '\0');
	CHECK(r->read(s.data(), s.size()) == s.size());
	return s;
}
inline VfsFileDescriptor own(std::string const& s) { auto* p = new std::byte[s.size() + 1]; memcpy(p, s.data(), s.size()); return VfsFileDescriptor(p, s.size(), true); }
// the directory holds exactly what the model holds; names literally if `exact`
inline void compare(VfsNode const& n, Mod& m, bool exact = true) {
	CHECK(n.type() == VfsNodeType::DIRECTORY);
	CHECK(n.children().size() == m.kids.size());
	for (auto& k : m.kids) {
		auto* c = n.child(k.name);
		CHECK(c != nullptr);
		if (!c) continue;
		if (exact) CHECK(same(c->name(), k.name));
		else CHECK(ieq(c->name(), k.name));
		CHECK((c->type() == VfsNodeType::FILE) == k.file);
		if ((c->type() == VfsNodeType::FILE) != k.file) continue;
		if (k.file) CHECK(same(content(*c), k.data));
		else compare(*c, k, exact);
	}
}
// ------------------------------------------------------------ disk archives, independent of the library
struct Disk {
	std::vector<std::byte> b;
	void raw(void const* p, size_t n) { auto* q = (std::byte const*) p; b.insert(b.end(), q, q + n); }
	void u32(uint32_t v) { raw(&v, 4); }
	void put(size_t o, uint32_t v) { memcpy(b.data() + o, &v, 4); }
	uint32_t get(size_t o) const { uint32_t v; memcpy(&v, b.data() + o, 4); return v; }
};
inline void disk_entries(Disk& d, Mod const& m, std::vector<std::pair<size_t, Mod const*>>& files) {
	std::vector<std::pair<size_t, Mod const*>> dirs;
	size_t i = 0;
	for (auto& k : m.kids) {
		std::string n = k.name;
		n.resize(64, ' ');
		d.raw(n.data(), 64);
		(k.file ? files : dirs).emplace_back(d.b.size(), &k);
		d.u32(0);
		d.u32((uint32_t) k.data.size());
		d.u32((k.file ? 0 : 0x80000000u) | (++i == m.kids.size() ? 0x40000000u : 0));
		d.u32(0);
	}
	for (auto& [off, k] : dirs) {
		d.put(off, (uint32_t) ((d.b.size() - 296) / 80));
		disk_entries(d, *k, files);
	}
}
inline std::vector<std::byte> disk_of(Mod const& root, uint32_t dos, unsigned version = 0) {
	Disk d;
	std::string comment = "c";
	comment.resize(256, '\x1A');
	d.raw(comment.data(), 256);
	d.raw(version == 0 ? "PSVDSC_V2.00\n\r\n\r" : version == 1 ? "PSVDSC_V2.00\r\n\r\n" : "PSVDSC_V2.00\x1A\x1A\x1A\x1A", 16);
	d.u32((uint32_t) root.count() - 1);
	d.u32(0);
	d.u32(dos);
	d.u32(0);
	d.u32(296);
	d.u32(0x50);
	std::vector<std::pair<size_t, Mod const*>> files;
	disk_entries(d, root, files);
	for (auto& [off, k] : files) { d.put(off, (uint32_t) d.b.size()); d.raw(k->data.data(), k->data.size()); }
	return d.b;
}
// decodes a well-formed catalog; CHECKs that it is one
inline void disk_decode(Disk const& d, size_t index, size_t count, unsigned depth, Mod& into) {
	size_t cat = d.get(288);
	for (unsigned n = 0;; ++n) {
		CHECK(index < count && n < 400 && depth < 40);
		if (index >= count || n >= 400 || depth >= 40) return;
		size_t o = cat + index++ * 80;
		std::string name((char const*) d.b.data() + o, 64);
		while (!name.empty() && name.back() == ' ') name.pop_back();
		uint32_t off = d.get(o + 64), size = d.get(o + 68), type = d.get(o + 72);
		Mod m {name, !(type & 0x80000000u), "", {}};
		if (m.file) {
			bool in = off <= d.b.size() && size <= d.b.size() - off;
			CHECK(in);
			if (in) m.data.assign((char const*) d.b.data() + off, size);
		} else disk_decode(d, off, count, depth + 1, m);
		into.kids.push_back(std::move(m));
		if (type & 0x40000000u) break;
	}
}
