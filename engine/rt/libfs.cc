// File system model for the symbolic executor: an in-memory tree behind
// std::filesystem, std::fstream and the memory mapping calls. File names are
// concrete, contents may be symbolic. Compiled with -fno-access-control, since
// the compiled parts of libstdc++'s path class are written out here.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <cerrno>
#include <cstdint>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <memory>
#include <string>
#include <vector>
#include <sys/stat.h>

extern "C" {
void zse_giveup(const char*);
void zse_assert(int, const char*);
}
namespace {
constexpr char SCRATCH[] = "/zse/scratch";
struct Node { std::string path; bool dir; std::vector<char> data; std::filesystem::file_time_type time {std::chrono::seconds(1700000000ll - 6437664000ll)}; };
std::vector<Node*>& store() {
	static std::vector<Node*> s;
	if (s.empty()) for (char const* p : {"/", "/zse", SCRATCH}) s.push_back(new Node {p, true, {}});
	return s;
}
std::string norm(std::string const& in) {
	std::string p = !in.empty() && in[0] == '/' ? in : std::string(SCRATCH) + "/" + in, out;
	for (size_t i = 0; i < p.size();) {
		size_t e = p.find('/', i);
		if (e == std::string::npos) e = p.size();
		std::string c = p.substr(i, e - i);
		if (c == "..") { size_t k = out.rfind('/'); out.resize(k == std::string::npos ? 0 : k); }
		else if (!c.empty() && c != ".") out += "/" + c;
		i = e + 1;
	}
	return out.empty() ? "/" : out;
}
Node* lookup(std::string const& n) {
	for (Node* x : store()) if (x->path == n) return x;
	return nullptr;
}
Node* at_path(std::string const& p) { return p.empty() ? nullptr : lookup(norm(p)); }
std::string parent(std::string const& n) { size_t k = n.rfind('/'); return k == 0 ? "/" : n.substr(0, k); }
bool below(std::string const& n, std::string const& dir) { return n.size() > dir.size() && n.compare(0, dir.size(), dir) == 0 && n[dir.size()] == '/'; }
void contained(std::string const& n) { zse_assert(n == SCRATCH || below(n, SCRATCH), "files outside of the given directory are not changed"); }
Node* make(std::string const& n, bool dir) {
	contained(n);
	Node* up = lookup(parent(n));
	if (!up || !up->dir) return nullptr;
	Node* x = new Node {n, dir, {}};
	store().push_back(x);
	return x;
}
void drop(Node* x) {
	contained(x->path);
	auto& s = store();
	for (size_t i = 0; i < s.size(); ++i) if (s[i] == x) { s.erase(s.begin() + (long) i); break; }
	// the node stays valid: an open file outlives its name
}
struct Open { Node* n; long pos; };
}
extern "C" {
char const* zse_scratch() { store(); return SCRATCH; }
static std::vector<Node*>& fds() { static std::vector<Node*> v; return v; }
int open(const char* p, int flags, ...) {
	Node* x = at_path(p);
	if (!x || (flags & 3) != 0) { errno = ENOENT; return -1; }
	fds().push_back(x);
	return (int) fds().size() + 2;
}
int close(int fd) {
	if (fd < 3 || (size_t) (fd - 3) >= fds().size() || !fds()[(size_t) (fd - 3)]) { errno = EBADF; return -1; }
	fds()[(size_t) (fd - 3)] = nullptr;
	return 0;
}
unsigned zse_open_files() { unsigned n = 0; for (Node* x : fds()) n += x != nullptr; return n; }
int fstat(int fd, struct stat* st) noexcept {
	if (fd < 3 || (size_t) (fd - 3) >= fds().size() || !fds()[(size_t) (fd - 3)]) return -1;
	Node* x = fds()[(size_t) (fd - 3)];
	memset(st, 0, sizeof *st);
	st->st_size = x->dir ? 4096 : (long) x->data.size();
	st->st_mode = x->dir ? 0040755 : 0100644;
	return 0;
}
void* mmap(void*, size_t n, int, int, int fd, long off) {
	if (n == 0 || fd < 3 || (size_t) (fd - 3) >= fds().size() || off != 0) return (void*) -1;
	Node* x = fds()[(size_t) (fd - 3)];
	if (!x || x->dir || n > x->data.size()) return (void*) -1;
	char* p = (char*) ::operator new(n);
	memcpy(p, x->data.data(), n);
	return p;
}
int munmap(void* p, size_t n) { if (p != (void*) -1 && n) ::operator delete(p); return 0; }
}

// ------------------------------------------------------------ path
namespace std::filesystem {
struct path::_List::_Impl { std::vector<path::_Cmpt> v; };
static path::_List::_Impl* raw(path::_List::_Impl* p) { return reinterpret_cast<path::_List::_Impl*>(reinterpret_cast<uintptr_t>(p) & ~(uintptr_t) 3); }
void path::_List::_Impl_deleter::operator()(_Impl* p) const noexcept { delete raw(p); }
path::_List::_List() : _M_impl(reinterpret_cast<_Impl*>((uintptr_t) _Type::_Filename)) {}
path::_List::_List(_List const& o) {
	if (_Impl* p = raw(o._M_impl.get())) _M_impl.reset(new _Impl {p->v});
	else _M_impl.reset(o._M_impl.get());
}
path::_List& path::_List::operator=(_List const& o) {
	if (this == &o) return *this;
	if (_Impl* p = raw(o._M_impl.get())) _M_impl.reset(new _Impl {p->v});
	else _M_impl.reset(o._M_impl.get());
	return *this;
}
void path::_List::type(_Type t) noexcept { _M_impl.reset(t == _Type::_Multi ? new _Impl : reinterpret_cast<_Impl*>((uintptr_t) t)); }
int path::_List::size() const noexcept { _Impl* p = raw(_M_impl.get()); return p ? (int) p->v.size() : 0; }
bool path::_List::empty() const noexcept { return size() == 0; }
void path::_List::clear() { if (_Impl* p = raw(_M_impl.get())) p->v.clear(); }
int path::_List::capacity() const noexcept { return size(); }
void path::_List::reserve(int, bool) {}
path::_List::iterator path::_List::begin() noexcept { return raw(_M_impl.get())->v.data(); }
path::_List::iterator path::_List::end() noexcept { return begin() + size(); }
path::_List::const_iterator path::_List::begin() const noexcept { return raw(_M_impl.get())->v.data(); }
path::_List::const_iterator path::_List::end() const noexcept { return begin() + size(); }
path::_Cmpt& path::_List::front() noexcept { return *begin(); }
path::_Cmpt& path::_List::back() noexcept { return end()[-1]; }
path::_Cmpt const& path::_List::front() const noexcept { return *begin(); }
path::_Cmpt const& path::_List::back() const noexcept { return end()[-1]; }
path::path(basic_string_view<value_type> s, _Type t) : _M_pathname(s) { _M_cmpts.type(t); }
path::_Cmpt::_Cmpt(basic_string_view<value_type> s, _Type t, size_t pos) : path(s, t), _M_pos(pos) {}
void path::_M_split_cmpts() {
	string_type const& s = _M_pathname;
	if (s.find('/') == string_type::npos) { _M_cmpts.type(_Type::_Filename); return; }
	if (s.find_first_not_of('/') == string_type::npos) { _M_cmpts.type(_Type::_Root_dir); return; }
	_M_cmpts.type(_Type::_Multi);
	auto& v = raw(_M_cmpts._M_impl.get())->v;
	size_t i = 0;
	if (s[0] == '/') { v.push_back(_Cmpt("/", _Type::_Root_dir, 0)); while (s[i] == '/') ++i; }
	while (i < s.size()) {
		size_t e = s.find('/', i);
		if (e == string_type::npos) { v.push_back(_Cmpt(basic_string_view<value_type>(s).substr(i), _Type::_Filename, i)); return; }
		v.push_back(_Cmpt(basic_string_view<value_type>(s).substr(i, e - i), _Type::_Filename, i));
		while (e < s.size() && s[e] == '/') ++e;
		i = e;
	}
	v.push_back(_Cmpt("", _Type::_Filename, s.size()));
}
bool path::has_root_name() const noexcept { return false; }
bool path::has_root_directory() const noexcept { return !_M_pathname.empty() && _M_pathname[0] == '/'; }
bool path::has_root_path() const noexcept { return has_root_directory(); }
bool path::has_relative_path() const noexcept { return _M_pathname.find_first_not_of('/') != string_type::npos; }
path path::root_path() const { return has_root_directory() ? path("/") : path(); }
path path::root_name() const { return path(); }
path path::root_directory() const { return root_path(); }
path path::relative_path() const { size_t k = _M_pathname.find_first_not_of('/'); return k == string_type::npos ? path() : path(_M_pathname.substr(k)); }
bool path::has_parent_path() const noexcept { return _M_pathname.find('/') != string_type::npos; }
path path::parent_path() const {
	size_t k = _M_pathname.rfind('/');
	if (k == string_type::npos) return path();
	if (!has_relative_path()) return *this;
	while (k > 0 && _M_pathname[k - 1] == '/') --k;
	return path(k == 0 ? string_type("/") : _M_pathname.substr(0, k));
}
path& path::operator=(path const& o) { if (this != &o) { _M_pathname = o._M_pathname; _M_cmpts = o._M_cmpts; } return *this; }
void path::_M_append(basic_string_view<value_type> s) {
	if (!s.empty() && s[0] == '/') _M_pathname = string_type(s);
	else {
		if (!_M_pathname.empty() && _M_pathname.back() != '/') _M_pathname += '/';
		_M_pathname += string_type(s);
	}
	_M_split_cmpts();
}
path& path::operator/=(path const& p) { string_type c = p._M_pathname; _M_append(c); return *this; }
void path::_M_concat(basic_string_view<value_type> s) { _M_pathname += string_type(s); _M_split_cmpts(); }
path& path::operator+=(path const& p) { string_type c = p._M_pathname; _M_concat(c); return *this; }
pair<path::string_type const*, size_t> path::_M_find_extension() const noexcept {
	string_type const* s = nullptr;
	if (_M_cmpts.type() == _Type::_Filename) s = &_M_pathname;
	else if (_M_cmpts.type() == _Type::_Multi && !_M_cmpts.empty()) { auto& c = _M_cmpts.back(); if (c._M_cmpts.type() == _Type::_Filename) s = &c._M_pathname; }
	if (!s || s->empty()) return {};
	if (*s == "." || *s == "..") return {s, string_type::npos};
	size_t k = s->rfind('.');
	return {s, k ? k : string_type::npos};
}
path& path::replace_extension(path const& r) {
	auto e = _M_find_extension();
	if (e.first && e.second != string_type::npos) {
		size_t at = e.first == &_M_pathname ? e.second : _M_cmpts.back()._M_pos + e.second;
		_M_pathname.resize(at);
	}
	if (!r._M_pathname.empty() && r._M_pathname[0] != '.') _M_pathname += '.';
	_M_pathname += r._M_pathname;
	_M_split_cmpts();
	return *this;
}
path& path::remove_filename() {
	size_t k = _M_pathname.rfind('/');
	_M_pathname.resize(k == string_type::npos ? 0 : k + 1);
	_M_split_cmpts();
	return *this;
}
path& path::replace_filename(path const& r) { remove_filename(); return operator/=(r); }
static std::vector<std::string> parts(std::string_view s) {
	std::vector<std::string> v;
	size_t i = 0;
	if (!s.empty() && s[0] == '/') { v.push_back("/"); while (i < s.size() && s[i] == '/') ++i; if (i == s.size()) return v; }
	while (i <= s.size()) {
		size_t e = s.find('/', i);
		if (e == std::string_view::npos) { if (i < s.size() || i > 0) v.push_back(std::string(s.substr(i))); break; }
		v.push_back(std::string(s.substr(i, e - i)));
		while (e < s.size() && s[e] == '/') ++e;
		i = e;
	}
	return v;
}
int path::compare(basic_string_view<value_type> s) const noexcept {
	bool ra = has_root_directory(), rb = !s.empty() && s[0] == '/';
	if (ra != rb) return ra ? 1 : -1;
	auto a = parts(_M_pathname), b = parts(s);
	for (size_t i = 0; i < a.size() && i < b.size(); ++i) if (int c = a[i].compare(b[i])) return c;
	return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
}
int path::compare(path const& p) const noexcept { return compare(basic_string_view<value_type>(p._M_pathname)); }
path path::lexically_normal() const {
	string_type in = _M_pathname;
	if (in.empty()) return path();
	std::vector<std::string> out;
	bool root = in[0] == '/', slash = false;
	for (size_t i = 0; i < in.size();) {
		size_t e = in.find('/', i);
		bool last = e == string_type::npos;
		if (last) e = in.size();
		string_type c = in.substr(i, e - i);
		slash = !last;
		if (c == "..") { slash = true; if (!out.empty() && out.back() != "..") out.pop_back(); else if (!root) { out.push_back(c); slash = false; } }
		else if (c == ".") slash = true;
		else if (!c.empty()) out.push_back(c);
		i = e + 1;
	}
	string_type r = root ? "/" : "";
	for (size_t i = 0; i < out.size(); ++i) { if (i) r += '/'; r += out[i]; }
	if (slash && !out.empty() && out.back() != "..") r += '/';
	if (r.empty()) r = ".";
	return path(r);
}

// ------------------------------------------------------------ errors
struct filesystem_error::_Impl { std::string what; path p1, p2; };
filesystem_error::filesystem_error(string const& w, error_code c) : system_error(c, w), _M_impl(std::__make_shared<_Impl>(_Impl {w, {}, {}})) {}
filesystem_error::filesystem_error(string const& w, path const& a, error_code c) : system_error(c, w), _M_impl(std::__make_shared<_Impl>(_Impl {w, a, {}})) {}
filesystem_error::filesystem_error(string const& w, path const& a, path const& b, error_code c) : system_error(c, w), _M_impl(std::__make_shared<_Impl>(_Impl {w, a, b})) {}
filesystem_error::~filesystem_error() = default;
path const& filesystem_error::path1() const noexcept { return _M_impl->p1; }
path const& filesystem_error::path2() const noexcept { return _M_impl->p2; }
char const* filesystem_error::what() const noexcept { return _M_impl->what.c_str(); }
[[noreturn]] static void fail(char const* what, path const& p, errc e) { throw filesystem_error(what, p, std::make_error_code(e)); }

// ------------------------------------------------------------ operations
file_status status(path const& p, error_code& ec) noexcept {
	ec.clear();
	Node* x = at_path(p.native());
	return file_status(!x ? file_type::not_found : x->dir ? file_type::directory : file_type::regular, perms::all);
}
file_status status(path const& p) { error_code ec; return status(p, ec); }
file_status symlink_status(path const& p, error_code& ec) noexcept { return status(p, ec); }
file_status symlink_status(path const& p) { return status(p); }
uintmax_t file_size(path const& p, error_code& ec) noexcept {
	Node* x = at_path(p.native());
	if (!x || x->dir) { ec = std::make_error_code(x ? errc::is_a_directory : errc::no_such_file_or_directory); return (uintmax_t) -1; }
	ec.clear();
	return x->data.size();
}
uintmax_t file_size(path const& p) { error_code ec; auto n = file_size(p, ec); if (n == (uintmax_t) -1) fail("cannot get file size", p, errc::no_such_file_or_directory); return n; }
file_time_type last_write_time(path const& p, error_code& ec) noexcept {
	Node* x = at_path(p.native());
	if (!x) { ec = std::make_error_code(errc::no_such_file_or_directory); return file_time_type::min(); }
	ec.clear();
	return x->time;
}
void last_write_time(path const& p, file_time_type t) {
	Node* x = at_path(p.native());
	if (!x) fail("cannot set file time", p, errc::no_such_file_or_directory);
	contained(x->path);
	x->time = t;
}
file_time_type last_write_time(path const& p) { error_code ec; auto t = last_write_time(p, ec); if (t == file_time_type::min()) fail("cannot get file time", p, errc::no_such_file_or_directory); return t; }
bool is_empty(path const& p) {
	Node* x = at_path(p.native());
	if (!x) fail("cannot check if file is empty", p, errc::no_such_file_or_directory);
	if (!x->dir) return x->data.empty();
	for (Node* y : store()) if (below(y->path, x->path)) return false;
	return true;
}
bool create_directory(path const& p) {
	Node* x = at_path(p.native());
	if (x) { if (!x->dir) fail("cannot create directory", p, errc::file_exists); return false; }
	if (p.empty() || !make(norm(p.native()), true)) fail("cannot create directory", p, errc::no_such_file_or_directory);
	return true;
}
bool create_directory(path const& p, error_code& ec) noexcept { try { ec.clear(); return create_directory(p); } catch (...) { ec = std::make_error_code(errc::io_error); return false; } }
bool create_directories(path const& p) {
	if (p.empty()) fail("cannot create directories", p, errc::invalid_argument);
	std::string n = norm(p.native());
	Node* x = lookup(n);
	if (x) { if (!x->dir) fail("cannot create directories", p, errc::not_a_directory); return false; }
	if (!lookup(parent(n))) create_directories(path(parent(n)));
	if (!make(n, true)) fail("cannot create directories", p, errc::not_a_directory);
	return true;
}
bool create_directories(path const& p, error_code& ec) { try { ec.clear(); return create_directories(p); } catch (...) { ec = std::make_error_code(errc::io_error); return false; } }
bool remove(path const& p) {
	Node* x = at_path(p.native());
	if (!x) return false;
	if (x->dir) for (Node* y : store()) if (below(y->path, x->path)) fail("cannot remove", p, errc::directory_not_empty);
	drop(x);
	return true;
}
bool remove(path const& p, error_code& ec) noexcept { try { ec.clear(); return remove(p); } catch (...) { ec = std::make_error_code(errc::io_error); return false; } }
uintmax_t remove_all(path const& p) {
	Node* x = at_path(p.native());
	if (!x) return 0;
	uintmax_t n = 0;
	std::string at = x->path;
	for (auto all = store(); Node* y : all) if (below(y->path, at)) { drop(y); ++n; }
	drop(x);
	return n + 1;
}
uintmax_t remove_all(path const& p, error_code& ec) { ec.clear(); return remove_all(p); }
bool copy_file(path const& from, path const& to, copy_options o) {
	Node* x = at_path(from.native());
	Node* y = at_path(to.native());
	if (!x || x->dir) fail("cannot copy file", from, errc::no_such_file_or_directory);
	if (y) {
		if (y->dir || y == x) fail("cannot copy file", to, errc::file_exists);
		if ((o & copy_options::skip_existing) != copy_options::none) return false;
		if ((o & copy_options::overwrite_existing) == copy_options::none) { if ((o & copy_options::update_existing) != copy_options::none) zse_giveup("copy_options::update_existing"); fail("cannot copy file", to, errc::file_exists); }
		contained(y->path);
	} else if (!(y = make(norm(to.native()), false))) fail("cannot copy file", to, errc::no_such_file_or_directory);
	y->data = x->data;
	return true;
}
bool copy_file(path const& from, path const& to, copy_options o, error_code& ec) { try { ec.clear(); return copy_file(from, to, o); } catch (...) { ec = std::make_error_code(errc::io_error); return false; } }
static void copyTree(path const& from, path const& to, copy_options o, bool top) {
	Node* x = at_path(from.native());
	if (!x) fail("cannot copy", from, errc::no_such_file_or_directory);
	Node* y = at_path(to.native());
	if (x == y) fail("cannot copy", to, errc::file_exists);
	if (x->dir) {
		if (y && !y->dir) fail("cannot copy", to, errc::is_a_directory);
		bool rec = (o & copy_options::recursive) != copy_options::none;
		if (!rec && !top) return;
		if (!y && !make(norm(to.native()), true)) fail("cannot copy", to, errc::no_such_file_or_directory);
		std::string at = x->path;
		for (auto all = store(); Node* z : all)
			if (below(z->path, at) && parent(z->path) == at) copyTree(path(z->path), to / z->path.substr(at.size() + 1), o, false);
		return;
	}
	if (y && y->dir) copy_file(from, to / from.filename(), o); else copy_file(from, to, o);
}
void copy(path const& from, path const& to, copy_options o) { copyTree(from, to, o, true); }
void copy(path const& from, path const& to, copy_options o, error_code& ec) { try { ec.clear(); copyTree(from, to, o, true); } catch (...) { ec = std::make_error_code(errc::io_error); } }
void rename(path const& from, path const& to) {
	Node* x = at_path(from.native());
	if (!x) fail("cannot rename", from, errc::no_such_file_or_directory);
	std::string a = x->path, b = norm(to.native());
	if (a == b) return;
	contained(a); contained(b);
	Node* y = lookup(b);
	if (y) { if (y->dir != x->dir || (y->dir && !is_empty(to))) fail("cannot rename", to, errc::file_exists); drop(y); }
	Node* up = lookup(parent(b));
	if (!up || !up->dir || below(b, a)) fail("cannot rename", to, errc::no_such_file_or_directory);
	for (Node* z : store()) if (below(z->path, a)) z->path = b + z->path.substr(a.size());
	x->path = b;
}
void rename(path const& from, path const& to, error_code& ec) noexcept { try { ec.clear(); rename(from, to); } catch (...) { ec = std::make_error_code(errc::io_error); } }
path current_path() { return path(SCRATCH); }
path absolute(path const& p) { return p.is_absolute() ? p : current_path() / p; }
path temp_directory_path() { return path(SCRATCH); }
bool equivalent(path const& a, path const& b) {
	Node *x = at_path(a.native()), *y = at_path(b.native());
	if (!x && !y) fail("cannot check file equivalence", a, errc::no_such_file_or_directory);
	return x == y;
}
bool equivalent(path const& a, path const& b, error_code& ec) noexcept {
	Node *x = at_path(a.native()), *y = at_path(b.native());
	ec.clear();
	if (!x && !y) { ec = std::make_error_code(errc::no_such_file_or_directory); return false; }
	return x == y;
}
struct __cxx11::_Dir { std::vector<directory_entry> v; size_t i = 0; void add(path const& p, file_type t) { v.push_back(directory_entry(p, t)); } };
directory_iterator::directory_iterator(path const& p, directory_options, error_code* ec) {
	Node* x = at_path(p.native());
	if (ec) ec->clear();
	if (!x || !x->dir) {
		if (!ec) fail("cannot open directory", p, x ? errc::not_a_directory : errc::no_such_file_or_directory);
		*ec = std::make_error_code(x ? errc::not_a_directory : errc::no_such_file_or_directory);
		return;
	}
	auto d = std::__make_shared<_Dir>();
	for (Node* y : store()) if (y->path != x->path && parent(y->path) == x->path) d->add(p / y->path.substr(x->path == "/" ? 1 : x->path.size() + 1), y->dir ? file_type::directory : file_type::regular);
	if (!d->v.empty()) _M_dir = d;
}
directory_entry const& directory_iterator::operator*() const noexcept { return _M_dir->v[_M_dir->i]; }
directory_iterator& directory_iterator::operator++() { if (++_M_dir->i >= _M_dir->v.size()) _M_dir.reset(); return *this; }
directory_iterator& directory_iterator::increment(error_code& ec) { ec.clear(); return ++*this; }
} // namespace std::filesystem

// ------------------------------------------------------------ file streams (the node hangs at _M_ext_buf, the position in _M_ext_buf_size)
namespace std {
__basic_file<char>::__basic_file(__c_lock*) noexcept : _M_cfile(nullptr), _M_cfile_created(false) {}
__basic_file<char>::~__basic_file() {}
bool __basic_file<char>::is_open() const noexcept { return _M_cfile_created; }
typedef basic_filebuf<char> FB;
static Node* node(FB& f) { return (Node*) (void*) f._M_ext_buf; }
template<> basic_filebuf<char>::basic_filebuf()
    : basic_streambuf<char>(), _M_lock(), _M_file(&_M_lock), _M_mode(ios_base::openmode(0)), _M_state_beg(), _M_state_cur(), _M_state_last(), _M_buf(nullptr), _M_buf_size(0),
      _M_buf_allocated(false), _M_reading(false), _M_writing(false), _M_pback(), _M_pback_cur_save(nullptr), _M_pback_end_save(nullptr), _M_pback_init(false), _M_codecvt(nullptr),
      _M_ext_buf(nullptr), _M_ext_buf_size(0), _M_ext_next(nullptr), _M_ext_end(nullptr) {}
template<> basic_filebuf<char>* basic_filebuf<char>::open(char const* name, ios_base::openmode m) {
	if (is_open()) return nullptr;
	Node* x = at_path(name);
	bool out = (m & (ios_base::out | ios_base::app)) != 0;
	if (x && x->dir) return nullptr;
	if (out) {
		contained(norm(name));
		bool trunc = (m & ios_base::trunc) || !(m & (ios_base::in | ios_base::app));
		if (!x) { if ((m & ios_base::in) && !(m & (ios_base::trunc | ios_base::app))) return nullptr; x = make(norm(name), false); if (!x) return nullptr; }
		else if (trunc) x->data.clear();
	} else if (!x) return nullptr;
	_M_file._M_cfile_created = true;
	_M_mode = m; _M_ext_buf = (char*) (void*) x; _M_ext_buf_size = (m & ios_base::ate) ? (streamsize) x->data.size() : 0;
	return this;
}
template<> basic_filebuf<char>* basic_filebuf<char>::close() {
	if (!is_open()) return nullptr;
	_M_file._M_cfile_created = false; _M_ext_buf = nullptr; _M_ext_buf_size = 0;
	return this;
}
template<> streamsize basic_filebuf<char>::xsputn(char const* s, streamsize n) {
	if (!is_open() || !(_M_mode & (ios_base::out | ios_base::app)) || n <= 0) return 0;
	auto& d = node(*this)->data;
	if (_M_mode & ios_base::app) _M_ext_buf_size = (streamsize) d.size();
	size_t at = (size_t) _M_ext_buf_size, need = at + (size_t) n;
	if (need > d.size()) { if (need > d.capacity()) d.reserve(need < 1024 ? 1024 : need * 2); d.resize(need); }
	memcpy(d.data() + at, s, (size_t) n);
	_M_ext_buf_size += n;
	return n;
}
template<> int basic_filebuf<char>::overflow(int c) { if (c == -1) return 0; char x = (char) c; return xsputn(&x, 1) == 1 ? c : -1; }
template<> streamsize basic_filebuf<char>::xsgetn(char* s, streamsize n) {
	if (!is_open() || !(_M_mode & ios_base::in)) return 0;
	auto& d = node(*this)->data;
	streamsize left = (streamsize) d.size() - _M_ext_buf_size;
	if (left <= 0) return 0;
	if (n > left) n = left;
	if (n > 0) memcpy(s, d.data() + _M_ext_buf_size, (size_t) n);
	_M_ext_buf_size += n;
	return n;
}
template<> int basic_filebuf<char>::underflow() {
	if (!is_open() || !(_M_mode & ios_base::in)) return -1;
	auto& d = node(*this)->data;
	if (_M_ext_buf_size >= (streamsize) d.size()) return -1;
	// a get area of one character: the file position is behind it while it is not consumed
	_M_pback = d[(size_t) _M_ext_buf_size];
	++_M_ext_buf_size;
	setg(&_M_pback, &_M_pback, &_M_pback + 1);
	return (unsigned char) _M_pback;
}
template<> basic_filebuf<char>::pos_type basic_filebuf<char>::seekoff(off_type o, ios_base::seekdir w, ios_base::openmode) {
	if (!is_open()) return pos_type(off_type(-1));
	if (gptr() && gptr() < egptr()) --_M_ext_buf_size;
	setg(nullptr, nullptr, nullptr);
	off_type base = w == ios_base::beg ? 0 : w == ios_base::cur ? (off_type) _M_ext_buf_size : (off_type) node(*this)->data.size();
	if (base + o < 0) return pos_type(off_type(-1));
	_M_ext_buf_size = base + o;
	return pos_type(base + o);
}
template<> basic_filebuf<char>::pos_type basic_filebuf<char>::seekpos(pos_type p, ios_base::openmode m) { return seekoff(off_type(p), ios_base::beg, m); }
template<> int basic_filebuf<char>::sync() { return 0; }
template<> void basic_filebuf<char>::imbue(locale const&) {}
template<> streamsize basic_filebuf<char>::showmanyc() { return is_open() ? (streamsize) node(*this)->data.size() - _M_ext_buf_size : -1; }
template<> int basic_filebuf<char>::pbackfail(int) { zse_giveup("filebuf-pbackfail"); return -1; }
template<> basic_streambuf<char>* basic_filebuf<char>::setbuf(char*, streamsize) { return this; }
template class basic_filebuf<char>;
template class basic_ifstream<char>;
template class basic_ofstream<char>;
template class basic_fstream<char>;
}
