// C29: cutscene libraries return exactly the requested dialogue block
//@bound libraries of 0..3 blocks with arbitrary distinct names of 1..2 bytes (other than NUL, CR, LF), looked up with an arbitrary name of 0..2 bytes; message type, text and sound file arbitrary; three archive formats
//@bound libraries of 300 blocks and names of 100, 127, 128 and 300 bytes, looked up with every stored name, its prefixes and continuations and an arbitrary last byte
//@outside equal names; names of more than 300 bytes
#include "vob.h"
#include <zenkit/CutsceneLibrary.hh>
template <int FM> static void run(unsigned n) {
	Ctx c {FMT[FM], GameVersion::GOTHIC_2, false};
	Fill f {c};
	Same s {c};
	c.k = choose(0, 1, "k");
	auto o = std::make_shared<CutsceneLibrary>();
	for (unsigned i = 0; i < n; ++i) {
		auto b = std::make_shared<CutsceneBlock>();
		b->name = sym_line((i + c.k) % 2 + 1, "name");
		for (auto& p : o->blocks) if (p->name.size() == b->name.size()) ASSUME(!same(p->name, b->name));
		auto m = b->get_message();
		f.en(m->type); m->text = sym_line(2, "text"); m->name = sym_line(1, "sound");
		if (i == 1) { // a nested block carries its message
			auto outer = std::make_shared<CutsceneBlock>();
			outer->name = b->name; b->name = "inner"; outer->block = b; b = outer;
		}
		o->blocks.push_back(b);
	}
	auto p = round_trip(c, o);
	CHECK(p->blocks.size() == n);
	unsigned ql = choose(0, 2, "qlen");
	std::string q = sym_line(ql, "query");
	std::shared_ptr<CutsceneBlock> want;
	for (auto& b : o->blocks) if (b->name == q) want = b;
	auto hit = p->block_by_name(q);
	CHECK((hit != nullptr) == (want != nullptr));
	if (hit && want) {
		CHECK(same(hit->name, want->name));
		auto x = want->get_message(), y = hit->get_message();
		CHECK(y != nullptr);
		s(x->type, y->type); s(x->text, y->text); s(x->name, y->name);
	}
	// every stored block is found again
	for (auto& b : o->blocks) { auto h = p->block_by_name(b->name); CHECK(h != nullptr); if (h) { CHECK(same(h->name, b->name)); CHECK(same(h->get_message()->text, b->get_message()->text)); } }
	for (size_t i = 1; i < p->blocks.size(); ++i) CHECK(p->blocks[i - 1]->name < p->blocks[i]->name);
}
HARNESS(C29_binary_2) { run<0>(choose(0, 2, "n")); }
HARNESS(C29_binsafe_2) { run<1>(choose(0, 2, "n")); }
HARNESS(C29_ascii_2) { run<2>(choose(0, 2, "n")); }
//@entry C29_binary_3 time=400
HARNESS(C29_binary_3) { run<0>(3); }
// many blocks, long names that differ in the last bytes only
template <int FM> static void many() {
	Ctx c {FMT[FM], GameVersion::GOTHIC_2, false};
	auto o = std::make_shared<CutsceneLibrary>();
	static unsigned const LEN[] = {1, 100, 127, 128, 300};
	size_t const L = LEN[choose(0, 4, "len")]; unsigned const N = L == 1 ? 300 : 40;
	std::string stem(L - 1, 'D'); for (size_t i = 0; i < stem.size(); ++i) stem[i] = (char) ('A' + i % 26);
	uint8_t t = sym<uint8_t>("t"); ASSUME((t != 0) & (t != '\n') & (t != '\r'));
	for (unsigned i = 0; i < N; ++i) {
		auto b = std::make_shared<CutsceneBlock>();
		unsigned k = i * 77 % N; // not in order
		b->name = stem + (char) ('!' + k / 20) + (char) ('!' + k % 20);
		auto m = b->get_message();
		m->type = k % 200; m->text = std::string(1, (char) t) + std::to_string(k); m->name = "SND" + std::to_string(k);
		if (k == 7) { m->text = std::string(L * 3, 'x') + (char) t; m->name = stem + "SND"; }
		o->blocks.push_back(b);
	}
	auto p = round_trip(c, o);
	CHECK(p->blocks.size() == N);
	for (auto& b : o->blocks) {
		auto h = p->block_by_name(b->name);
		CHECK(h != nullptr);
		if (!h) continue;
		CHECK(same(h->name, b->name));
		auto x = b->get_message(), y = h->get_message();
		CHECK(y != nullptr); if (!y) continue;
		CHECK(x->type == y->type); CHECK(same(x->text, y->text)); CHECK(same(x->name, y->name));
		CHECK(p->block_by_name(b->name + "!") == nullptr);
	}
	CHECK(p->block_by_name(stem) == nullptr); CHECK(p->block_by_name(stem + "!") == nullptr);
	uint8_t u = sym<uint8_t>("u"); ASSUME((u != 0) & (u != '\n') & (u != '\r'));
	auto h = p->block_by_name(stem + "!" + (char) u);
	CHECK((h != nullptr) == ((u >= '!') & (u < '!' + 20)));
	if (h) CHECK((uint8_t) h->name.back() == u);
}
//@entry C29_many_binary conc-limit=400
HARNESS(C29_many_binary) { many<0>(); }
//@entry C29_many_binsafe conc-limit=400
HARNESS(C29_many_binsafe) { many<1>(); }
//@entry C29_many_ascii conc-limit=400
HARNESS(C29_many_ascii) { many<2>(); }
