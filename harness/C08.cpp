// C08: Kuznyechik MAC equals the GOST R 34.13 MAC for every message.
#include "kz.hpp"
#include "main.hpp"
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>

using namespace kz;

static void subkeys_seen(const Kuz &c) {
	const u128 e = c.enc(0), k1 = dbl128(e);
	mon::event(e >> 127 ? (k1 >> 127 ? "subkeys: carry, carry" : "subkeys: carry, none") : (k1 >> 127 ? "subkeys: none, carry" : "subkeys: none, none"));
}
static void whole(const Cipher &c, const vector<u128> &b, bool own, const std::string &what) {
	const std::string ctx = mon::Msg() << c.what << " " << what << " of " << b.size() << " blocks" << (own ? ", own stream" : "");
	mon::note(ctx);
	const shared_ptr<const gk::Stream> s = own ? shared_ptr<const gk::Stream>(make_shared<OwnStream>(b)) : shared_ptr<const gk::Stream>(make_shared<gk::StMemory>(words(b)));
	const u128 got = val(gk::Imit(s, c.key).value()), want = kuz_mac(c.ref, b, 16);
	MON_REQUIRE(got == want, "mac", ctx << ": MAC " << hex128(got) << " expected " << hex128(want));
	mon::event("MACs of whole blocks"); mon::event("blocks", b.size());
	mon::seen(mon::hash_bytes(b.data(), b.size() * 16, mon::hash_str(c.what)));
}
static void checks() {
	mon::group("messages", mon::count(900), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		vector<u128> b(size_t(i < 24 ? i + 1 : 1 + long(r.below(10))));
		for (auto &x : b) x = gen::wide(r);
		if (i < 2) mon::sample(c.what + " blocks " + std::to_string(b.size()));
		whole(c, b, r.chance(1, 3), "message");
		subkeys_seen(c.ref);
	});
	// Inputs chosen so that intermediate states of the chain are special values.
	mon::group("crafted", mon::count(700), [](mon::Rng &r, long) {
		const auto c = cipher(r);
		vector<u128> b(1 + r.below(6));
		u128 s = 0;
		for (size_t i = 0; i < b.size(); i++) {
			const bool last = i + 1 == b.size();
			u128 in = gen::wide(r);                                   // input of the i-th encryption
			if (r.chance(1, 3)) in = c.ref.dec(gen::wide(r));          // or its output
			b[i] = in ^ s ^ (last ? dbl128(c.ref.enc(0)) : u128(0));
			s = c.ref.enc(in);
		}
		whole(c, b, r.chance(1, 3), "crafted message");
		mon::event("crafted chains");
	});
	mon::group("special-blocks", mon::count(400), [](mon::Rng &r, long) {
		const auto c = cipher(r);
		const u128 v = gen::wide(r);
		vector<u128> b(1 + r.below(7), v);                               // equal blocks, zero blocks
		if (r.chance(1, 2)) b[r.below(b.size())] = 0;
		whole(c, b, r.chance(1, 3), "repeating message");
		// a second evaluation and a second MAC object agree
		const auto st = make_shared<gk::StMemory>(words(b));
		const gk::Imit m(st, c.key);
		const auto x = m.value(), y = m.value(), z = gk::Imit(st, c.key).value();
		MON_REQUIRE(x == y && y == z, "repeat", c.what << ": repeated MACs differ");
	});
	mon::group("incomplete", mon::count(500), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		vector<u128> b(1 + (i < 30 ? size_t(i) / 8 : r.below(5)));
		for (auto &x : b) x = gen::wide(r);
		const bool mem = r.chance(1, 2);
		const size_t tail = mem ? 8 : 1 + r.below(15);
		b.back() &= (u128(1) << (8 * tail)) - 1;
		auto w = words(b); w.pop_back();
		const shared_ptr<const gk::Stream> s = mem ? shared_ptr<const gk::Stream>(make_shared<gk::StMemory>(w)) : shared_ptr<const gk::Stream>(make_shared<OwnStream>(b, tail));
		const std::string ctx = mon::Msg() << c.what << " message of " << b.size() << " blocks, the last of " << tail << " bytes" << (mem ? "" : ", own stream");
		mon::note(ctx);
		const u128 got = val(gk::Imit(s, c.key).value());
		bool ok = false;
		for (const u128 t : kuz_tail_values(b.back(), tail)) { auto x = b; x.back() = t; ok = ok || got == kuz_mac(c.ref, x, tail); }
		MON_REQUIRE(ok, "mac-incomplete", ctx << ": MAC " << hex128(got) << " is not masked with the second subkey; zero-filled value would be " << hex128(kuz_mac(c.ref, b, tail)));
		mon::event("MACs with incomplete last block");
		mon::seen(mon::hash_str(ctx) ^ lo64(b.back()));
	});
	mon::group("empty", 12, [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		shared_ptr<const gk::Stream> s = i % 2 ? shared_ptr<const gk::Stream>(make_shared<OwnStream>(vector<u128>{})) : shared_ptr<const gk::Stream>(make_shared<gk::StMemory>(vector<u64>{}));
		if (i % 3 == 2) s = make_shared<gk::StCTREncrypted>(s, c.key, gen::word(r));
		mon::note("MAC of an empty stream");
		bool threw = false;
		try { gk::Imit(s, c.key).value(); } catch (const std::exception &) { threw = true; }
		MON_REQUIRE(threw, "empty", c.what << ": the MAC of a stream without blocks was not refused");
		mon::event("empty streams refused");
	});

	mon::group("long", mon::count(8, 5), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		static const size_t base[] = {255, 256, 257, 511, 513, 1024, 600, 2049};
		vector<u128> b(base[i % 8]);
		for (auto &x : b) x = mk128(r.u(), r.u());
		whole(c, b, false, "long message");
		mon::event("long messages");
	});
	if (mon::opts().mode == "plain") mon::group("lengths", mon::thorough() ? 48 : 24, [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		vector<u128> b(std::max<size_t>(1, gen::about(r, int(i % (mon::thorough() ? 18 : 15)))));
		const auto kind = r.below(3);
		for (auto &x : b) x = kind == 0 ? 0 : mk128(r.u(), r.u());
		whole(c, b, i % 2, "message of any order of magnitude");
	});
	// Past the 16-bit number of blocks
	if (mon::opts().mode == "plain") mon::group("huge", mon::thorough() ? 32 : 8, [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		vector<u128> b(i == 0 ? 65536 + r.below(40) : mon::thorough() && i == 1 ? (1 << 20) + r.below(40) : 4096 * size_t(i % 4 + 1) + r.below(9));
		for (auto &x : b) x = mk128(r.u(), r.u());
		whole(c, b, i % 2, "huge message");
		mon::event("huge messages");
	});
}
