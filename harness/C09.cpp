// C09: Magma MAC equals the GOST R 34.13 MAC for every message.
#include "cfb.hpp"
#include "main.hpp"
#include <goost/magma/Imit.h>

using namespace cfbv;

static void subkeys_seen(const Magma &c) {
	const u64 e = c.enc(0), k1 = dbl64(e);
	mon::event(e >> 63 ? (k1 >> 63 ? "subkeys: carry, carry" : "subkeys: carry, none") : (k1 >> 63 ? "subkeys: none, carry" : "subkeys: none, none"));
	if (u32(e) >> 31) mon::event("subkeys: carry between halves");
}
static u64 mac(mon::Rng &r, const Cipher &c, const Bytes &m) {
	shared_ptr<const goost::Source> s;
	if (r.chance(1, 4)) {                        // over a decrypting source
		const auto v = var(r);
		s = source(v, make_shared<MemSource>(enc(v, c.ref, m)), c.key);
	} else s = make_shared<MemSource>(m);
	return val(gm::Imit(s, c.key).value());
}
static void run(mon::Rng &r, const Cipher &c, const Bytes &m, const std::string &what) {
	const std::string ctx = mon::Msg() << c.what << " " << what << " length " << m.size();
	mon::note(ctx);
	const u64 got = mac(r, c, m);
	if (m.size() % 8 == 0 && !m.empty()) {
		const u64 want = magma_mac_full(c.ref, m);
		MON_REQUIRE(got == want, "mac", ctx << ": MAC " << mon::hex(got) << " expected " << mon::hex(want));
		mon::event("MACs of whole blocks");
	} else {
		const size_t t = m.size() % 8;
		bool ok = false;
		for (const u64 v : magma_tail_values(m.data() + (m.size() - t), t)) ok = ok || got == magma_mac_tail(c.ref, m, v);
		MON_REQUIRE(ok, "mac-incomplete", ctx << ": MAC " << mon::hex(got) << " is not the padded block masked with the second subkey (zero padding gives " << mon::hex(magma_mac_tail(c.ref, m, le64(m.data() + (m.size() - t), t))) << ")");
		mon::event(m.empty() ? "MACs of empty messages" : "MACs with incomplete last block");
	}
	mon::event("blocks", (m.size() + 7) / 8);
	mon::seen(mon::hash_bytes(m.data(), m.size(), mon::hash_str(c.what)));
}
static void checks() {
	mon::group("messages", mon::count(3000), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		const Bytes m = gen::content(r, gen::length(r, i, 300, 2100));
		if (i < 2) mon::sample(c.what + " length " + std::to_string(m.size()));
		run(r, c, m, "message");
		subkeys_seen(c.ref);
	});
	mon::group("whole", mon::count(2500), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		run(r, c, gen::content(r, 8 * size_t(i < 64 ? i + 1 : 1 + long(r.below(200)))), "aligned message");
		subkeys_seen(c.ref);
	});
	mon::group("crafted", mon::count(3000), [](mon::Rng &r, long) {
		const auto c = cipher(r);
		const size_t n = 1 + r.below(6);
		Bytes m;
		u64 s = 0;
		for (size_t i = 0; i < n; i++) {
			u64 in = gen::word(r);
			if (r.chance(1, 3)) in = c.ref.dec(gen::word(r));
			put64(m, in ^ s ^ (i + 1 == n ? magma_k1(c.ref) : 0));
			s = c.ref.enc(in);
		}
		if (r.chance(1, 4)) m.resize(m.size() - 1 - r.below(7));
		run(r, c, m, "crafted message");
		mon::event("crafted chains");
	});
	// Keys searched so that every carry pattern of the subkey derivation is met.
	mon::group("subkeys", mon::count(64, 8), [](mon::Rng &r, long i) {
		for (int tries = 0; tries < 400; tries++) {
			const auto c = cipher(r);
			const u64 e = c.ref.enc(0);
			const int pat = int(e >> 63) | int(dbl64(e) >> 63) << 1 | int(u32(e) >> 31) << 2 | int(u32(dbl64(e)) >> 31) << 3;
			if (pat != int(i % 16)) continue;
			for (const size_t n : {8, 16, 0, 1, 4, 5, 7, 13, 40}) run(r, c, gen::content(r, n), "carry pattern " + std::to_string(pat));
			mon::event("carry patterns driven");
			return;
		}
		mon::event("carry pattern not met");
	});
	if (mon::opts().mode == "plain") mon::group("lengths", mon::count(48, 4), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		const size_t n = gen::about(r, int(i % 17));
		run(r, c, gen::content(r, r.chance(1, 2) ? n / 8 * 8 : n), "message of any order of magnitude");
	});
	mon::group("large", mon::count(8, 5), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		static const size_t base[] = {16384, 32768, 65536, 65544, 8192, 40000, 131072, 24576};
		run(r, c, gen::content(r, base[i % 8] + (i < 8 ? 0 : 8 * r.below(9))), "large message");
		mon::event("large messages");
	});
	if (mon::opts().mode == "plain") mon::group("long", gen::long_cases(), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		const size_t n = gen::long_size(r, i);
		run(r, c, gen::content(r, i % 3 == 1 ? n / 8 * 8 : n), "message of megabytes");
	});
	// Past the 16-bit and 20-bit numbers of blocks (thorough: 23-bit)
	if (mon::opts().mode == "plain") mon::group("huge", mon::thorough() ? 16 : 8, [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		static const size_t base[] = {65536, 65537, 131072, 196608, 1 << 18, 65535, 1 << 20, 300000};
		const size_t blocks = base[i % 8] + r.below(40) + (mon::thorough() && i == 8 ? size_t(1) << 23 : 0);
		run(r, c, gen::content(r, 8 * blocks + (i % 3 ? 0 : r.below(8))), "huge message");
		mon::event("huge messages");
	});
}
