// C10: GOST 28147-89 MAC equals the standard's 16-round chaining for every message.
#include "mg.hpp"
#include "main.hpp"
#include <goost/gost89/DataImit.h>
#include <goost/gost89/ImitedBlock.h>

using namespace mg;

static void run(const Cipher &c, const Bytes &m, const std::string &what) {
	const std::string ctx = mon::Msg() << c.what << " " << what << " length " << m.size();
	mon::note(ctx);
	const goost::gost89::DataImit d(m, c.key);
	const Bytes got = d.value(), want = imit89(c.ref, m);
	MON_REQUIRE(got == want, "mac", ctx << ": MAC " << mon::hexb(got.data(), got.size()) << " expected " << mon::hexb(want.data(), want.size()));
	MON_REQUIRE(d.value() == want, "repeat", ctx << ": a second evaluation differs");
	mon::event("MACs"); mon::event("blocks", m.size() / 8);
	mon::event(m.size() < 16 ? "messages shorter than two blocks" : m.size() % 8 ? "messages with incomplete last block" : "aligned messages");
	mon::seen(mon::hash_bytes(m.data(), m.size(), mon::hash_str(c.what)));
}
static void checks() {
	mon::group("messages", mon::count(4000), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		const Bytes m = gen::content(r, gen::length(r, i, 300, 4200));
		if (i < 2) mon::sample(c.what + " length " + std::to_string(m.size()));
		run(c, m, "message");
	});
	mon::group("short", mon::count(2000), [](mon::Rng &r, long i) { run(cipher(r), gen::content(r, size_t(i % 26)), "short message"); });
	mon::group("crafted", mon::count(4000), [](mon::Rng &r, long) {
		const auto c = cipher(r);
		Bytes m;
		u64 s = 0;
		for (size_t n = 2 + r.below(5); n > 0; n--) {
			u64 in = gen::word(r);
			if (r.chance(1, 3)) {                          // state special after some rounds
				const int k = int(r.below(17));
				const u64 w = gen::word(r);
				in = c.ref.block_for_state({u32(w >> 32), u32(w)}, k);
			}
			put64(m, in ^ s);
			s = c.ref.rounds16(in);
		}
		if (r.chance(1, 4)) m.resize(m.size() - r.below(8));
		run(c, m, "crafted message");
		mon::event("crafted chains");
	});
	mon::group("blocks", mon::count(6000), [](mon::Rng &r, long) {
		const auto c = cipher(r);
		const u64 v = gen::word(r);
		const u64 got = val(goost::gost89::ImitedBlock(gm::BlkRaw(v), c.key).value().value()), want = c.ref.rounds16(v);
		MON_REQUIRE(got == want, "rounds16", c.what << " block " << mon::hex(v) << ": 16 rounds give " << mon::hex(got) << " expected " << mon::hex(want));
		mon::event("single blocks");
		mon::seen(v ^ mon::hash_str(c.what));
	});
	if (mon::opts().mode == "plain") mon::group("lengths", mon::count(48, 4), [](mon::Rng &r, long i) {
		run(cipher(r), gen::content(r, gen::about(r, int(i % 17))), "message of any order of magnitude");
	});
	mon::group("large", mon::count(8, 5), [](mon::Rng &r, long i) {
		static const size_t base[] = {65536, 65535, 65537, 131072, 16384, 100003, 262144, 32769};
		run(cipher(r), gen::content(r, base[i % 8]), "large message");
		mon::event("large messages");
	});
	if (mon::opts().mode == "plain") mon::group("long", gen::long_cases(), [](mon::Rng &r, long i) {
		run(cipher(r), gen::content(r, gen::long_size(r, i)), "message of megabytes");
	});
	// Past the 16-bit and 20-bit numbers of blocks (thorough: 23-bit)
	if (mon::opts().mode == "plain") mon::group("huge", mon::thorough() ? 16 : 8, [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		static const size_t base[] = {65536, 65537, 131072, 196608, 1 << 18, 65535, 1 << 20, 300000};
		const size_t blocks = base[i % 8] + r.below(40) + (mon::thorough() && i == 8 ? size_t(1) << 23 : 0);
		run(c, gen::content(r, 8 * blocks + (i % 3 ? 0 : r.below(8))), "huge message");
		mon::event("huge messages");
	});
}
