// C05: CFB encryption is conformant, length preserving and independent of the split into writes.
#include "cfb.hpp"
#include "main.hpp"

using namespace cfbv;

static void run(mon::Rng &r, const Cipher &c, const Var &v, const Bytes &m, int splits) {
	const Bytes want = enc(v, c.ref, m);
	for (int k = 0; k < splits; k++) {
		const auto sp = gen::split(r, m.size());
		const std::string ctx = mon::Msg() << c.what << " " << v.what << " length " << m.size() << " writes " << gen::show_split(sp);
		mon::note(ctx);
		shared_ptr<const goost::Sink> s = sink(v, make_shared<RecSink>(), c.key);
		size_t p = 0;
		for (const auto n : sp) { s = s->write(tob(m, p, n)); p += n; MON_REQUIRE(!!s, "null-sink", ctx << ": write returned nothing"); }
		const Bytes got = recorded(s->finalize());
		MON_REQUIRE(got.size() == want.size(), "length", ctx << ": " << got.size() << " bytes came out");
		MON_REQUIRE(got == want, "ciphertext", ctx << ": wrong from byte " << first_diff(got, want) << ": " << mon::hexb(&got[first_diff(got, want)], got.size() - first_diff(got, want), 16) << " expected " << mon::hexb(&want[first_diff(got, want)], want.size() - first_diff(got, want), 16));
		mon::event("finalized messages");
		mon::event("writes", sp.size());
		mon::event("bytes", m.size());
		mon::event(m.size() % 8 ? "messages with incomplete last block" : "aligned messages");
		mon::seen(mon::hash_str(ctx));
	}
}
static void checks() {
	mon::group("messages", mon::count(2500), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		const auto v = var(r);
		const Bytes m = gen::content(r, gen::length(r, i, 260, 4200));
		if (i < 2) mon::sample(c.what + " " + v.what + " length " + std::to_string(m.size()));
		run(r, c, v, m, 2);
	});
	// Plaintexts chosen so that ciphertext blocks (and so the feedback register) are special
	mon::group("crafted", mon::count(1200), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		const auto v = var(r);
		Bytes t;
		const size_t n = size_t(i < 70 ? i : long(r.below(200)));
		while (t.size() < n) put64(t, r.chance(1, 3) ? v.iv[r.below(v.iv.size())] : gen::word(r));
		t.resize(n);
		run(r, c, v, dec(v, c.ref, t), 2);
		mon::event("crafted ciphertexts");
	});
	mon::group("every-split-of-small", mon::count(25 * 25), [](mon::Rng &r, long i) {
		// two cut points in a message of 24 bytes or fewer
		const auto c = cipher(r);
		const auto v = var(r);
		const size_t n = 1 + r.below(24), a = size_t(i % 25) % (n + 1), b = size_t(i / 25) % (n + 1);
		const Bytes m = gen::content(r, n);
		const Bytes want = enc(v, c.ref, m);
		const size_t lo = std::min(a, b), hi = std::max(a, b);
		shared_ptr<const goost::Sink> s = sink(v, make_shared<RecSink>(), c.key);
		s = s->write(tob(m, 0, lo))->write(tob(m, lo, hi - lo))->write(tob(m, hi));
		const Bytes got = recorded(s->finalize());
		MON_REQUIRE(got == want, "ciphertext", c.what << " " << v.what << " length " << n << " cut at " << lo << "," << hi << " gives " << mon::hexb(got.data(), got.size()) << " expected " << mon::hexb(want.data(), want.size()));
		mon::event("finalized messages");
		mon::seen((u64(n) << 20 | lo << 10 | hi) * 2 + v.m);
	});
	// Every size of a write, in a message of its own: nothing is special about any number
	mon::group("every-size", mon::count(4200, 3), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		auto v = var(r);
		while (v.m != bool(i % 2)) v = var(r);
		const size_t a = r.chance(1, 2) ? 0 : r.below(10), b = size_t(i / 2), e = r.chance(1, 2) ? r.below(20) : 0;
		const Bytes m = gen::content(r, a + b + e), want = enc(v, c.ref, m);
		const std::string ctx = mon::Msg() << c.what << " " << v.what << " writes " << a << "+" << b << "+" << e;
		mon::note(ctx);
		auto s = sink(v, make_shared<RecSink>(), c.key);
		for (const auto &w : {std::make_pair(size_t(0), a), std::make_pair(a, b), std::make_pair(a + b, e)}) if (w.second || w.first == a) s = s->write(tob(m, w.first, w.second));
		const Bytes got = recorded(s->finalize());
		MON_REQUIRE(got.size() == want.size(), "length", ctx << ": " << got.size() << " bytes came out");
		MON_REQUIRE(got == want, "ciphertext", ctx << ": wrong from byte " << first_diff(got, want));
		mon::event("finalized messages");
		mon::event("write sizes from 0 up, one by one");
		mon::seen(mon::hash_str(ctx));
	});
	// One write of any order of magnitude, with 0 to 9 bytes before it and some after it
	if (mon::opts().mode == "plain") mon::group("pieces", mon::count(48, 4), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		const auto v = var(r);
		const size_t a = r.below(10), b = gen::about(r, int(3 + i % 16)), e = r.chance(1, 2) ? r.below(20) : 0;
		const Bytes m = gen::content(r, a + b + e), want = enc(v, c.ref, m);
		const std::string ctx = mon::Msg() << c.what << " " << v.what << " writes " << a << "+" << b << "+" << e;
		mon::note(ctx);
		auto s = sink(v, make_shared<RecSink>(), c.key);
		if (a) s = s->write(tob(m, 0, a));
		s = s->write(tob(m, a, b));
		if (e) s = s->write(tob(m, a + b, e));
		const Bytes got = recorded(s->finalize());
		MON_REQUIRE(got.size() == want.size(), "length", ctx << ": " << got.size() << " bytes came out");
		MON_REQUIRE(got == want, "ciphertext", ctx << ": wrong from byte " << first_diff(got, want));
		mon::event("finalized messages");
		mon::event("writes of any order of magnitude");
		mon::seen(mon::hash_str(ctx));
	});
	mon::group("large", mon::count(8, 6), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		const auto v = var(r);
		static const size_t base[] = {65536, 131072, 32768, 16384, 100000, 262144, 70000, 524288};
		const long n = long(base[i % 8]) + r.range(-9, 9);
		run(r, c, v, gen::content(r, size_t(n)), 1);
		mon::event("large messages");
	});
	// One write of megabytes, at the start or after a few bytes, with and without a remainder
	if (mon::opts().mode == "plain") mon::group("long-write", gen::long_cases(), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		auto v = var(r);
		if (v.m && r.chance(1, 2)) v.iv[1] = v.iv[0];
		const size_t a = i % 2 ? r.below(20) : 0, b = gen::long_size(r, i), e = i % 4 > 1 ? r.below(20) : 0;
		const Bytes m = gen::content(r, a + b + e), want = enc(v, c.ref, m);
		const std::string ctx = mon::Msg() << c.what << " " << v.what << " writes " << a << "+" << b << "+" << e;
		mon::note(ctx);
		auto s = sink(v, make_shared<RecSink>(), c.key);
		if (a) s = s->write(tob(m, 0, a));
		s = s->write(tob(m, a, b));
		if (e) s = s->write(tob(m, a + b, e));
		const Bytes got = recorded(s->finalize());
		MON_REQUIRE(got.size() == want.size(), "length", ctx << ": " << got.size() << " bytes came out");
		MON_REQUIRE(got == want, "ciphertext", ctx << ": wrong from byte " << first_diff(got, want));
		mon::event("finalized messages");
		mon::event("writes of megabytes");
		mon::seen(mon::hash_str(ctx));
	});
	// Past the 16-bit and 20-bit numbers of blocks (thorough: 23-bit)
	if (mon::opts().mode == "plain") mon::group("huge", mon::thorough() ? 16 : 8, [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		static const size_t base[] = {65536, 65537, 131072, 196608, 1 << 18, 65535, 1 << 20, 300000};
		const size_t blocks = base[i % 8] + r.below(40) + (mon::thorough() && i == 8 ? size_t(1) << 23 : 0);
		const auto v = var(r);
		run(r, c, v, gen::content(r, 8 * blocks + r.below(8)), 1);
		mon::event("huge messages");
	});
}
