// C06: CFB decryption recovers the plaintext for any length and any sequence of read sizes.
#include "cfb.hpp"
#include "main.hpp"

using namespace cfbv;

static void run(mon::Rng &r, const Cipher &c, const Var &v, const Bytes &ct, const Bytes &want, int plans) {
	for (int k = 0; k < plans; k++) {
		gen::ReadPlan plan(r);
		const std::string ctx = mon::Msg() << c.what << " " << v.what << " length " << ct.size() << " read plan " << plan.kind << "/" << plan.fixed;
		mon::note(ctx);
		shared_ptr<const goost::Source> s = source(v, make_shared<MemSource>(ct), c.key);
		Bytes got;
		int idle = 0;
		while (true) {
			const size_t ask = plan.next();
			auto res = s->read(ask);
			MON_REQUIRE(!!res.second, "null-source", ctx << ": read returned no source");
			const size_t left = want.size() - got.size();
			MON_REQUIRE(res.first.size() == std::min(ask, left), "read-size", ctx << ": read of " << ask << " at " << got.size() << " returned " << res.first.size() << " with " << left << " left");
			const Bytes b = fromb(res.first);
			for (size_t i = 0; i < b.size(); i++) MON_REQUIRE(b[i] == want[got.size() + i], "plaintext", ctx << ": byte " << got.size() + i << " is " << mon::hexb(&b[i], 1) << ", expected " << mon::hexb(&want[got.size() + i], 1));
			got.insert(got.end(), b.begin(), b.end());
			s = res.second;
			mon::event("reads");
			if (got.size() == want.size() && ++idle > 3) break;
		}
		// after the end: nothing, for any size, again and again
		for (const size_t ask : {size_t(1), size_t(8), ~size_t(0), size_t(0), size_t(17)}) {
			auto res = s->read(ask);
			MON_REQUIRE(res.first.empty(), "after-end", ctx << ": read of " << ask << " after the end returned " << res.first.size() << " bytes");
			s = res.second;
			mon::event("reads after the end");
		}
		mon::event("messages");
		mon::event(ct.size() % 8 ? "messages with incomplete last block" : "aligned messages");
		mon::seen(mon::hash_str(ctx));
	}
}
static void checks() {
	mon::group("messages", mon::count(2500), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		const auto v = var(r);
		const Bytes ct = gen::content(r, gen::length(r, i, 260, 4200));
		if (i < 2) mon::sample(c.what + " " + v.what + " length " + std::to_string(ct.size()));
		run(r, c, v, ct, dec(v, c.ref, ct), 2);
	});
	mon::group("round-trip", mon::count(1500), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		const auto v = var(r);
		const Bytes m = gen::content(r, gen::length(r, i, 130, 1100));
		const auto sp = gen::split(r, m.size());
		mon::note("round trip length " + std::to_string(m.size()));
		shared_ptr<const goost::Sink> s = sink(v, make_shared<RecSink>(), c.key);
		size_t p = 0;
		for (const auto n : sp) { s = s->write(tob(m, p, n)); p += n; }
		run(r, c, v, recorded(s->finalize()), m, 1);
		mon::event("round trips");
	});
	mon::group("crafted", mon::count(1000), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		const auto v = var(r);
		Bytes t;
		const size_t n = size_t(i < 70 ? i : long(r.below(200)));
		while (t.size() < n) put64(t, r.chance(1, 3) ? v.iv[r.below(v.iv.size())] : gen::word(r));
		t.resize(n);
		if (r.chance(1, 2)) run(r, c, v, t, dec(v, c.ref, t), 1);            // special ciphertext
		else run(r, c, v, enc(v, c.ref, t), t, 1);                             // special plaintext
		mon::event("crafted texts");
	});
	mon::group("two-reads", mon::count(25 * 25), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		const auto v = var(r);
		const size_t n = r.below(25), a = size_t(i % 25), b = size_t(i / 25);
		const Bytes ct = gen::content(r, n);
		const Bytes want = dec(v, c.ref, ct);
		auto x = source(v, make_shared<MemSource>(ct), c.key)->read(a);
		auto y = x.second->read(b);
		auto z = y.second->read(~size_t(0));
		Bytes got = fromb(x.first);
		MON_REQUIRE(got.size() == std::min(a, n), "read-size", "length " << n << " read " << a << " gave " << got.size());
		const Bytes g2 = fromb(y.first), g3 = fromb(z.first);
		MON_REQUIRE(g2.size() == std::min(b, n - got.size()), "read-size", "length " << n << " reads " << a << "," << b << " gave " << got.size() << "," << g2.size());
		got.insert(got.end(), g2.begin(), g2.end()); got.insert(got.end(), g3.begin(), g3.end());
		MON_REQUIRE(got == want, "plaintext", c.what << " " << v.what << " length " << n << " reads " << a << "," << b << ",rest give " << mon::hexb(got.data(), got.size()) << " expected " << mon::hexb(want.data(), want.size()));
		mon::event("messages");
		mon::seen((u64(n) << 20 | a << 10 | b) * 2 + v.m);
	});
	// Every size of a read, alone, in the message it is made for: nothing is special about any number
	mon::group("every-size", mon::count(4200, 3), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		auto v = var(r);
		while (v.m != bool(i % 2)) v = var(r);
		const size_t a = r.chance(1, 2) ? 0 : r.below(10), b = size_t(i / 2), n = a + b + r.below(20);
		const Bytes ct = gen::content(r, n), want = dec(v, c.ref, ct);
		const std::string ctx = mon::Msg() << c.what << " " << v.what << " length " << n << " reads " << a << "," << b << ",rest";
		mon::note(ctx);
		shared_ptr<const goost::Source> s = source(v, make_shared<MemSource>(ct), c.key);
		Bytes got;
		for (const size_t ask : {a, b, n + 1, size_t(1)}) {
			auto x = s->read(ask);
			MON_REQUIRE(x.first.size() == std::min(ask, n - got.size()), "read-size", ctx << ": a read of " << ask << " at " << got.size() << " returned " << x.first.size());
			const Bytes y = fromb(x.first);
			got.insert(got.end(), y.begin(), y.end());
			s = x.second;
		}
		MON_REQUIRE(got == want, "plaintext", ctx << ": wrong from byte " << first_diff(got, want));
		mon::event("messages");
		mon::event("read sizes from 0 up, one by one");
		mon::seen(mon::hash_str(ctx));
	});
	// One read of any order of magnitude, with 0 to 9 bytes read before it and the rest after it
	if (mon::opts().mode == "plain") mon::group("pieces", mon::count(48, 4), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		const auto v = var(r);
		const size_t a = r.below(10), b = gen::about(r, int(3 + i % 16)), e = r.chance(1, 3) ? 0 : r.below(20);
		const size_t n = r.chance(1, 4) ? gen::about(r, int(3 + i % 16)) : a + b + e;
		const Bytes ct = gen::content(r, n), want = dec(v, c.ref, ct);
		const std::string ctx = mon::Msg() << c.what << " " << v.what << " length " << n << " reads " << a << "," << b << ",rest";
		mon::note(ctx);
		shared_ptr<const goost::Source> s = source(v, make_shared<MemSource>(ct), c.key);
		Bytes got;
		for (const size_t ask : {a, b, n + 1, size_t(1)}) {
			auto x = s->read(ask);
			MON_REQUIRE(x.first.size() == std::min(ask, n - got.size()), "read-size", ctx << ": a read of " << ask << " at " << got.size() << " returned " << x.first.size());
			const Bytes y = fromb(x.first);
			got.insert(got.end(), y.begin(), y.end());
			s = x.second;
		}
		MON_REQUIRE(got == want, "plaintext", ctx << ": wrong from byte " << first_diff(got, want));
		mon::event("messages");
		mon::event("reads of any order of magnitude");
		mon::seen(mon::hash_str(ctx));
	});
	mon::group("large", mon::count(8, 6), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		const auto v = var(r);
		static const size_t base[] = {65536, 131072, 32768, 16384, 100000, 262144, 70000, 524288};
		const Bytes ct = gen::content(r, size_t(long(base[i % 8]) + r.range(-9, 9)));
		run(r, c, v, ct, dec(v, c.ref, ct), 1);
		mon::event("large messages");
	});
	// One read of megabytes, at the start or after a few bytes, then the rest
	if (mon::opts().mode == "plain") mon::group("long-read", gen::long_cases(), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		auto v = var(r);
		if (v.m && r.chance(1, 2)) v.iv[1] = v.iv[0];
		const size_t a = i % 2 ? r.below(20) : 0, b = gen::long_size(r, i), n = i % 4 > 1 ? b : a + b + r.below(20);
		const Bytes ct = gen::content(r, n), want = dec(v, c.ref, ct);
		const std::string ctx = mon::Msg() << c.what << " " << v.what << " length " << n << " reads " << a << "," << b << ",rest";
		mon::note(ctx);
		shared_ptr<const goost::Source> s = source(v, make_shared<MemSource>(ct), c.key);
		Bytes got;
		for (const size_t ask : {a, b, ~size_t(0), size_t(1)}) {
			auto x = s->read(ask);
			MON_REQUIRE(x.first.size() == std::min(ask, n - got.size()), "read-size", ctx << ": a read of " << ask << " at " << got.size() << " returned " << x.first.size());
			const Bytes y = fromb(x.first);
			got.insert(got.end(), y.begin(), y.end());
			s = x.second;
		}
		MON_REQUIRE(got == want, "plaintext", ctx << ": wrong from byte " << first_diff(got, want));
		mon::event("messages");
		mon::event("reads of megabytes");
		mon::seen(mon::hash_str(ctx));
	});
	// Past the 16-bit and 20-bit numbers of blocks (thorough: 23-bit)
	if (mon::opts().mode == "plain") mon::group("huge", mon::thorough() ? 16 : 8, [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		static const size_t base[] = {65536, 65537, 131072, 196608, 1 << 18, 65535, 1 << 20, 300000};
		const size_t blocks = base[i % 8] + r.below(40) + (mon::thorough() && i == 8 ? size_t(1) << 23 : 0);
		const auto v = var(r);
		const Bytes ct = gen::content(r, 8 * blocks + r.below(8));
		run(r, c, v, ct, dec(v, c.ref, ct), 1);
		mon::event("huge messages");
	});
}
