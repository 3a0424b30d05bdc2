// C07: ECB enciphers block by block, inverts exactly, and refuses partial blocks.
#include "mg.hpp"
#include "main.hpp"
#include <goost/gost89/ECBSink.h>
#include <goost/gost89/ECBSource.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>

using namespace mg;

static shared_ptr<const goost::Sink> esink(bool g, const shared_ptr<const goost::Sink> &u, const shared_ptr<const gm::Key> &k) {
	if (g) return make_shared<goost::gost89::ECBSink>(u, k);
	return make_shared<gm::ECBSink>(u, k);
}
static shared_ptr<const goost::Source> esource(bool g, const shared_ptr<const goost::Source> &u, const shared_ptr<const gm::Key> &k) {
	if (g) return make_shared<goost::gost89::ECBSource>(u, k);
	return make_shared<gm::ECBSource>(u, k);
}
// Reads to the end with block-or-more sizes; every read may return at most what was asked for,
// and something unless the end is reached.
static Bytes read_all(mon::Rng &r, shared_ptr<const goost::Source> s, const std::string &ctx, size_t limit) {
	Bytes got;
	const auto kind = r.below(4);
	while (true) {
		const size_t ask = kind == 0 ? 8 : kind == 1 ? ~size_t(0) : kind == 2 ? 8 + r.below(40) : (size_t(1) << 32) + 8;
		auto res = s->read(ask);
		MON_REQUIRE(!!res.second, "null-source", ctx << ": read returned no source");
		MON_REQUIRE(res.first.size() <= ask, "read-size", ctx << ": read of " << ask << " returned " << res.first.size());
		if (res.first.empty()) {
			for (int i = 0; i < 3; i++) { res = res.second->read(8 + r.below(9)); MON_REQUIRE(res.first.empty(), "after-end", ctx << ": bytes after the end"); }
			return got;
		}
		const Bytes b = fromb(res.first);
		got.insert(got.end(), b.begin(), b.end());
		MON_REQUIRE(got.size() <= limit, "too-many", ctx << ": more bytes than the ciphertext has");
		s = res.second;
		mon::event("reads");
	}
}
static void run(mon::Rng &r, const Cipher &c, const Bytes &m) {
	const Bytes want = ecb_enc(c.ref, m);
	const auto sp = gen::split(r, m.size(), 8);
	const bool g = r.chance(1, 3);
	const std::string ctx = mon::Msg() << c.what << " length " << m.size() << " writes " << gen::show_split(sp);
	mon::note(ctx);
	auto s = esink(g, make_shared<RecSink>(), c.key);
	size_t p = 0;
	for (const auto n : sp) { s = s->write(tob(m, p, n)); p += n; }
	const Bytes got = recorded(s->finalize());
	MON_REQUIRE(got == want, "ciphertext", ctx << ": gives " << mon::hexb(got.data(), got.size()) << " expected " << mon::hexb(want.data(), want.size()));
	const Bytes back = read_all(r, esource(g, make_shared<MemSource>(got), c.key), ctx, got.size());
	MON_REQUIRE(back == m, "plaintext", ctx << ": decrypts to " << mon::hexb(back.data(), back.size()) << " expected " << mon::hexb(m.data(), m.size()));
	// decryption of arbitrary data
	const Bytes d = read_all(r, esource(!g, make_shared<MemSource>(m), c.key), ctx, m.size());
	const Bytes dw = ecb_dec(c.ref, m);
	MON_REQUIRE(d == dw, "decryption", ctx << ": decryption of the message as ciphertext differs from the standard");
	mon::event("messages both ways");
	mon::event("blocks", m.size() / 8);
	mon::seen(mon::hash_str(ctx));
}
static void checks() {
	mon::group("messages", mon::count(2000), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		const Bytes m = gen::content(r, 8 * size_t(i < 100 ? i : long(r.below(600))));
		if (i < 2) mon::sample(c.what + " length " + std::to_string(m.size()));
		run(r, c, m);
	});
	mon::group("crafted", mon::count(1000), [](mon::Rng &r, long) {
		const auto c = cipher(r);
		Bytes t;
		for (size_t n = r.below(12); n > 0; n--) put64(t, gen::word(r));
		run(r, c, r.chance(1, 2) ? ecb_dec(c.ref, t) : ecb_enc(c.ref, t));
	});
	mon::group("unaligned-write", mon::count(800), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		size_t n = size_t(i < 120 ? i : long(r.below(5000)));
		if (n % 8 == 0) n += 1 + r.below(7);
		const Bytes pre = gen::content(r, 8 * r.below(4)), m = gen::content(r, n);
		const auto s = esink(r.chance(1, 3), make_shared<RecSink>(), c.key)->write(tob(pre));
		bool threw = false;
		try { s->write(tob(m)); } catch (const std::exception &) { threw = true; }
		MON_REQUIRE(threw, "unaligned-write", c.what << ": a write of " << n << " bytes was accepted");
		// the refused write left nothing behind
		MON_REQUIRE(recorded(s->finalize()) == ecb_enc(c.ref, pre), "after-refusal", c.what << ": a refused write of " << n << " bytes left bytes behind");
		mon::event("refused writes");
		mon::seen(n);
	});
	mon::group("unaligned-source", mon::count(800), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		size_t n = size_t(i < 120 ? i : long(r.below(3000)));
		if (n % 8 == 0) n += 1 + r.below(7);
		const Bytes ct = gen::content(r, n);
		const Bytes want = ecb_dec(c.ref, ct);
		mon::note("unaligned ciphertext of " + std::to_string(n));
		shared_ptr<const goost::Source> s = esource(r.chance(1, 3), make_shared<MemSource>(ct), c.key);
		Bytes got;
		bool threw = false;
		try {
			while (true) {
				auto res = s->read(r.chance(1, 2) ? 8 : 8 + r.below(30));
				if (res.first.empty()) break;
				const Bytes b = fromb(res.first);
				got.insert(got.end(), b.begin(), b.end());
				s = res.second;
				if (got.size() > n + 64) break;
			}
		} catch (const std::exception &) { threw = true; }
		MON_REQUIRE(got.size() <= want.size() && std::equal(got.begin(), got.end(), want.begin()), "partial-bytes", c.what << ": ciphertext of " << n << " bytes gave " << got.size() << " bytes, whole blocks are " << want.size());
		MON_REQUIRE(threw, "unaligned-source", c.what << ": ciphertext of " << n << " bytes was accepted");
		mon::event("refused ciphertexts");
		mon::seen(n + (1u << 20));
	});
	mon::group("short-read", mon::count(200), [](mon::Rng &r, long) {
		const auto c = cipher(r);
		const Bytes ct = gen::content(r, 8 * r.below(5));
		const size_t ask = r.below(8);
		bool threw = false;
		size_t n = 0;
		try { n = esource(r.chance(1, 3), make_shared<MemSource>(ct), c.key)->read(ask).first.size(); } catch (const std::exception &) { threw = true; }
		MON_REQUIRE(threw || n == 0, "short-read", c.what << ": a read of " << ask << " bytes returned " << n);
		MON_REQUIRE(threw || ct.empty() || ask == 0, "short-read", c.what << ": a read of " << ask << " bytes was accepted");
		mon::event("refused reads");
	});
	// One write of any order of magnitude, with blocks before and after it; then one byte too many or too few
	if (mon::opts().mode == "plain") mon::group("pieces", mon::count(48, 4), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		const size_t a = 8 * r.below(3), b = 8 * gen::about(r, int(i % 14)), e = 8 * r.below(3);
		const Bytes m = gen::content(r, a + b + e), want = ecb_enc(c.ref, m);
		const std::string ctx = mon::Msg() << c.what << " writes " << a << "+" << b << "+" << e;
		mon::note(ctx);
		auto s = esink(i & 1, make_shared<RecSink>(), c.key);
		if (a) s = s->write(tob(m, 0, a));
		bool threw = false;
		try { s->write(tob(gen::content(r, b + 1 + r.below(7)))); } catch (const std::exception &) { threw = true; }
		MON_REQUIRE(threw, "accepted", ctx << ": a write that is not a whole number of blocks was accepted");
		s = s->write(tob(m, a, b));
		if (e) s = s->write(tob(m, a + b, e));
		MON_REQUIRE(recorded(s->finalize()) == want, "ciphertext", ctx << ": gives another ciphertext");
		MON_REQUIRE(read_all(r, esource(i & 1, make_shared<MemSource>(want), c.key), ctx, want.size()) == m, "plaintext", ctx << ": decrypts to something else");
		mon::event("messages both ways");
		mon::event("writes of any order of magnitude");
		mon::seen(mon::hash_str(ctx));
	});
	mon::group("large", mon::count(6, 6), [](mon::Rng &r, long) {
		const auto c = cipher(r);
		run(r, c, gen::content(r, 8 * (8192 + r.below(9000))));
		mon::event("large messages");
	});
	// One write of megabytes, and the ciphertext read back
	if (mon::opts().mode == "plain") mon::group("long-write", gen::long_cases() / 2, [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		const size_t a = i % 2 ? 8 * r.below(3) : 0, b = gen::long_size(r, i) / 8 * 8;
		const Bytes m = gen::content(r, a + b), want = ecb_enc(c.ref, m);
		const std::string ctx = mon::Msg() << c.what << " writes " << a << "+" << b;
		mon::note(ctx);
		auto s = esink(r.chance(1, 2), make_shared<RecSink>(), c.key);
		if (a) s = s->write(tob(m, 0, a));
		bool threw = false;
		try { s->write(tob(m, 0, a + b - 1 - r.below(7))); } catch (const std::exception &) { threw = true; }
		MON_REQUIRE(threw, "accepted", ctx << ": a write that is not a whole number of blocks was accepted");
		s = s->write(tob(m, a, b));
		MON_REQUIRE(recorded(s->finalize()) == want, "ciphertext", ctx << ": gives another ciphertext");
		MON_REQUIRE(read_all(r, esource(r.chance(1, 2), make_shared<MemSource>(want), c.key), ctx, want.size()) == m, "plaintext", ctx << ": decrypts to something else");
		mon::event("messages both ways");
		mon::event("writes of megabytes");
		mon::seen(mon::hash_str(ctx));
	});
	// Past the 16-bit and 20-bit numbers of blocks (thorough: 23-bit)
	if (mon::opts().mode == "plain") mon::group("huge", mon::thorough() ? 16 : 8, [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		static const size_t base[] = {65536, 65537, 131072, 196608, 1 << 18, 65535, 1 << 20, 300000};
		const size_t blocks = base[i % 8] + r.below(40) + (mon::thorough() && i == 8 ? size_t(1) << 23 : 0);
		run(r, c, gen::content(r, 8 * blocks));
		mon::event("huge messages");
	});
}
