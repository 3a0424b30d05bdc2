// C24: walking a memory stream.
#include "scene.hpp"
using namespace sc;
using It = shared_ptr<const gk::Iterator>;
static void block(const It &it, const vector<u64> &w, size_t i, const std::string &ctx) {
	const bool last = 2 * i + 2 >= w.size();
	const bool half = 2 * i + 1 >= w.size();
	const auto p = it->value();
	mon::event("blocks compared");
	MON_REQUIRE(p.first == w[2 * i] && p.second == (half ? 0 : w[2 * i + 1]), "value", ctx << ": block " << i << " is " << hex128(kz::val(p)) << " expected " << mon::hex(half ? 0 : w[2 * i + 1]) << mon::hex(w[2 * i]));
	MON_REQUIRE(it->last() == last, "last", ctx << ": block " << i << (last ? " is final but not marked last" : " is marked last but not final"));
	MON_REQUIRE(it->size() == (half ? 8u : 16u), "size", ctx << ": block " << i << " reports " << it->size() << " bytes");
}
static vector<u64> words(mon::Rng &r, size_t n) {
	vector<u64> w(n);
	const auto kind = r.below(4);
	for (size_t i = 0; i < n; i++) w[i] = kind == 0 ? i + 1 : kind == 1 ? gen::word(r) : kind == 2 ? (r.chance(1, 3) ? 0 : r.u()) : r.u();
	return w;
}
static void checks() {
	mon::group("walk", mon::count(2500), [](mon::Rng &r, long i) {
		const size_t n = i < 300 ? size_t(i) : r.below(4) ? r.below(200) : r.below(5000);
		auto w = words(r, n);
		const auto orig = w;
		const std::string ctx = std::to_string(n) + " words";
		auto st = make_shared<gk::StMemory>(w);
		for (auto &x : w) x = ~x;                                     // the caller's vector is the caller's
		w.clear(); w.shrink_to_fit();
		for (int rep = 0; rep < 2; rep++) {
			It it = st->iter();
			MON_REQUIRE(bool(it) == (n != 0), "empty", ctx << ": " << (n ? "no first iterator" : "an empty sequence has an iterator"));
			size_t b = 0;
			for (; it; it = it->next(), b++) {
				MON_REQUIRE(b < (n + 1) / 2, "runaway", ctx << ": the walk goes past the end");
				block(it, orig, b, ctx);
			}
			MON_REQUIRE(b == (n + 1) / 2, "count", ctx << ": " << b << " blocks walked");
			mon::event("walks");
			if (n % 2) mon::event("walks ending in half a block");
			if (!n) mon::event("walks of an empty sequence");
		}
		mon::seen(mon::hash_bytes(orig.data(), n * 8) ^ n);
		if (n) mon::sample(ctx + " starting " + mon::hex(orig[0]) + ": " + std::to_string((n + 1) / 2) + " blocks in order");
	});
	// several iterators over one stream, stepped in any order, revisited, also after the stream handle is gone
	mon::group("many walkers", mon::count(1500), [](mon::Rng &r, long) {
		const size_t n = 1 + r.below(40);
		const auto w = words(r, n);
		const std::string ctx = std::to_string(n) + " words, several walkers";
		shared_ptr<const gk::Stream> st = make_shared<gk::StMemory>(w);
		vector<std::pair<It, size_t>> pool;
		for (int k = 0; k < 4; k++) pool.emplace_back(st->iter(), 0);
		if (r.chance(1, 2)) st.reset();
		const size_t nb = (n + 1) / 2;
		for (int s = 0; s < 60 && !pool.empty(); s++) {
			const size_t k = r.below(pool.size());
			const auto cur = pool[k];
			block(cur.first, w, cur.second, ctx);
			const auto nx = cur.first->next();
			MON_REQUIRE(bool(nx) == (cur.second + 1 < nb), "end", ctx << ": stepping from block " << cur.second << " of " << nb << (nx ? " yields an iterator" : " yields none"));
			if (nx) {
				block(nx, w, cur.second + 1, ctx);
				if (r.chance(2, 3)) pool[k] = {nx, cur.second + 1};
				else pool.emplace_back(nx, cur.second + 1);
			} else if (st && r.chance(1, 2)) pool[k] = {st->iter(), 0};
			block(cur.first, w, cur.second, ctx + " (again)");
			mon::event("steps");
			mon::seen(mon::mix64(n * 1000 + cur.second) ^ k);
		}
	});
	mon::group("long walk", mon::count(8, 4), [](mon::Rng &r, long i) {
		const size_t n = mon::opts().mode == "plain" && i == 0 ? (size_t(1) << (mon::thorough() ? 28 : 24)) + r.below(9) : size_t(100000 + r.below(100000) * (i % 2 ? 2 : 1));
		const auto w = words(r, n);
		It it = make_shared<gk::StMemory>(w)->iter();
		u64 bad = 0; size_t b = 0;
		for (; it; it = it->next(), b++) {
			const auto p = it->value();
			const bool half = 2 * b + 1 >= n;
			if (b >= (n + 1) / 2) { bad++; break; }
			if (p.first != w[2 * b] || p.second != (half ? 0 : w[2 * b + 1]) || it->last() != (2 * b + 2 >= n) || it->size() != (half ? 8u : 16u)) bad++;
		}
		mon::event("blocks compared", b); mon::event("long walks");
		MON_REQUIRE(!bad && b == (n + 1) / 2, "long", n << " words: " << bad << " blocks wrong, " << b << " walked");
		mon::seen(n);
	});
	// seen through counter mode and the MAC
	mon::group("through modes", mon::count(300), [](mon::Rng &r, long) {
		const auto c = kz::cipher(r);
		const size_t n = 1 + r.below(9);
		const auto w = words(r, n);
		const auto bl = kz::blocks(w);
		const u64 iv = gen::word(r);
		const auto got = walk(gk::StCTREncrypted(make_shared<gk::StMemory>(w), c.key, iv).iter());
		const auto want = walk_want(bl, 0, n % 2 ? 8 : 16, [&](size_t i, u128 x) { return x ^ c.ref.enc(ctr_block(iv, i)); });
		mon::event("CTR walks");
		MON_REQUIRE(got == want, "ctr", n << " words through counter mode: " << mon::hexb(got.data(), got.size()) << " expected " << mon::hexb(want.data(), want.size()));
	});
}
#include "main.hpp"
