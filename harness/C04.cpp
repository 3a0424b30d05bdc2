// C04: Kuznyechik counter mode: fresh consecutive counters, structure of the stream preserved.
#include "kz.hpp"
#include "main.hpp"
#include <algorithm>
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/BlkIncremented.h>
#include <goost/kuznyechik/BlkRaw.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>

using namespace kz;

static size_t size_at(const vector<u64> &w, size_t i) { return 2 * i + 1 < w.size() ? 16 : 8; }

static void look(const Cipher &c, u64 iv, u128 plain, u64 i, size_t size, bool last, const shared_ptr<const gk::Iterator> &it, const std::string &ctx) {
	MON_REQUIRE(!!it, "missing-block", ctx << ": no iterator for block " << i);
	MON_REQUIRE(it->size() == size, "size", ctx << ": block " << i << " reports size " << it->size() << ", input has " << size);
	MON_REQUIRE(it->last() == last, "last", ctx << ": block " << i << " last() is " << it->last());
	// the whole block, also where the input says that only some of it counts
	const u128 want = plain ^ c.ref.enc(ctr_block(iv, i));
	const u128 got = val(it->value());
	MON_REQUIRE(got == want, "value", ctx << ": block " << i << " is " << hex128(got) << ", expected " << hex128(want));
	mon::event("blocks compared");
}
static vector<u64> words_for(mon::Rng &r, size_t n) {
	vector<u64> w(n);
	const auto kind = r.below(4);
	for (auto &x : w) x = kind == 0 ? 0 : kind == 1 ? gen::word(r) : r.u();
	return w;
}
// An unbounded cheap stream: block i has value derived from i.
class Endless final : public gk::Iterator {
	const u64 i, n;
public:
	Endless(u64 i, u64 n) : i(i), n(n) {}
	static u128 at(u64 i) { return mk128(mon::mix64(i), mon::mix64(~i)); }
	Pair value() const override { return pr(at(i)); }
	bool last() const override { return i + 1 == n; }
	size_t size() const override { return 16; }
	shared_ptr<const gk::Iterator> next() const override { if (last()) return {}; return make_shared<Endless>(i + 1, n); }
};
// Blocks of any sizes at all, from a source of records: the mode reports what the input says.
struct Record { u128 v; size_t size; };
class RecordIter final : public gk::Iterator {
	const shared_ptr<const vector<Record>> d; const size_t i;
public:
	RecordIter(shared_ptr<const vector<Record>> d, size_t i) : d(std::move(d)), i(i) {}
	Pair value() const override { return pr((*d)[i].v); }
	bool last() const override { return i + 1 == d->size(); }
	size_t size() const override { return (*d)[i].size; }
	shared_ptr<const gk::Iterator> next() const override { if (last()) return {}; return make_shared<RecordIter>(d, i + 1); }
};
class RecordStream final : public gk::Stream {
	const shared_ptr<const vector<Record>> d;
public:
	explicit RecordStream(const vector<Record> &v) : d(make_shared<const vector<Record>>(v)) {}
	shared_ptr<const gk::Iterator> iter() const override { if (d->empty()) return {}; return make_shared<RecordIter>(d, 0); }
};
class EndlessStream final : public gk::Stream {
	const u64 n;
public:
	explicit EndlessStream(u64 n) : n(n) {}
	shared_ptr<const gk::Iterator> iter() const override { return make_shared<Endless>(0, n); }
};

static void far_walks();
static void checks() {
	if (mon::opts().mode == "fast") { far_walks(); return; }
	mon::group("walk", mon::count(500), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		const u64 iv = gen::word(r);
		const size_t n = size_t(i < 40 ? i : long(r.below(60)));
		auto w = words_for(r, n);
		if (r.chance(1, 4)) for (size_t j = 0; j + 1 < n; j += 2) {   // ciphertext all zero / all ones
			const u128 g = c.ref.enc(ctr_block(iv, j / 2)) ^ (r.chance(1, 2) ? u128(0) : ~u128(0));
			w[j] = lo64(g); w[j + 1] = hi64(g);
		}
		const auto b = blocks(w);
		const std::string ctx = mon::Msg() << c.what << " iv " << mon::hex(iv) << " words " << n;
		if (i < 2) mon::sample(ctx);
		const auto stream = make_shared<gk::StCTREncrypted>(make_shared<gk::StMemory>(w), c.key, iv);
		auto it = stream->iter();
		if (b.empty()) { MON_REQUIRE(!it, "empty", ctx << ": an empty input has an encrypted block"); mon::event("empty streams"); return; }
		vector<shared_ptr<const gk::Iterator>> its;
		size_t k = 0;
		for (; it; it = it->next(), k++) {
			MON_REQUIRE(k < b.size(), "too-many", ctx << ": more than " << b.size() << " blocks");
			look(c, iv, b[k], k, size_at(w, k), k + 1 == b.size(), it, ctx);
			its.push_back(it);
		}
		MON_REQUIRE(k == b.size(), "count", ctx << ": " << k << " blocks, input has " << b.size());
		// inspect again in any order, and step again from any iterator
		for (int j = 0; j < 12; j++) {
			const size_t p = r.below(its.size());
			look(c, iv, b[p], p, size_at(w, p), p + 1 == b.size(), its[p], ctx);
			const auto nx = its[p]->next();
			if (p + 1 == b.size()) { MON_REQUIRE(!nx, "past-end", ctx << ": an iterator past the last block"); }
			else look(c, iv, b[p + 1], p + 1, size_at(w, p + 1), p + 2 == b.size(), nx, ctx);
			mon::event("out-of-order inspections");
		}
		// a second walk is the same
		const auto again = stream->iter();
		look(c, iv, b[0], 0, size_at(w, 0), b.size() == 1, again, ctx);
		mon::seen(mon::hash_str(ctx));
	});
	mon::group("involution", mon::count(200), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		const u64 iv = gen::word(r);
		const size_t n = size_t(1 + (i < 20 ? i : long(r.below(40))));
		const auto w = words_for(r, n);
		const auto b = blocks(w);
		auto it = gk::StCTREncrypted(make_shared<gk::StCTREncrypted>(make_shared<gk::StMemory>(w), c.key, iv), c.key, iv).iter();
		size_t k = 0;
		for (; it; it = it->next(), k++) {
			MON_REQUIRE(k < b.size(), "too-many", "double encryption of " << n << " words has too many blocks");
			MON_REQUIRE(val(it->value()) == b[k] && it->size() == size_at(w, k) && it->last() == (k + 1 == b.size()), "involution", c.what << " iv " << mon::hex(iv) << " block " << k << " of " << n << " words not restored");
			mon::event("blocks restored");
		}
		MON_REQUIRE(k == b.size(), "count", "double encryption of " << n << " words has " << k << " blocks");
		mon::seen(mon::hash_str(c.what) ^ n);
	});
	mon::group("own-stream", mon::count(250), [](mon::Rng &r, long) {
		const auto c = cipher(r);
		const u64 iv = gen::word(r);
		const size_t n = 1 + r.below(8), tail = 1 + r.below(16);
		vector<u128> b(n);
		for (auto &x : b) x = gen::wide(r);
		const std::string ctx = mon::Msg() << c.what << " iv " << mon::hex(iv) << " own stream of " << n << " blocks, tail " << tail;
		auto it = gk::StCTREncrypted(make_shared<OwnStream>(b, tail), c.key, iv).iter();
		for (size_t k = 0; k < n; k++) { look(c, iv, b[k], k, k + 1 == n ? tail : 16, k + 1 == n, it, ctx); it = it->next(); }
		MON_REQUIRE(!it, "past-end", ctx << ": an iterator past the last block");
		mon::seen(mon::hash_str(ctx));
	});
	mon::group("record-stream", mon::count(250), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		const u64 iv = gen::word(r);
		vector<Record> b(1 + r.below(9));
		for (auto &x : b) { x.v = gen::wide(r); x.size = r.chance(1, 4) ? 16 : 1 + r.below(16); }
		if (i % 2) b.back().size = size_t(1 + i / 2 % 16);
		const std::string ctx = mon::Msg() << c.what << " iv " << mon::hex(iv) << " records of " << b.size() << " blocks, the last of " << b.back().size;
		const shared_ptr<const gk::Stream> once = make_shared<gk::StCTREncrypted>(make_shared<RecordStream>(b), c.key, iv);
		auto it = once->iter();
		vector<shared_ptr<const gk::Iterator>> its;
		for (size_t k = 0; k < b.size(); k++) { look(c, iv, b[k].v, k, b[k].size, k + 1 == b.size(), it, ctx); its.push_back(it); it = it->next(); }
		MON_REQUIRE(!it, "past-end", ctx << ": an iterator past the last block");
		for (int t = 0; t < 4; t++) { const size_t k = r.below(b.size()); look(c, iv, b[k].v, k, b[k].size, k + 1 == b.size(), its[k], ctx); }
		it = gk::StCTREncrypted(once, c.key, iv).iter();
		for (size_t k = 0; k < b.size(); k++) {
			MON_REQUIRE(!!it && val(it->value()) == b[k].v && it->size() == b[k].size && it->last() == (k + 1 == b.size()), "involution", ctx << ": block " << k << " not restored");
			it = it->next();
			mon::event("blocks restored");
		}
		mon::seen(mon::hash_str(ctx));
	});
	far_walks();
	// Counters no walk can reach: the step from one counter block to the next, and what both encipher to.
	mon::group("far-counters", mon::count(300), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		const u64 iv = gen::word(r);
		const int bit = int(i % 64);
		u64 low = (bit == 63 ? u64(1) << 63 : (u64(2) << bit) - 1) - r.below(2);
		if (r.chance(1, 4)) low = gen::word(r);
		if (low == ~u64(0)) low--;
		shared_ptr<const gk::Block> ctr = make_shared<gk::BlkRaw>(low, iv);
		for (int k = 0; k < 3 && low != ~u64(0); k++) {
			ctr = make_shared<gk::BlkIncremented>(ctr);
			low++;
			const auto v = ctr->value();
			MON_REQUIRE(v.first == low && v.second == iv, "counter", "counter " << mon::hex(low - 1) << " of iv " << mon::hex(iv) << " steps to " << mon::hex(v.first) << ", " << mon::hex(v.second));
			const auto e = gk::BlkEncrypted(ctr, c.key).value();
			MON_REQUIRE(val(e) == c.ref.enc(ctr_block(iv, low)), "counter", "counter block " << mon::hex(low) << " of iv " << mon::hex(iv) << " under " << c.what << " enciphers wrongly");
			mon::event("far counter steps");
		}
		mon::seen(mon::mix64(low) ^ iv);
	});
	mon::group("long-memory", mon::count(4, 4), [](mon::Rng &r, long) {
		const auto c = cipher(r);
		const u64 iv = gen::word(r);
		const auto w = words_for(r, 2 * 1400 + r.below(2));
		const auto b = blocks(w);
		const std::string ctx = mon::Msg() << c.what << " iv " << mon::hex(iv) << " words " << w.size();
		auto it = gk::StCTREncrypted(make_shared<gk::StMemory>(w), c.key, iv).iter();
		for (size_t k = 0; k < b.size(); k++) { look(c, iv, b[k], k, size_at(w, k), k + 1 == b.size(), it, ctx); it = it->next(); }
		MON_REQUIRE(!it, "past-end", ctx << ": an iterator past the last block");
	});
}
static void far_walks() {
	// Far positions: step without looking, look around powers of two.
	const bool deep = mon::opts().mode == "fast";
	const u64 most = deep ? (u64(1) << 32) + 3 : mon::opts().mode == "plain" ? (u64(1) << 26) + 3 : (u64(1) << 16) + 3;
	mon::group("far", deep ? 1 : 8, [most](mon::Rng &r, long c0) {
		const u64 reach = c0 == 0 ? most : std::min(most, (u64(1) << (16 + c0)) + r.below(99));
		const auto c = cipher(r);
		const u64 iv = gen::word(r);
		const std::string ctx = mon::Msg() << c.what << " iv " << mon::hex(iv) << " long stream";
		auto it = gk::StCTREncrypted(make_shared<EndlessStream>(reach), c.key, iv).iter();
		for (u64 i = 0; i < reach; i++) {
			const u64 low = i & (i + 1);            // i+1 power of two -> 0
			if (((i & (i - 1)) == 0 || low == 0 || ((i - 1) & (i - 2)) == 0 || i + 1 == reach)) {
				mon::note("far block " + std::to_string(i));
				look(c, iv, Endless::at(i), i, 16, i + 1 == reach, it, ctx);
			}
			else if (i % 1048576 == 5) mon::note("far block " + std::to_string(i));
			it = it->next();
		}
		MON_REQUIRE(!it, "past-end", ctx << ": an iterator past the last block");
		mon::event("blocks stepped over", reach);
		mon::seen(mon::hash_str(ctx));
	});
}
