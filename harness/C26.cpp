// C26: pipelines work on demand and in a single pass.
#include "life.hpp"
#include "main.hpp"

using namespace sc;

static long calls[P_COUNT];
static void count_call(int p) { calls[p]++; }
struct Counting {
	Counting() { for (auto &c : calls) c = 0; hk::hook = count_call; }
	~Counting() { hk::hook = nullptr; }
};
// Tables may be looked into when they are built; everything else has to wait.
static std::string touched(long kdata_allowed, bool container_allowed) {
	for (int p = 0; p < P_COUNT; p++) {
		if (p == P_SBOX || p == P_TAB || (p == P_CONTAINER && container_allowed)) continue;
		const long n = calls[p] - (p == P_KDATA ? kdata_allowed : 0);
		if (n > 0) return mon::Msg() << point_name(p) << " asked " << calls[p] << " times";
	}
	return {};
}

// A journal below a pipeline: what was asked for, and whether any handle was used twice.
struct Journal {
	size_t asked = 0;          // end of the furthest range asked for
	size_t got = 0;            // bytes written
	Bytes bytes;
	long uses = 0;
	std::string twice;
	void use(bool &used, const char *what, size_t at) {
		if (used && twice.empty()) twice = mon::Msg() << what << " at byte or block " << at << " used a second time";
		used = true;
		uses++;
	}
};
using Log = shared_ptr<Journal>;
// Sources, sinks and streams that can be gone through once, like a pipe.
class OnceSource final : public goost::Source {
	const shared_ptr<const Bytes> d; const size_t pos; const Log log; const size_t broken; mutable bool used = false;
public:
	OnceSource(shared_ptr<const Bytes> d, size_t p, Log l, size_t broken) : d(std::move(d)), pos(p), log(std::move(l)), broken(broken) {}
	pair<vector<byte>, shared_ptr<const goost::Source>> read(size_t size) const override {
		if (size == 0) return {vector<byte>{}, make_shared<OnceSource>(d, pos, log, broken)};
		log->use(used, "the source", pos);
		const size_t end = pos + std::min(size, d->size() - pos);
		log->asked = std::max(log->asked, end);
		if (end > broken) throw Boom(long(pos));
		const size_t n = std::min(size, d->size() - pos);
		vector<byte> r(n);
		for (size_t i = 0; i < n; i++) r[i] = byte((*d)[pos + i]);
		return {r, make_shared<OnceSource>(d, pos + n, log, broken)};
	}
};
class OnceSink final : public goost::Sink {
	const size_t pos; const Log log; mutable bool used = false;
public:
	OnceSink(size_t pos, Log l) : pos(pos), log(std::move(l)) {}
	shared_ptr<const goost::Sink> write(const vector<byte> &d) const override {
		log->use(used, "the sink", pos);
		for (const auto b : d) log->bytes.push_back(std::to_integer<u8>(b));
		return make_shared<OnceSink>(pos + d.size(), log);
	}
	shared_ptr<const goost::Sink> finalize() const override { mon::fail("finalized-through", "finalizing an encrypting sink finalized the sink below"); }
};
class OnceIter final : public gk::Iterator {
	const shared_ptr<const vector<u128>> d; const size_t i, tail; const Log log; mutable bool used = false;
public:
	OnceIter(shared_ptr<const vector<u128>> d, size_t i, size_t tail, Log l) : d(std::move(d)), i(i), tail(tail), log(std::move(l)) {}
	kz::Pair value() const override { at(P_IVALUE); return kz::pr((*d)[i]); }
	bool last() const override { return i + 1 == d->size(); }
	size_t size() const override { return last() ? tail : 16; }
	shared_ptr<const gk::Iterator> next() const override {
		log->use(used, "the iterator", i);
		at(P_NEXT);
		if (last()) return {};
		log->asked = std::max(log->asked, i + 2);
		return make_shared<OnceIter>(d, i + 1, tail, log);
	}
};
class OnceStream final : public gk::Stream {
	const shared_ptr<const vector<u128>> d; const size_t tail; const Log log; mutable bool used = false;
public:
	OnceStream(const vector<u128> &v, size_t tail, Log l) : d(make_shared<const vector<u128>>(v)), tail(tail), log(std::move(l)) {}
	shared_ptr<const gk::Iterator> iter() const override {
		log->use(used, "the stream", 0);
		at(P_ITER);
		log->asked = std::max<size_t>(log->asked, 1);
		if (d->empty()) return {};
		return make_shared<OnceIter>(d, 0, tail, log);
	}
};

struct Layer { bool ecb; cfbv::Var v; mg::Cipher c; };
static vector<Layer> layers(mon::Rng &r, bool ecb_possible) {
	vector<Layer> l(1 + r.below(r.chance(1, 3) ? 4 : 1));
	for (auto &x : l) { x.ecb = ecb_possible && r.chance(1, 3); x.v = cfbv::var(r); x.c = mg::cipher(r); }
	return l;
}
static std::string show(const vector<Layer> &l) { std::string s; for (const auto &x : l) s += (x.ecb ? std::string("ECB") : x.v.what) + " " + x.c.what + "; "; return s; }

template <class F>
static void built(const char *what, long kdata, F f, bool container = false) {
	std::string t;
	{
		Counting c;
		const auto o = f();
		t = touched(kdata, container);
	}
	MON_REQUIRE(t.empty(), "eager", "building " << what << ": " << t);
	mon::event("objects built and watched");
}

static void checks() {
	mon::group("building", mon::count(3000), [](mon::Rng &r, long i) {
		Magma c;
		c.k = gen::key(r); c.rows = gen::rows(r);
		const auto sb = make_shared<HSbox>(c.rows);
		const auto key = make_shared<HKey>(c);
		const auto lazy = make_shared<gm::LazyKey>(std::make_unique<HKeyData>(c.k), sb);
		const auto b = make_shared<HBlock>(gen::word(r)), d = make_shared<HBlock>(gen::word(r));
		const Bytes m = gen::content(r, r.below(60));
		const auto src = make_shared<HSource>(m);
		const auto snk = make_shared<HSink>();
		const u64 iv = gen::word(r), iw = gen::word(r);
		const int n = int(r.below(64));
		built("a key over key data", 0, [&] { return make_shared<gm::LazyKey>(std::make_unique<HKeyData>(c.k), sb); });
		built("cached key data", 0, [&] { return make_shared<gm::KeyCachedData>(std::make_unique<HKeyData>(c.k)); });
		built("a block transformation", 0, [&] { return make_shared<gm::EncryptionBase>(key); });
		built("an encrypted block", 0, [&] { return make_shared<gm::BlkEncrypted>(b, key); });
		built("a decrypted block", 0, [&] { return make_shared<gm::BlkDecrypted>(b, key); });
		built("a forwarded block", 0, [&] { return make_shared<gm::BlkForwarded>(b, key); });
		built("a backwarded block", 0, [&] { return make_shared<gm::BlkBackwarded>(b, key); });
		built("a swapped block", 0, [&] { return make_shared<gm::BlkSwapped>(b); });
		built("a shifted block", 0, [&] { return make_shared<gm::BlkShifted>(b, n); });
		built("an XOR of blocks", 0, [&] { return make_shared<gm::BlkXored>(b, d, b); });
		built("a nested block", 0, [&] { return make_shared<gm::BlkDecrypted>(make_shared<gm::BlkEncrypted>(make_shared<gm::BlkXored>(b, d), lazy), key); });
		built("an ECB sink", 0, [&] { return make_shared<gm::ECBSink>(snk, key); });
		built("an ECB source", 0, [&] { return make_shared<gm::ECBSource>(src, key); });
		built("an ECB source with a container", 0, [&] { return make_shared<gm::ECBSource>(src, make_shared<HContainer>(c)); }, true);
		built("a 34.13 CFB sink", 0, [&] { return make_shared<gm::CFBSink>(snk, key, iv, iw); });
		built("a 28147-89 CFB sink", 0, [&] { return make_shared<g89::CFBSink>(snk, key, iv); });
		built("a 34.13 CFB source", 0, [&] { return make_shared<gm::CFBSource>(src, key, iv, iw); });
		built("a 28147-89 CFB source", 0, [&] { return make_shared<g89::CFBSource>(src, key, iv); });
		built("a stack of sinks", 0, [&] { return make_shared<gm::CFBSink>(make_shared<g89::CFBSink>(make_shared<gm::ECBSink>(snk, key), lazy, iv), key, iv, iw); });
		built("a stack of sources", 0, [&] { return make_shared<gm::ECBSource>(make_shared<g89::CFBSource>(make_shared<gm::CFBSource>(src, key, iv, iw), lazy, iv), key); });
		built("a Magma MAC", 0, [&] { return make_shared<gm::Imit>(src, lazy); });
		built("a MAC over a decrypting source", 0, [&] { return make_shared<gm::Imit>(make_shared<gm::CFBSource>(src, key, iv, iw), lazy); });
		built("a 28147-89 MAC", 0, [&] { return make_shared<g89::DataImit>(m, lazy); });
		built("an imited block", 0, [&] { return make_shared<g89::ImitedBlock>(gm::BlkRaw(iv), lazy); });
		const auto kk = gen::kkey(r);
		const auto kd = make_shared<KData>(kk.k1, kk.k2);
		const auto wk = make_shared<gk::Key>(kd);
		const auto x = make_shared<KBlock>(gen::wide(r)), y = make_shared<KBlock>(gen::wide(r));
		const auto st = make_shared<KStream>(vector<u128>(1 + r.below(5), gen::wide(r)));
		built("a wide key", 2, [&] { return make_shared<gk::Key>(kd); });
		built("a wide encrypted block", 0, [&] { return make_shared<gk::BlkEncrypted>(x, wk); });
		built("a cached block", 0, [&] { return make_shared<gk::BlkCached>(x); });
		built("an S block", 0, [&] { return make_shared<gk::BlkS>(x); });
		built("an L block", 0, [&] { return make_shared<gk::BlkL>(x); });
		built("an R block", 0, [&] { return make_shared<gk::BlkR>(x); });
		built("an incremented block", 0, [&] { return make_shared<gk::BlkIncremented>(x); });
		built("a wide shifted block", 0, [&] { return make_shared<gk::BlkShifted>(x, 2 * n + 1); });
		built("a wide XOR", 0, [&] { return make_shared<gk::BlkXored>(x, y, x); });
		built("a schedule block", 0, [&] { return make_shared<gk::BlkIterKey>(x, y, 1, 8); });
		built("a nested wide block", 0, [&] { return make_shared<gk::BlkCached>(make_shared<gk::BlkEncrypted>(make_shared<gk::BlkXored>(x, make_shared<gk::BlkL>(y)), wk)); });
		built("a CTR stream", 0, [&] { return make_shared<gk::StCTREncrypted>(st, wk, iv); });
		built("a stack of CTR streams", 0, [&] { return make_shared<gk::StCTREncrypted>(make_shared<gk::StCTREncrypted>(st, wk, iv), wk, iw); });
		built("a Kuznyechik MAC", 0, [&] { return make_shared<gk::Imit>(make_shared<gk::StCTREncrypted>(st, wk, iv), wk); });
		if (i < 1) mon::sample("40 kinds of objects built over counting parts: no part was asked for anything");
		mon::seen(iv ^ kz::val(x->value()));
	});
	mon::group("reading", mon::count(3000), [](mon::Rng &r, long i) {
		auto l = layers(r, true);
		bool ecb = false;
		for (const auto &x : l) ecb = ecb || x.ecb;
		const size_t unit = ecb ? 8 : 1;
		const Bytes ct = gen::content(r, unit * r.below(r.chance(1, 10) ? 2000 : 120));
		Bytes want = ct;
		for (const auto &x : l) want = x.ecb ? ecb_dec(x.c.ref, want) : cfbv::dec(x.v, x.c.ref, want);
		const auto log = make_shared<Journal>();
		// in half of the cases the source breaks somewhere, and all that comes well before is still delivered
		const size_t broken = r.chance(1, 2) ? ~size_t(0) : r.below(ct.size() + 1);
		shared_ptr<const goost::Source> s = make_shared<OnceSource>(make_shared<const Bytes>(ct), 0, log, broken);
		for (const auto &x : l) s = x.ecb ? make_shared<gm::ECBSource>(s, x.c.key) : cfbv::source(x.v, s, x.c.key);
		const bool outer_ecb = l.back().ecb;
		size_t pos = 0;
		for (int t = 0; t < 400; t++) {
			const size_t n = outer_ecb ? 8 + (r.chance(1, 2) ? 0 : r.below(30)) : 1 + r.below(r.chance(1, 6) ? 200 : 20);
			size_t need = pos + n;
			for (size_t j = 0; j < l.size(); j++) need = (need + 7) / 8 * 8 + 8;
			pair<vector<byte>, shared_ptr<const goost::Source>> res;
			try { res = s->read(n); }
			catch (const Injected &) {
				MON_REQUIRE(need > broken, "read-ahead", show(l) << "the source fails past byte " << broken << ", and so did a read of " << n << " bytes from position " << pos);
				mon::event("reads that needed what the source could not give");
				break;
			}
			const size_t m = std::min(outer_ecb ? std::max<size_t>(8, res.first.size()) : n, want.size() - pos);
			MON_REQUIRE(fromb(res.first) == Bytes(want.begin() + long(pos), want.begin() + long(pos + m)), "once-read", show(l) << "reading " << n << " bytes from position " << pos << " of " << want.size() << " over a one-pass source gives other bytes");
			MON_REQUIRE(log->asked <= need, "read-ahead", show(l) << log->asked << " bytes were asked of the source for the " << pos + n << " asked for so far");
			MON_REQUIRE(log->twice.empty(), "second-pass", show(l) << "read in one pass: " << log->twice);
			mon::event("reads over one-pass sources");
			if (res.first.empty()) break;
			pos += res.first.size();
			s = res.second;
		}
		if (i < 1) mon::sample(mon::Msg() << show(l) << "read to " << pos << " of " << want.size() << " bytes with " << log->uses << " reads of the one-pass source");
		mon::seen(mon::hash_str(show(l)) ^ ct.size());
	});
	mon::group("writing", mon::count(3000), [](mon::Rng &r, long i) {
		auto l = layers(r, true);
		bool ecb = false;
		// below an ECB sink everything is whole blocks; above it only whole blocks may be written
		for (const auto &x : l) ecb = ecb || x.ecb;
		const size_t unit = ecb ? 8 : 1;
		const auto log = make_shared<Journal>();
		const Bytes m = gen::content(r, unit * r.below(r.chance(1, 10) ? 2000 : 150));
		Bytes want = m;
		shared_ptr<const goost::Sink> s = make_shared<OnceSink>(0, log);
		for (const auto &x : l) s = x.ecb ? make_shared<gm::ECBSink>(s, x.c.key) : cfbv::sink(x.v, s, x.c.key);
		for (size_t j = l.size(); j-- > 0;) want = l[j].ecb ? ecb_enc(l[j].c.ref, want) : cfbv::enc(l[j].v, l[j].c.ref, want);
		const auto right = [&](const char *when, size_t given) {
			MON_REQUIRE(log->bytes.size() <= given && std::equal(log->bytes.begin(), log->bytes.end(), want.begin()), "once-write", show(l) << when << " " << given << " bytes: the one-pass sink has " << log->bytes.size() << " bytes which do not begin the ciphertext");
			MON_REQUIRE(log->twice.empty(), "second-pass", show(l) << when << " " << given << " bytes: " << log->twice);
		};
		size_t pos = 0;
		while (pos < m.size()) {
			const size_t n = std::min(m.size() - pos, unit * (r.chance(1, 6) ? 1 + r.below(200) : 1 + r.below(20)));
			if (r.chance(1, 10)) s = s->write({});
			s = s->write(tob(m, pos, n));
			pos += n;
			right("after", pos);
			MON_REQUIRE(log->bytes.size() + 8 * l.size() >= pos, "held-back", show(l) << "of " << pos << " bytes written only " << log->bytes.size() << " were passed on");
			mon::event("writes over one-pass sinks");
		}
		for (size_t j = 0; j < l.size(); j++) s = s->finalize();
		right("finalized after", pos);
		MON_REQUIRE(log->bytes == want, "once-write", show(l) << "finalized: the one-pass sink has " << log->bytes.size() << " of " << want.size() << " bytes");
		if (i < 1) mon::sample(mon::Msg() << show(l) << m.size() << " bytes passed on by " << log->uses << " writes to the one-pass sink");
		mon::seen(mon::hash_str(show(l)) ^ m.size());
	});
	mon::group("stepping", mon::count(800), [](mon::Rng &r, long i) {
		vector<kz::Cipher> cs;
		vector<u64> ivs;
		for (size_t n = 1 + r.below(3); n > 0; n--) { cs.push_back(kz::cipher(r)); ivs.push_back(gen::word(r)); }
		vector<u128> d(r.below(r.chance(1, 8) ? 60 : 9));
		for (auto &x : d) x = gen::wide(r);
		const size_t tail = 1 + r.below(16);
		const auto log = make_shared<Journal>();
		shared_ptr<const gk::Stream> s = make_shared<OnceStream>(d, tail, log);
		for (size_t j = 0; j < cs.size(); j++) s = make_shared<gk::StCTREncrypted>(s, cs[j].key, ivs[j]);
		const auto value = [&](size_t k) { u128 v = d[k]; for (size_t j = 0; j < cs.size(); j++) v ^= cs[j].ref.enc(ctr_block(ivs[j], k)); return v; };
		// values at all, some or none of the steps
		const int looks = int(r.below(3));
		shared_ptr<const gk::Iterator> it;
		size_t k = 0;
		const auto step = [&](const char *what, const std::function<shared_ptr<const gk::Iterator>()> &f) {
			{ Counting c; it = f(); }
			MON_REQUIRE(calls[P_IVALUE] == 0, "eager-step", what << " " << k << " asked for the value of " << calls[P_IVALUE] << " blocks below");
			MON_REQUIRE(log->asked <= k + 1, "step-ahead", what << " " << k << " walked the stream below to block " << log->asked);
			MON_REQUIRE(log->twice.empty(), "second-pass", what << " " << k << ": " << log->twice);
			mon::event("steps over one-pass streams");
		};
		step("starting", [&] { return s->iter(); });
		MON_REQUIRE(!it == d.empty(), "once-walk", "a stream of " << d.size() << " blocks " << (it ? "has a first one" : "is empty"));
		while (it) {
			MON_REQUIRE(it->last() == (k + 1 == d.size()) && it->size() == (k + 1 == d.size() ? tail : 16), "once-walk", "size or last mark of block " << k << " of " << d.size());
			if (looks == 0 || (looks == 1 && r.chance(1, 3))) {
				const size_t n = it->size();
				const Bytes got = b128(it->value()), want = b128(value(k));
				MON_REQUIRE(std::equal(got.begin(), got.begin() + long(n), want.begin()), "once-walk", "value of block " << k << " of " << d.size() << " over a one-pass stream");
				mon::event("values over one-pass streams");
			}
			MON_REQUIRE(log->asked <= k + 1, "step-ahead", "looking at block " << k << " walked the stream below to block " << log->asked);
			const auto now = it;
			k++;
			step("step to", [&] { return now->next(); });
			MON_REQUIRE(!it == (k >= d.size()), "once-walk", "end of a stream of " << d.size() << " blocks at " << k);
		}
		if (i < 1) mon::sample(mon::Msg() << cs.size() << " CTR streams over a one-pass stream of " << d.size() << " blocks, one step below for each step");
		mon::seen(ivs[0] ^ d.size() << 8 ^ tail);
	});
	// MACs go through their data once.
	mon::group("authenticating", mon::count(800), [](mon::Rng &r, long) {
		{
			const auto c = mg::cipher(r);
			const auto v = cfbv::var(r);
			const bool over = r.chance(1, 2);
			const Bytes m = gen::content(r, 8 * (1 + r.below(20)));
			const Bytes under = over ? cfbv::enc(v, c.ref, m) : m;
			const auto log = make_shared<Journal>();
			shared_ptr<const goost::Source> s = make_shared<OnceSource>(make_shared<const Bytes>(under), 0, log, ~size_t(0));
			if (over) s = cfbv::source(v, s, c.key);
			const u64 got = mg::val(gm::Imit(s, c.key).value());
			MON_REQUIRE(got == magma_mac_full(c.ref, m), "once-mac", c.what << ": MAC of " << m.size() << " bytes from a one-pass source");
			MON_REQUIRE(log->twice.empty(), "second-pass", c.what << ": MAC of " << m.size() << " bytes: " << log->twice);
			mon::event("MACs over one-pass sources");
		}
		{
			const auto c = kz::cipher(r);
			vector<u128> d(1 + r.below(10));
			for (auto &x : d) x = gen::wide(r);
			const bool over = r.chance(1, 2);
			const u64 iv = gen::word(r);
			const auto log = make_shared<Journal>();
			shared_ptr<const gk::Stream> s = make_shared<OnceStream>(d, 16, log);
			if (over) { s = make_shared<gk::StCTREncrypted>(s, c.key, iv); for (size_t k = 0; k < d.size(); k++) d[k] ^= c.ref.enc(ctr_block(iv, k)); }
			const u128 got = kz::val(gk::Imit(s, c.key).value());
			MON_REQUIRE(got == kuz_mac(c.ref, d, 16), "once-mac", c.what << ": MAC of " << d.size() << " blocks from a one-pass stream");
			MON_REQUIRE(log->twice.empty(), "second-pass", c.what << ": MAC of " << d.size() << " blocks: " << log->twice);
			mon::event("MACs over one-pass streams");
			mon::seen(iv ^ lo64(got));
		}
	});
}
