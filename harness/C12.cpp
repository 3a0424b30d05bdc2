// C12: objects are immutable values: any earlier handle can be reused or forked.
#include "life.hpp"
#include "main.hpp"

using namespace sc;

struct SinkKind { std::string what; shared_ptr<const goost::Sink> first; std::function<Bytes(const Bytes &)> f; size_t align; int layers; };
static SinkKind sink_kind(mon::Rng &r, const mg::Cipher &c) {
	const auto v = cfbv::var(r), w = cfbv::var(r);
	const auto base = make_shared<RecSink>();
	switch (r.below(5)) {
	case 0: return {"ECB", make_shared<gm::ECBSink>(base, c.key), [c](const Bytes &m) { return ecb_enc(c.ref, m); }, 8, 1};
	case 1: return {"CFB over CFB", cfbv::sink(v, cfbv::sink(w, base, c.key), c.key), [=](const Bytes &m) { return cfbv::enc(w, c.ref, cfbv::enc(v, c.ref, m)); }, 1, 2};
	case 2: return {"ECB over CFB", make_shared<gm::ECBSink>(cfbv::sink(w, base, c.key), c.key), [=](const Bytes &m) { return cfbv::enc(w, c.ref, ecb_enc(c.ref, m)); }, 8, 2};
	default: return {v.what, cfbv::sink(v, base, c.key), [=](const Bytes &m) { return cfbv::enc(v, c.ref, m); }, 1, 1};
	}
}
static void checks() {
	mon::group("sink-forks", mon::count(1200), [](mon::Rng &r, long i) {
		const auto c = mg::cipher(r);
		const auto k = sink_kind(r, c);
		struct Node { shared_ptr<const goost::Sink> s; Bytes m; };
		vector<Node> pool{{k.first, {}}};
		const auto verify = [&](const Node &n, const char *when) {
			auto f = n.s;
			for (int l = 0; l < k.layers; l++) f = f->finalize();
			const Bytes got = recorded(f), want = k.f(n.m);
			MON_REQUIRE(got == want, "sink-fork", c.what << " " << k.what << " " << when << ": the handle that was given " << n.m.size() << " bytes finalizes to " << mon::hexb(got.data(), got.size()) << " expected " << mon::hexb(want.data(), want.size()));
			mon::event("sink handles finalized");
		};
		const int steps = int(6 + r.below(18));
		for (int t = 0; t < steps; t++) {
			const size_t p = r.chance(1, 3) ? pool.size() - 1 : r.below(pool.size());
			const Bytes d = gen::content(r, k.align * r.below(r.chance(1, 4) ? 40 : 12));
			Node n{pool[p].s->write(tob(d)), pool[p].m};
			n.m.insert(n.m.end(), d.begin(), d.end());
			if (r.chance(1, 3)) verify(pool[p], "right after a write from it");
			pool.push_back(n);
			mon::event("writes from earlier handles");
		}
		for (const auto &n : pool) verify(n, "at the end");
		verify(pool[0], "again");
		if (i < 2) mon::sample(mon::Msg() << k.what << ": " << pool.size() << " handles forked from one sink");
		mon::seen(mon::hash_str(c.what + k.what) ^ pool.size());
	});
	// Large pieces and long chains: every handle is still its own value.
	mon::group("large-forks", mon::count(40, 3), [](mon::Rng &r, long i) {
		const auto c = mg::cipher(r);
		const auto k = sink_kind(r, c);
		static const size_t base[] = {256, 1000, 4096, 8192, 16384, 5000, 65536, 300};
		const bool chain = i % 3 == 2;
		vector<shared_ptr<const goost::Sink>> hs{k.first};
		vector<size_t> len{0};
		Bytes m = gen::content(r, chain ? 8 * (300 + r.below(900)) : 3 * base[i % 8] + 8 * r.below(9));
		m.resize(m.size() / 8 * 8);
		while (len.back() < m.size()) {
			size_t n = chain ? k.align * (1 + r.below(3)) : std::max(k.align, (base[i % 8] + r.below(20)) / k.align * k.align);
			n = std::min(n, m.size() - len.back());
			hs.push_back(hs.back()->write(tob(Bytes(m.begin() + long(len.back()), m.begin() + long(len.back() + n)))));
			len.push_back(len.back() + n);
		}
		const auto verify = [&](size_t h, const char *when) {
			auto f = hs[h];
			for (int l = 0; l < k.layers; l++) f = f->finalize();
			MON_REQUIRE(recorded(f) == k.f(Bytes(m.begin(), m.begin() + long(len[h]))), "sink-fork", c.what << " " << k.what << " " << when << ": the handle after " << h << " writes, " << len[h] << " bytes in all, does not finalize to its own data");
			mon::event("sink handles finalized");
		};
		for (int t = 0; t < 6; t++) verify(r.below(hs.size()), "after a long chain of writes");
		verify(0, "the first handle"); verify(hs.size() - 1, "the last handle"); verify(hs.size() / 2, "the middle handle"); verify(hs.size() - 1, "the last handle again");
		// the same data read back in large pieces from handles kept along the way
		const auto v = cfbv::var(r);
		const Bytes want = cfbv::dec(v, c.ref, m);
		vector<std::pair<shared_ptr<const goost::Source>, size_t>> ss{{cfbv::source(v, make_shared<MemSource>(m), c.key), 0}};
		while (ss.back().second < m.size()) {
			auto x = ss.back().first->read(chain ? 1 + r.below(30) : base[i % 8] + r.below(20));
			MON_REQUIRE(!x.first.empty(), "source-fork", "read ends at " << ss.back().second << " of " << m.size());
			ss.push_back({x.second, ss.back().second + x.first.size()});
		}
		for (int t = 0; t < 8; t++) {
			const auto &s = ss[r.below(ss.size())];
			const size_t ask = r.chance(1, 2) ? r.below(40) : base[r.below(8)], n = std::min(ask, m.size() - s.second);
			MON_REQUIRE(fromb(s.first->read(ask).first) == Bytes(want.begin() + long(s.second), want.begin() + long(s.second + n)), "source-fork", c.what << " " << v.what << ": reading " << ask << " bytes again from position " << s.second << " of " << want.size());
			mon::event("reads from earlier handles");
		}
		mon::seen(mon::hash_str(c.what) ^ m.size());
	});
	mon::group("source-forks", mon::count(1200), [](mon::Rng &r, long) {
		const auto c = mg::cipher(r);
		const auto v = cfbv::var(r), w = cfbv::var(r);
		const auto kind = r.below(5);
		const size_t unit = kind == 0 ? 8 : 1;
		const Bytes ct = gen::content(r, unit * r.below(90));
		const auto under = make_shared<MemSource>(ct);
		shared_ptr<const goost::Source> first;
		Bytes want;
		if (kind == 0) { first = make_shared<gm::ECBSource>(under, c.key); want = ecb_dec(c.ref, ct); }
		else if (kind == 1) { first = cfbv::source(v, cfbv::source(w, under, c.key), c.key); want = cfbv::dec(v, c.ref, cfbv::dec(w, c.ref, ct)); }
		else { first = cfbv::source(v, under, c.key); want = cfbv::dec(v, c.ref, ct); }
		struct Node { shared_ptr<const goost::Source> s; size_t pos; };
		vector<Node> pool{{first, 0}};
		for (int t = 0; t < 30; t++) {
			const size_t p = r.below(pool.size());
			const Node n = pool[p];
			const size_t ask = kind == 0 ? 8 : r.below(r.chance(1, 4) ? 100 : 20);
			auto res = n.s->read(ask);
			const Bytes got = fromb(res.first);
			const size_t m = std::min(ask, want.size() - n.pos);
			MON_REQUIRE(got == Bytes(want.begin() + long(n.pos), want.begin() + long(n.pos + m)), "source-fork", c.what << " kind " << kind << ": reading " << ask << " bytes again from position " << n.pos << " of " << want.size() << " gives " << mon::hexb(got.data(), got.size()));
			pool.push_back({res.second, n.pos + m});
			mon::event("reads from earlier handles");
		}
		// the underlying source did not move
		MON_REQUIRE(fromb(under->read(~size_t(0)).first) == ct, "source-under", "the underlying source moved");
		mon::seen(mon::hash_str(c.what) ^ ct.size() ^ kind << 40);
	});
	mon::group("iterator-forks", mon::count(250), [](mon::Rng &r, long) {
		const auto c = kz::cipher(r);
		const size_t n = 1 + r.below(14);
		vector<u64> w(n);
		for (auto &x : w) x = gen::word(r);
		const auto b = kz::blocks(w);
		const u64 iv = gen::word(r);
		const bool ctr = r.chance(2, 3);
		shared_ptr<const gk::Stream> s = make_shared<gk::StMemory>(w);
		if (ctr) s = make_shared<gk::StCTREncrypted>(s, c.key, iv);
		struct Node { shared_ptr<const gk::Iterator> it; size_t i; };
		vector<Node> pool{{s->iter(), 0}, {s->iter(), 0}};
		for (int t = 0; t < 24; t++) {
			const Node x = pool[r.below(pool.size())];
			const bool last = x.i + 1 == b.size();
			const size_t size = last && n % 2 ? 8 : 16;
			const u128 mask = size == 16 ? ~u128(0) : u128(~0ull);
			const u128 want = b[x.i] ^ (ctr ? c.ref.enc(ctr_block(iv, x.i)) : 0);
			for (int rep = 0; rep < 2; rep++) {
				if (r.chance(1, 2)) MON_REQUIRE((kz::val(x.it->value()) & mask) == (want & mask), "iterator-fork", c.what << (ctr ? " CTR" : " memory") << " block " << x.i << " of " << b.size() << " changed its value");
				MON_REQUIRE(x.it->last() == last && x.it->size() == size, "iterator-fork", c.what << (ctr ? " CTR" : " memory") << " block " << x.i << " of " << b.size() << " changed last/size");
				mon::event("iterator inspections");
			}
			auto nx = x.it->next();
			MON_REQUIRE(!nx == last, "iterator-end", c.what << " block " << x.i << " of " << b.size() << (nx ? " has a successor" : " has no successor"));
			if (nx) pool.push_back({nx, x.i + 1});
		}
		mon::seen(mon::hash_str(c.what) ^ n);
	});
	// every operation of a scene, repeatedly and in random order on the same objects
	mon::group("repeats", mon::count(160), [](mon::Rng &r, long i) {
		const auto s = i % 4 == 3 ? scene(r, size_t(300) << r.below(6), 40) : scene(r, 40, 3);
		for (size_t t = 0; t < 2 * s.size(); t++) {
			const auto &o = s[r.below(s.size())];
			mon::note(o.name);
			check(o, o.run(), "operation repeated in random order");
			mon::event("operations on shared objects");
		}
		for (const auto &o : s) check(o, o.run(), "operation after all others");
		mon::seen(r.u());
	});
	// the same when nobody but the object itself holds its arguments any more
	mon::group("sole-owner", mon::count(1500), [](mon::Rng &r, long) {
		life::Pot p(r);
		const size_t n = 1 + r.below(3);
		for (size_t k = 0; k < n; k++) { if (r.chance(2, 3)) life::put_magma(p); else life::put_kuz(p); }
		const bool early = r.chance(1, 3);
		if (early) for (const auto &o : p.kept) check(o, o.run(), "before the arguments are dropped");
		for (const auto &d : p.drop) d();
		p.drop.clear();
		for (size_t t = 0; t < 2 * p.kept.size() + 2; t++) {
			const auto &o = p.kept[r.below(p.kept.size())];
			mon::note(o.name);
			check(o, o.run(), "operation repeated by the only owner");
			mon::event("operations by the only owner");
		}
		for (const auto &o : p.kept) for (int k = 0; k < 2; k++) check(o, o.run(), "operation of the only owner after all others");
		mon::seen(r.u());
	});
	// an operation's arguments are left as they were
	mon::group("arguments", mon::count(600), [](mon::Rng &r, long) {
		const auto c = mg::cipher(r);
		const auto k = sink_kind(r, c);
		const Bytes d = gen::content(r, k.align * r.below(40));
		const auto arg = tob(d);
		const auto s = k.first->write(arg);
		MON_REQUIRE(fromb(arg) == d, "argument", c.what << " " << k.what << ": write changed its argument");
		auto raw = make_shared<gm::BlkRaw>(gen::word(r));
		const auto before = raw->value();
		gm::BlkEncrypted(raw, c.key).value(); gm::BlkDecrypted(raw, c.key).value();
		gm::BlkShifted(raw, 3).value(); gm::BlkSwapped(raw).value(); gm::BlkXored(raw, raw).value();
		MON_REQUIRE(raw->value() == before, "argument", c.what << ": a block changed when used");
		mon::event("arguments compared");
		mon::seen(mon::hash_str(c.what));
	});
}
