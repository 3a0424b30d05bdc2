// C14: no memory error, undefined behaviour or leak for any well-formed use.
// The verdict is the sanitizers' (asan+ubsan build) or the allocation monitor's (plain build: canaries,
// poison, live-count balance, and independence of what fresh memory contains); results are compared
// only to see whether they depend on uninitialised memory.
#include "life.hpp"
#include "main.hpp"

using namespace life;

static volatile u64 sink_;
static __attribute__((noinline)) void paint_stack(u8 v) { volatile u8 a[24000]; for (size_t i = 0; i < sizeof a; i++) a[i] = v; sink_ = a[v]; }

static Bytes all(const Scene &s) {
	Bytes d;
	for (const auto &o : s) {
		mon::note(o.name);
		const Bytes b = o.run();
		d.insert(d.end(), b.begin(), b.end());
		u8 x = 0;
		for (const auto c : b) x = u8(x ^ c);
		if (x == 0x5e) mon::event("results used in a decision");    // so that memcheck judges every bit of them
		mon::event("operations");
	}
	return d;
}
static void checks() {
	const bool plain = mon::opts().mode == "plain";
	mon::group("scenes", mon::count(plain ? 400 : 300), [plain](mon::Rng &r, long i) {
		const long before = alloc::live_count;
		{
			const u64 seed = r.u();
			Bytes d[2];
			for (int k = 0; k < 2; k++) {
				if (k == 1 && !plain) break;
				mon::Rng q(seed);
				alloc::fill = k ? 0xff : 0x00;
				paint_stack(k ? 0xff : 0x00);
				const auto s = scene(q, i % 4 ? 40 : 200, 3);
				d[k] = all(s);
			}
			alloc::fill = 0xa5;
			if (plain) { MON_REQUIRE(d[0] == d[1], "uninitialised", "results depend on what fresh memory contained"); mon::event("results compared under two memory patterns"); }
		}
		if (plain) { const long after = alloc::live_count; (void)before; (void)after; }
		mon::event("scenes");
		mon::seen(r.u());
	});
	// balance: building, using and dropping objects leaves nothing allocated
	if (plain) mon::group("balance", mon::count(300), [](mon::Rng &r, long) {
		const u64 seed = r.u();
		long use[3];
		for (int k = 0; k < 3; k++) {
			const long before = alloc::live_count;
			{ mon::Rng q(seed); const auto s = scene(q, 40, 2); for (const auto &o : s) { try { o.run(); } catch (const std::exception &) {} } }
			use[k] = alloc::live_count - before;
		}
		MON_REQUIRE(use[2] == 0, "leak", use[2] << " allocations of a scene are still live after all its objects are gone");
		mon::event("scenes balanced");
		mon::seen(seed);
	});
	// objects that outlive what they were built from
	mon::group("lifetimes", mon::count(500, 20), [](mon::Rng &r, long) {
		Pot p(r);
		if (r.chance(3, 5)) put_magma(p); else put_kuz(p);
		const auto use = [&] { for (const auto &o : p.kept) { mon::note(o.name); sink_ = o.run().size(); mon::event("uses after the arguments are gone"); } };
		for (size_t k = p.drop.size(); k > 1; k--) std::swap(p.drop[k - 1], p.drop[r.below(k)]);
		if (r.chance(1, 3)) use();
		for (const auto &d : p.drop) d();
		p.drop.clear();
		use();
		mon::seen(r.u());
	});
	mon::group("lengths", mon::count(420, 10), [](mon::Rng &r, long i) {
		const auto c = mg::cipher(r);
		const size_t n = size_t(i % 140);
		const Bytes m = gen::content(r, n);
		for (int k = 0; k < 2; k++) {
			cfbv::Var v;
			v.m = k;
			v.iv = {gen::word(r), gen::word(r)};
			if (!k) v.iv.pop_back();
			shared_ptr<const goost::Sink> s = cfbv::sink(v, make_shared<RecSink>(), c.key);
			size_t p = 0;
			for (const auto w : gen::split(r, n)) { s = s->write(tob(m, p, w)); p += w; s->finalize(); }
			s->finalize();
			gen::ReadPlan plan(r);
			shared_ptr<const goost::Source> q = cfbv::source(v, make_shared<MemSource>(m), c.key);
			size_t got = 0;
			for (int t = 0; t < 400 && got < n; t++) { auto x = q->read(plan.next()); got += x.first.size(); q = x.second; }
			q->read(9);
		}
		gm::Imit(make_shared<MemSource>(m), c.key).value();
		g89::DataImit(m, c.key).value();
		try { make_shared<gm::ECBSink>(make_shared<RecSink>(), c.key)->write(tob(m)); } catch (const std::exception &) {}
		try { shared_ptr<const goost::Source> q = make_shared<gm::ECBSource>(make_shared<MemSource>(m), c.key); while (true) { auto x = q->read(8 + r.below(9)); if (x.first.empty()) break; q = x.second; } } catch (const std::exception &) {}
		mon::event("lengths driven");
		mon::seen(n << 8 | u64(r.below(256)));
	});
	// Messages and streams of every order of magnitude, as one piece and in pieces
	if (mon::opts().mode != "valgrind") mon::group("long", mon::count(60, 10), [](mon::Rng &r, long i) {
		const auto c = mg::cipher(r);
		const size_t n = gen::about(r, int(6 + i % 10));
		mon::note("length " + std::to_string(n));
		const Bytes m = gen::content(r, n);
		const shared_ptr<const gm::Key> key = r.chance(1, 2) ? shared_ptr<const gm::Key>(c.key) : shared_ptr<const gm::Key>(make_shared<OwnKey>(c.ref));
		cfbv::Var v = cfbv::var(r);
		const size_t a = r.below(10), b = r.below(n + 1);
		auto s = cfbv::sink(v, make_shared<RecSink>(), key)->write(tob(m, 0, std::min(a, b)))->write(tob(m, std::min(a, b), b - std::min(a, b)))->write(tob(m, b));
		sink_ = recorded(s->finalize()).size();
		auto q = cfbv::source(v, make_shared<MemSource>(m), key)->read(a).second->read(b);
		sink_ = q.second->read(~size_t(0)).first.size();
		if (i % 2) {
			sink_ = gm::Imit(make_shared<MemSource>(m), c.key).value().first;
			sink_ = g89::DataImit(m, c.key).value()[0];
		}
		try { sink_ = recorded(make_shared<gm::ECBSink>(make_shared<RecSink>(), key)->write(tob(m))->finalize()).size(); } catch (const std::exception &) {}
		try { read_to_end(make_shared<gm::ECBSource>(make_shared<MemSource>(m), key), 8 + r.below(99)); } catch (const std::exception &) {}
		const auto kc = kz::cipher(r);
		vector<u64> w(std::min<size_t>(n, 3000));
		for (auto &x : w) x = r.u();
		const auto st = make_shared<gk::StMemory>(w);
		for (auto it = gk::StCTREncrypted(st, kc.key, r.u()).iter(); it; it = it->next()) if (r.chance(1, 30)) sink_ = it->value().first;
		if (i % 4 == 0) sink_ = gk::Imit(st, kc.key).value().first;
		mon::event("long messages driven");
		mon::seen(n);
	});
	mon::group("words", mon::count(160, 10), [](mon::Rng &r, long i) {
		const auto c = kz::cipher(r);
		vector<u64> w(size_t(i % 20));
		for (auto &x : w) x = gen::word(r);
		const auto s = make_shared<gk::StMemory>(w);
		walk(s->iter());
		walk(gk::StCTREncrypted(s, c.key, gen::word(r)).iter());
		try { gk::Imit(s, c.key).value(); } catch (const std::exception &) {}
		mon::event("word counts driven");
		mon::seen(w.size() << 8 | u64(r.below(256)));
	});
	// raw memory: exactly as many readable bytes as a block has, at every alignment
	mon::group("alignment", mon::count(160, 10), [](mon::Rng &r, long i) {
		const size_t off = size_t(i % 16);
		const auto p = std::make_unique<u8[]>(off + 8);
		const auto q = std::make_unique<u8[]>(off + 16);
		for (size_t k = 0; k < off + 8; k++) p[k] = u8(r.u());
		for (size_t k = 0; k < off + 16; k++) q[k] = u8(r.u());
		const u64 a = val(gm::BlkRaw(static_cast<const void *>(p.get() + off)).value());
		const u128 b = kz::val(gk::BlkRaw(static_cast<const void *>(q.get() + off)).value());
		sink_ = a ^ lo64(b);
		const Bytes v(p.get() + off, p.get() + off + 8);
		sink_ = val(gm::BlkRaw(v).value());
		mon::event("raw loads");
		mon::seen(a);
	});
	mon::group("shifts", 64 + 128, [](mon::Rng &r, long i) {
		if (i < 64) sink_ = val(gm::BlkShifted(make_shared<gm::BlkRaw>(r.u()), int(i)).value());
		else sink_ = lo64(kz::val(gk::BlkShifted(make_shared<gk::BlkRaw>(r.u(), r.u()), int(i - 64)).value()));
		mon::event("shift amounts");
		mon::seen(u64(i));
	});
	mon::group("blocks", mon::count(1500), [](mon::Rng &r, long) {
		const auto x = make_shared<gk::BlkRaw>(kz::pr(gen::wide(r)));
		sink_ = lo64(kz::val(gk::BlkR(x).value())) ^ lo64(kz::val(gk::BlkL(x).value())) ^ lo64(kz::val(gk::BlkS(x).value())) ^ lo64(kz::val(gk::BlkIncremented(x).value()));
		const auto t = nibble(gen::rows(r));
		const gm::SboxByte bt(packed_from_rows(gen::rows(r)));
		for (int k = 0; k < 8; k++) sink_ = t->transform(gen::word32(r)) ^ bt.transform(gen::word32(r));
		for (int k = 0; k < 3; k++) { const size_t n = 1 + r.below(16); std::string s; while (s.size() < n) s += "0123456789abcdefABCDEF"[r.below(22)]; sink_ = val(gm::BlkString(s).value()); sink_ = lo64(kz::val(gk::BlkString(s + s).value())); }
		const gm::SboxByte64Tab tab(packed_from_rows(gen::rows(r)), int(r.below(4)));
		for (int k = 0; k < 4; k++) sink_ = tab.translate(int(gen::word32(r)));
		mon::event("block transformations");
		mon::seen(r.u());
	});
	mon::group("malformed", mon::count(200), [](mon::Rng &r, long) {
		// refusals must not touch memory out of bounds either
		const auto refuse = [](const std::function<void()> &f) { try { f(); } catch (const std::exception &) { mon::event("refusals"); } };
		const size_t n = r.below(80);
		refuse([&] { gm::LazyKey(std::string(n, 'a')).transform(1, int(r.below(8))); });
		refuse([&] { gk::Key(std::string(n, 'a')).encrypt(make_shared<gk::BlkRaw>())->value(); });
		refuse([&] { gm::LazyKey(vector<u32>(r.below(12), 7u), sbox(rows3412(), 3)).transform(1, int(r.below(8))); });
		refuse([&] { gm::BlkString(std::string(n, '1')).value(); });
		refuse([&] { gk::BlkString(std::string(n, '1')).value(); });
		refuse([&] { gm::BlkRaw(Bytes(r.below(8))).value(); });
		refuse([&] { gm::SboxByte(Bytes(r.below(64))).transform(0xffffffffu); });
		mon::seen(n);
	});
}
