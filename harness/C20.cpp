// C20: objects stay usable whatever happens to what they were built from.
// Everything an object was built from is overwritten and dropped, in random order and at random times,
// the freed memory is reused, and only then is the object used and compared.
#include "life.hpp"
using namespace life;

static void checks() {
	mon::group("lifetimes", mon::count(2000), [](mon::Rng &r, long i) {
		Pot p(r);
		const size_t n = 1 + r.below(3);
		for (size_t k = 0; k < n; k++) { if (r.chance(3, 5)) put_magma(p); else put_kuz(p); }
		auto use = [&](const char *when) {
			for (const auto &o : p.kept) { mon::note(o.name); check(o, o.run(), when); mon::event("used after drop: " + o.name); }
		};
		if (r.chance(1, 4)) use("before anything is dropped");
		// drop in random order; now and then use everything half way through
		for (size_t k = p.drop.size(); k > 1; k--) std::swap(p.drop[k - 1], p.drop[r.below(k)]);
		const size_t half = r.below(p.drop.size() + 1);
		for (size_t k = 0; k < p.drop.size(); k++) {
			p.drop[k]();
			mon::event("arguments overwritten and dropped");
			if (k == half && r.chance(1, 3)) use("half way through");
		}
		p.drop.clear();
		const auto c = churn(r);
		use("after everything else is gone");
		// the kept ones go too, in random order
		while (p.kept.size() > 1) { p.kept.erase(p.kept.begin() + long(r.below(p.kept.size()))); use("after other results are gone"); }
		mon::seen(r.u());
		if (i < 3 && !p.kept.empty()) mon::sample(p.kept[0].name + " used after all its arguments were overwritten and dropped");
	});
	// whole expressions built from temporaries
	mon::group("temporaries", mon::count(600), [](mon::Rng &r, long) {
		Magma c;
		c.k = gen::key(r); c.rows = rows3412();
		const auto kk = gen::kkey(r);
		const Kuz q(kk.k1, kk.k2);
		const Bytes m = gen::content(r, r.below(40));
		const u64 v = gen::word(r);
		vector<u128> bl(1 + r.below(3));
		for (auto &b : bl) b = gen::wide(r);
		const auto s = goost::gost89::CFBSink(make_shared<RecSink>(), make_shared<gm::LazyKey>(gen::key_text(c.k)), v).write(tob(m));
		const auto t = gm::CFBSink(make_shared<RecSink>(), make_shared<gm::LazyKey>(gen::key_text(c.k)), v, ~v).write(tob(m))->write(tob(m));
		const auto e = gm::ECBSink(make_shared<RecSink>(), make_shared<gm::LazyKey>(gen::key_text(c.k))).write(vector<byte>(16, byte(1)));
		const auto src = gm::CFBSource(make_shared<MemSource>(m), make_shared<gm::LazyKey>(gen::key_text(c.k)), v, ~v).read(5).second;
		const auto it = gk::StCTREncrypted(make_shared<gk::StMemory>(kz::words(bl)), make_shared<gk::Key>(gen::kkey_text(kk)), v).iter();
		const auto mi = make_shared<gk::StMemory>(kz::words(bl))->iter();
		const shared_ptr<const gk::Block> eb = gk::Key(gen::kkey_text(kk)).encrypt(make_shared<gk::BlkString>(hex128(bl[0])));
		const auto cc = churn(r);
		Bytes mm = m;
		mm.insert(mm.end(), m.begin(), m.end());
		const Bytes d = cfb(c, {v, ~v}, m, true);
		check({"28147 CFB sink", {}, cfb(c, {v}, m, false)}, recorded(s->finalize()), "built from temporaries");
		check({"34.13 CFB sink", {}, cfb(c, {v, ~v}, mm, false)}, recorded(t->finalize()), "built from temporaries");
		check({"ECB sink", {}, ecb_enc(c, Bytes(16, 1))}, recorded(e->finalize()), "built from temporaries");
		check({"34.13 CFB source", {}, Bytes(d.begin() + long(std::min<size_t>(5, d.size())), d.end())}, read_to_end(src, 3), "built from temporaries");
		check({"CTR iterator", {}, walk_want(bl, 0, 16, [&](size_t i, u128 x) { return x ^ q.enc(ctr_block(v, i)); })}, walk(it), "built from temporaries");
		check({"memory iterator", {}, walk_want(bl, 0, 16, [](size_t, u128 x) { return x; })}, walk(mi), "built from temporaries");
		check({"encrypted block", {}, b128(q.enc(bl[0]))}, b128(eb->value()), "built from temporaries");
		mon::event("expressions of temporaries used", 7);
		mon::seen(r.u());
	});
}
#include "main.hpp"
