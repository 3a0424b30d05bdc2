// C23: pipelines equal the composed functions.
#include "scene.hpp"
using namespace sc;

struct Layer { bool ecb; cfbv::Var v; mg::Cipher c; bool alias; };
static Layer layer(mon::Rng &r, bool ecb_ok, const Layer *kin = nullptr) {
	Layer l;
	l.c = kin ? mg::kin(r, kin->c) : mg::cipher(r);
	l.ecb = ecb_ok && r.chance(1, 4);
	l.v = cfbv::var(r);
	if (kin && r.chance(2, 3)) {
		// the layer below once more, or nearly so
		l.ecb = ecb_ok && kin->ecb;
		l.v = kin->v;
		for (auto &w : l.v.iv) w = gen::near(r, w);
	}
	l.alias = r.chance(1, 2);
	return l;
}
static vector<Layer> layers(mon::Rng &r, size_t depth, bool ecb_ok) {
	vector<Layer> ls;
	const bool kin = r.chance(1, 2);
	while (ls.size() < depth) ls.push_back(layer(r, ecb_ok, kin && !ls.empty() ? &ls[r.below(ls.size())] : nullptr));
	return ls;
}
static Bytes enc(const Layer &l, const Bytes &m) { return l.ecb ? ecb_enc(l.c.ref, m) : cfbv::enc(l.v, l.c.ref, m); }
static Bytes dec(const Layer &l, const Bytes &m) { return l.ecb ? ecb_dec(l.c.ref, m) : cfbv::dec(l.v, l.c.ref, m); }
static shared_ptr<const goost::Sink> sink(const Layer &l, const shared_ptr<const goost::Sink> &u) { if (l.ecb) return make_shared<gm::ECBSink>(u, l.c.key); return cfbv::sink(l.v, u, l.c.key); }
static shared_ptr<const goost::Source> source(const Layer &l, const shared_ptr<const goost::Source> &u) { if (l.ecb) return make_shared<gm::ECBSource>(u, l.c.key); return cfbv::source(l.v, u, l.c.key); }
static std::string show(const vector<Layer> &ls) { std::string s; for (const auto &l : ls) s += (s.empty() ? "" : " > ") + (l.ecb ? std::string("ECB") : l.v.m ? std::string("CFB-34.13") : std::string("CFB-28147")); return s; }

static void checks() {
	// sink stack: outermost first in ls
	mon::group("sinks and back", mon::count(1500), [](mon::Rng &r, long i) {
		const size_t depth = 1 + r.below(i % 10 ? 4 : 9);
		const bool whole = r.chance(1, 2);
		const size_t n = i % 16 == 7 ? gen::about(r, int(4 + r.below(11))) / 8 * 8 + (whole ? 0 : r.below(8)) : whole ? 8 * r.below(12) : r.below(90);
		const auto ls = layers(r, depth, whole);
		const Bytes m = gen::content(r, n);
		shared_ptr<const goost::Sink> s = make_shared<RecSink>();
		for (size_t k = depth; k > 0; k--) s = sink(ls[k - 1], s);
		Bytes want = m;
		for (const auto &l : ls) want = enc(l, want);
		// ECB layers above a CFB one still need whole blocks per write
		const bool ecb_top = ls[0].ecb;
		bool any_ecb = false;
		for (const auto &l : ls) any_ecb |= l.ecb;
		const auto sizes = gen::split(r, n, any_ecb || ecb_top ? 8 : 1);
		size_t at = 0;
		for (const auto w : sizes) { s = s->write(tob(m, at, w)); at += w; mon::event("writes through a stack"); }
		for (size_t k = 0; k < depth; k++) s = s->finalize();
		const Bytes got = recorded(s);
		mon::event("stacks unwound"); mon::event("layers", depth);
		if (any_ecb) mon::event("stacks with an ECB layer");
		MON_REQUIRE(got == want, "sink stack", show(ls) << ", " << n << " bytes in " << gen::show_split(sizes) << ": innermost holds " << mon::hexb(got.data(), got.size()) << " expected " << mon::hexb(want.data(), want.size()));
		// the mirrored stack of sources restores the message
		shared_ptr<const goost::Source> q = make_shared<MemSource>(got);
		for (size_t k = depth; k > 0; k--) q = source(ls[k - 1], q);
		const size_t chunk = ecb_top ? 8 + r.below(20) : 1 + r.below(40);
		const Bytes back = read_to_end(q, chunk);
		mon::event("messages read back");
		MON_REQUIRE(back == m, "source stack", show(ls) << ", " << n << " bytes read back by " << chunk << ": " << mon::hexb(back.data(), back.size()) << " expected " << mon::hexb(m.data(), m.size()));
		mon::seen(mon::hash_str(show(ls)) ^ mon::hash_bytes(m.data(), n));
		if (i < 3) mon::sample(show(ls) + " over " + std::to_string(n) + " bytes: innermost equals the composition, and reads back");
	});
	// decryptors over decryptors on arbitrary bytes, not made by the mirrored sinks
	mon::group("sources", mon::count(1200), [](mon::Rng &r, long i) {
		const size_t depth = 2 + r.below(4);
		const bool whole = r.chance(1, 2);
		const size_t n = i % 16 == 7 ? gen::about(r, int(4 + r.below(10))) / 8 * 8 + (whole ? 0 : r.below(8)) : whole ? 8 * r.below(12) : r.below(90);
		const auto ls = layers(r, depth, whole);
		const Bytes ct = gen::content(r, n);
		shared_ptr<const goost::Source> q = make_shared<MemSource>(ct);
		Bytes want = ct;
		for (size_t k = depth; k > 0; k--) { q = source(ls[k - 1], q); want = dec(ls[k - 1], want); }
		Bytes got;
		gen::ReadPlan plan(r);
		for (int idle = 0; idle < 300;) {
			size_t ask = plan.next();
			if (ls[0].ecb && ask < 8) ask = 8;
			auto x = q->read(ask);
			q = x.second;
			const Bytes b = fromb(x.first);
			if (b.empty()) { if (ask) break; idle++; continue; }
			got.insert(got.end(), b.begin(), b.end());
			idle = 0;
			mon::event("reads through a stack");
		}
		MON_REQUIRE(got == want, "sources", show(ls) << ", " << n << " bytes: " << mon::hexb(got.data(), got.size()) << " expected " << mon::hexb(want.data(), want.size()));
		mon::seen(mon::hash_str(show(ls)) ^ mon::hash_bytes(ct.data(), n));
	});
	// MAC over decrypting sources (whole blocks)
	mon::group("mac over sources", mon::count(800), [](mon::Rng &r, long i) {
		const size_t depth = 1 + r.below(4), n = 8 * (1 + (i % 16 == 7 ? gen::about(r, int(2 + r.below(9))) : r.below(14)));
		const auto ls = layers(r, depth, true);
		const auto mk = r.chance(1, 2) ? mg::kin(r, ls[0].c) : mg::cipher(r);
		const Bytes ct = gen::content(r, n);
		shared_ptr<const goost::Source> q = make_shared<MemSource>(ct);
		Bytes want = ct;
		for (size_t k = depth; k > 0; k--) { q = source(ls[k - 1], q); want = dec(ls[k - 1], want); }
		const gm::Imit mac(q, mk.key);
		const u64 got = val(mac.value()), exp = magma_mac_full(mk.ref, want);
		mon::event("MACs over decryptors");
		MON_REQUIRE(got == exp, "mac over source", "MAC over " << show(ls) << ", " << n << " bytes: " << mon::hex(got) << " expected " << mon::hex(exp));
		MON_REQUIRE(val(mac.value()) == exp && read_to_end(q, 8) == want, "mac over source again", "MAC over " << show(ls) << ": using the source again gives another result");
		mon::seen(mon::hash_str(show(ls)) ^ mon::hash_bytes(ct.data(), n));
	});
	// streams over streams
	mon::group("streams", mon::count(250), [](mon::Rng &r, long) {
		const size_t depth = 1 + r.below(4);
		vector<u128> bl(1 + r.below(5));
		for (auto &b : bl) b = gen::wide(r);
		const auto orig = bl;
		shared_ptr<const gk::Stream> s = make_shared<gk::StMemory>(kz::words(bl));
		vector<kz::Cipher> ks;
		vector<u64> ivs;
		for (size_t k = 0; k < depth; k++) {
			const bool kin = k > 0 && r.chance(2, 3);
			const size_t of = kin ? r.below(k) : 0;
			ks.push_back(kin ? kz::kin(r, ks[of]) : kz::cipher(r)); ivs.push_back(kin && r.chance(2, 3) ? gen::near(r, ivs[of]) : gen::word(r));
			s = make_shared<gk::StCTREncrypted>(s, ks[k].key, ivs[k]);
			for (size_t i = 0; i < bl.size(); i++) bl[i] ^= ks[k].ref.enc(ctr_block(ivs[k], i));
		}
		const auto id = [](size_t, u128 x) { return x; };
		const auto got = walk(s->iter());
		mon::event("streams over streams");
		MON_REQUIRE(got == walk_want(bl, 0, 16, id), "streams", depth << " counter-mode layers over " << bl.size() << " blocks: wrong stream");
		const auto mk = r.chance(1, 2) ? kz::kin(r, ks.back()) : kz::cipher(r);
		const u128 mac = kz::val(gk::Imit(s, mk.key).value());
		mon::event("MACs over streams");
		MON_REQUIRE(mac == kuz_mac(mk.ref, bl, 16), "mac over streams", "MAC over " << depth << " counter-mode layers: " << hex128(mac) << " expected " << hex128(kuz_mac(mk.ref, bl, 16)));
		// undo the layers, in any order
		vector<size_t> o(depth);
		for (size_t k = 0; k < depth; k++) o[k] = k;
		for (size_t k = depth; k > 1; k--) std::swap(o[k - 1], o[r.below(k)]);
		for (const auto k : o) s = make_shared<gk::StCTREncrypted>(s, ks[k].key, ivs[k]);
		mon::event("streams restored");
		MON_REQUIRE(walk(s->iter()) == walk_want(orig, 0, 16, id), "streams back", depth << " counter-mode layers undone do not give the message back");
		mon::seen(lo64(mac));
	});
	// mixing the ciphers: a source of bytes made from a wide stream and back
	mon::group("mixed ciphers", mon::count(250), [](mon::Rng &r, long) {
		class StreamSource final : public goost::Source {
			const shared_ptr<const gk::Iterator> it; const size_t off;
		public:
			StreamSource(shared_ptr<const gk::Iterator> it, size_t off) : it(std::move(it)), off(off) {}
			pair<vector<byte>, shared_ptr<const goost::Source>> read(size_t size) const override {
				vector<byte> o; auto i = it; size_t k = off;
				while (o.size() < size && i) {
					const Bytes b = b128(i->value());
					while (o.size() < size && k < i->size()) o.push_back(byte(b[k++]));
					if (k >= i->size()) { i = i->next(); k = 0; }
				}
				return {o, make_shared<StreamSource>(i, k)};
			}
		};
		const auto k = kz::cipher(r);
		vector<u128> bl(1 + r.below(4));
		for (auto &b : bl) b = gen::wide(r);
		const u64 iv = gen::word(r);
		const auto s = make_shared<gk::StCTREncrypted>(make_shared<gk::StMemory>(kz::words(bl)), k.key, iv);
		Bytes bytes;
		for (size_t i = 0; i < bl.size(); i++) { const Bytes b = b128(bl[i] ^ k.ref.enc(ctr_block(iv, i))); bytes.insert(bytes.end(), b.begin(), b.end()); }
		const auto ls = layers(r, 1 + r.below(3), true);
		shared_ptr<const goost::Source> q = make_shared<StreamSource>(s->iter(), 0);
		Bytes want = bytes;
		for (size_t d = ls.size(); d > 0; d--) { q = source(ls[d - 1], q); want = dec(ls[d - 1], want); }
		const Bytes got = read_to_end(q, 8 + r.below(30));
		mon::event("Magma over Kuznyechik");
		MON_REQUIRE(got == want, "mixed", show(ls) << " over counter mode: " << mon::hexb(got.data(), got.size()) << " expected " << mon::hexb(want.data(), want.size()));
		// and a wide MAC over what the Magma sinks deliver
		shared_ptr<const goost::Sink> w = make_shared<RecSink>();
		for (size_t d = ls.size(); d > 0; d--) w = sink(ls[d - 1], w);
		w = w->write(tob(bytes));
		Bytes e = bytes;
		for (const auto &l : ls) { w = w->finalize(); e = enc(l, e); }
		const Bytes rec = recorded(w);
		MON_REQUIRE(rec == e, "mixed sink", show(ls) << ": innermost sink holds other bytes than the composition");
		vector<u64> words;
		for (size_t i = 0; i + 8 <= rec.size(); i += 8) words.push_back(le64(&rec[i]));
		vector<u128> eb = kz::blocks(words);
		MON_REQUIRE(kz::val(gk::Imit(make_shared<gk::StMemory>(words), k.key).value()) == kuz_mac(k.ref, eb, 16), "mixed mac", "Kuznyechik MAC over Magma ciphertext is wrong");
		mon::event("Kuznyechik over Magma");
		mon::seen(lo64(eb[0]));
	});
	// the order of finalization: each layer's pending bytes arrive when that layer is finalized, in order
	mon::group("unwinding", mon::count(800), [](mon::Rng &r, long) {
		const auto two = layers(r, 2, false);
		const auto &a = two[0], &b = two[1];
		const Bytes m = gen::content(r, r.below(40)), extra = gen::content(r, r.below(20));
		auto s = sink(a, sink(b, make_shared<RecSink>()))->write(tob(m));
		// after the outer layer is finalized the inner one is a sink of its own and takes more bytes
		const auto inner = s->finalize();
		Bytes mid = enc(a, m);
		MON_REQUIRE(recorded(inner->finalize()) == enc(b, mid), "unwind", show({a, b}) << ": " << m.size() << " bytes unwound give other bytes");
		const auto cont = inner->write(tob(extra))->finalize();
		mid.insert(mid.end(), extra.begin(), extra.end());
		MON_REQUIRE(recorded(cont) == enc(b, mid), "unwind and go on", show({a, b}) << ": writing on to the inner sink after " << m.size() << " bytes gives other bytes");
		mon::event("stacks unwound step by step");
		mon::seen(mon::hash_bytes(mid.data(), mid.size()));
	});
}
#include "main.hpp"
