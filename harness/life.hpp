// Objects of every kind whose arguments the caller overwrites and drops.
#pragma once
#include "scene.hpp"
namespace life {
using namespace sc;
struct Pot {
	mon::Rng &r;
	vector<std::function<void()>> drop;   // overwrite and let go one argument each
	vector<Op> kept;                      // what the caller still holds
	explicit Pot(mon::Rng &r) : r(r) {}
	template <class T> shared_ptr<T> hold(shared_ptr<T> p) {  // a handle that will be dropped later
		auto cell = make_shared<shared_ptr<T>>(p);
		drop.push_back([cell] { cell->reset(); });
		return p;
	}
	const std::string &text(const std::string &s) {
		auto p = make_shared<std::unique_ptr<std::string>>(std::make_unique<std::string>(s));
		drop.push_back([p] { for (auto &c : **p) c = 'f'; **p += "ff"; p->reset(); });
		return **p;
	}
	template <class T> const vector<T> &vec(const vector<T> &v) {
		auto p = make_shared<std::unique_ptr<vector<T>>>(std::make_unique<vector<T>>(v));
		drop.push_back([p] { for (auto &c : **p) c = T(0x5e); p->reset(); });
		return **p;
	}
	const void *mem(const void *d, size_t n) {
		auto p = make_shared<std::unique_ptr<u8[]>>(std::make_unique<u8[]>(n));
		memcpy(p->get(), d, n);
		drop.push_back([p, n] { memset(p->get(), 0x5e, n); p->reset(); });
		return p->get();
	}
	void keep(const std::string &n, std::function<Bytes()> f, Bytes want) { kept.push_back({n, std::move(f), std::move(want)}); }
};
inline vector<shared_ptr<void>> churn(mon::Rng &r) {
	vector<shared_ptr<void>> c;
	for (int i = 0; i < 60; i++) { const size_t n = 8 + 8 * r.below(24); const u8 v = u8(r.u()); shared_ptr<vector<u8>> p = make_shared<vector<u8>>(n, v); c.push_back(p); }
	return c;
}
inline size_t length(mon::Rng &r, u64 n) { return r.chance(1, 24) ? gen::about(r, int(3 + r.below(9))) : size_t(r.below(n)); }
inline shared_ptr<const gm::LazyKey> key_of(Pot &p, const Magma &c) {
	auto &r = p.r;
	shared_ptr<const gm::Sbox> sb;
	if (r.chance(1, 2)) sb = make_shared<gm::SboxTwisted>(std::make_unique<gm::SboxByte>(p.vec(packed_from_rows(c.rows))));
	else {
		vector<const vector<int> *> v;
		for (const auto &row : c.rows) v.push_back(&p.vec(vector<int>(row.begin(), row.end())));
		sb = make_shared<gm::SboxTwisted>(std::make_unique<gm::SboxNibble>(*v[0], *v[1], *v[2], *v[3], *v[4], *v[5], *v[6], *v[7]));
	}
	sb = p.hold(sb);
	switch (r.below(4)) {
	case 0: return p.hold(make_shared<const gm::LazyKey>(p.text(gen::key_text(c.k)), sb));
	case 1: return p.hold(make_shared<const gm::LazyKey>(p.vec(vector<u32>(c.k.begin(), c.k.end())), sb));
	case 2: return p.hold(make_shared<const gm::LazyKey>(std::make_unique<gm::KeyCachedData>(std::make_unique<gm::KeyDataNative>(p.vec(vector<u32>(c.k.begin(), c.k.end())))), sb));
	default: return p.hold(make_shared<const gm::LazyKey>(std::make_unique<gm::KeyDataString>(p.text(gen::key_text(c.k))), sb));
	}
}
inline void put_magma(Pot &p) {
	auto &r = p.r;
	Magma c;
	c.k = gen::key(r); c.rows = gen::rows(r);
	const auto key = key_of(p, c);
	if (r.chance(1, 4)) key->transform(1, 2);                     // some keys have been used before
	const u64 v = gen::word(r), w = gen::word(r);
	switch (r.below(17)) {
	case 14: { const auto e = make_shared<gm::EncryptionBase>(key); p.keep("one-block transform", [e, v] { return b64(e->transform(v)); }, b64(c.enc(v))); break; }
	case 15: {
		const shared_ptr<const gm::Block> b = r.chance(1, 2) ? p.hold(make_shared<const gm::BlkRaw>(v)) : p.hold(shared_ptr<const gm::Block>(make_shared<gm::BlkXored>(p.hold(make_shared<const gm::BlkRaw>(v ^ w)), p.hold(make_shared<const gm::BlkRaw>(w)))));
		const auto f = make_shared<gm::BlkForwarded>(b, key);
		const auto g = make_shared<gm::BlkBackwarded>(b, key);
		p.keep("forwarded block", [f] { return b64(f->value()); }, b64(c.forward(v)));
		p.keep("backwarded block", [g] { return b64(g->value()); }, b64(c.backward(v)));
		const auto sw = make_shared<gm::BlkSwapped>(b);
		p.keep("swapped block", [sw] { return b64(sw->value()); }, b64(v << 32 | v >> 32));
		const int n = int(r.below(64));
		const auto sh = make_shared<gm::BlkShifted>(b, n);
		p.keep("shifted block", [sh] { return b64(sh->value()); }, b64(v << n));
		const auto st = make_shared<gm::BlkString>(p.text(mon::hex(v)));
		p.keep("text block", [st] { return b64(st->value()); }, b64(v));
		const auto cp = make_shared<gm::BlkRaw>(b->value());
		p.keep("copied block", [cp] { return b64(cp->value()); }, b64(v));
		break;
	}
	case 16: {
		const auto packed = packed_from_rows(c.rows);
		const u32 x = gen::word32(r);
		const u32 y = c.subst(x);
		const auto sb = make_shared<gm::SboxByte>(p.vec(packed));
		p.keep("packed table", [sb, x] { return b64(u64(sb->transform(x))); }, b64(u64(y)));
		const auto tw = make_shared<gm::SboxTwisted>(std::make_unique<gm::SboxByte>(p.vec(packed)));
		p.keep("rotated table", [tw, x] { return b64(u64(tw->transform(x))); }, b64(u64(y << 11 | y >> 21)));
		vector<const vector<int> *> q;
		for (const auto &row : c.rows) q.push_back(&p.vec(vector<int>(row.begin(), row.end())));
		const auto nb = make_shared<gm::SboxNibble>(*q[0], *q[1], *q[2], *q[3], *q[4], *q[5], *q[6], *q[7]);
		p.keep("nibble table", [nb, x] { return b64(u64(nb->transform(x))); }, b64(u64(y)));
		const auto dn = make_shared<gm::KeyDataNative>(p.vec(vector<u32>(c.k.begin(), c.k.end())));
		const auto dt = make_shared<gm::KeyDataString>(p.text(gen::key_text(c.k)));
		const auto dc = make_shared<gm::KeyCachedData>(std::make_unique<gm::KeyDataString>(p.text(gen::key_text(c.k))));
		const size_t at = r.below(8);
		const vector<std::pair<std::string, shared_ptr<const gm::KeyData>>> all{{"native key words", dn}, {"text key words", dt}, {"cached key words", dc}};
		for (const auto &d : all) { const auto k = d.second; p.keep(d.first, [k, at] { return b64(u64(k->key(int(at)))); }, b64(u64(c.k[at]))); }
		break;
	}
	case 0: p.keep("key", [key] { return b64(gm::EncryptionBase(key).transform(5)); }, b64(c.enc(5))); break;
	case 1: { auto b = make_shared<gm::BlkEncrypted>(p.hold(make_shared<const gm::BlkString>(p.text(mon::hex(v)))), key); p.keep("encrypted block", [b] { return b64(b->value()); }, b64(c.enc(v))); break; }
	case 2: { auto b = make_shared<gm::BlkDecrypted>(p.hold(make_shared<const gm::BlkRaw>(p.mem(&v, 8))), key); p.keep("decrypted block", [b] { return b64(b->value()); }, b64(c.dec(v))); break; }
	case 3: {
		Bytes bytes;
		put64(bytes, w);
		auto b = make_shared<gm::BlkXored>(p.hold(make_shared<const gm::BlkShifted>(p.hold(make_shared<const gm::BlkRaw>(p.mem(&v, 8))), 7)),
			p.hold(make_shared<const gm::BlkSwapped>(p.hold(make_shared<const gm::BlkRaw>(p.vec(bytes))))), p.hold(make_shared<const gm::BlkString>(p.text(mon::hex(~v)))));
		p.keep("block arithmetic", [b] { return b64(b->value()); }, b64((v << 7) ^ (w << 32 | w >> 32) ^ ~v));
		break;
	}
	case 4: { auto b = make_shared<gm::BlkForwarded>(p.hold(make_shared<const gm::BlkRaw>(v)), key);
		const Bytes now = b64(b->value()); p.keep("forwarded block", [b] { return b64(b->value()); }, now); break; }
	case 5: case 6: case 7: {
		cfbv::Var var = cfbv::var(r);
		const Bytes m = gen::content(r, length(r, 60));
		auto s = cfbv::sink(var, p.hold(shared_ptr<const goost::Sink>(make_shared<RecSink>())), key);
		size_t at = 0;
		for (const auto n : gen::split(r, m.size())) { s = s->write(p.vec(tob(m, at, n))); at += n; if (r.chance(1, 2)) p.hold(s); }
		p.keep("CFB sink", [s] { return recorded(s->finalize()); }, cfbv::enc(var, c, m));
		const auto f = s->finalize();
		p.keep("finalized CFB sink", [f] { return recorded(f); }, cfbv::enc(var, c, m));
		const auto more = s;
		const size_t plus = r.chance(1, 2) ? 9 : 1 + r.below(300);
		p.keep("CFB sink, continued", [more, plus] { return recorded(more->write(vector<byte>(plus, byte(7)))->finalize()); }, cfbv::enc(var, c, [&] { Bytes x = m; x.resize(m.size() + plus, 7); return x; }()));
		break;
	}
	case 8: case 9: case 10: {
		cfbv::Var var = cfbv::var(r);
		const Bytes m = gen::content(r, length(r, 60));
		shared_ptr<const goost::Source> s = cfbv::source(var, p.hold(shared_ptr<const goost::Source>(make_shared<MemSource>(m))), key);
		size_t at = 0;
		for (size_t n = r.below(4); n > 0; n--) { auto x = s->read(r.below(20)); at += x.first.size(); p.vec(x.first); for (auto &b : x.first) b = byte(0x5e); p.hold(s); s = x.second; }
		const Bytes d = cfbv::dec(var, c, m);
		const size_t chunk = 1 + r.below(r.chance(1, 2) ? 20 : 400);
		p.keep("CFB source", [s, chunk] { return read_to_end(s, chunk); }, Bytes(d.begin() + long(at), d.end()));
		break;
	}
	case 11: {
		const Bytes m = gen::content(r, 8 * length(r, 6));
		shared_ptr<const goost::Sink> s = make_shared<gm::ECBSink>(p.hold(shared_ptr<const goost::Sink>(make_shared<RecSink>())), key);
		s = s->write(p.vec(tob(m)));
		p.keep("ECB sink", [s] { return recorded(s->finalize()); }, ecb_enc(c, m));
		const size_t plus = 8 * (1 + r.below(r.chance(1, 2) ? 3 : 40));
		p.keep("ECB sink, continued", [s, plus] { return recorded(s->write(vector<byte>(plus, byte(7)))->finalize()); }, ecb_enc(c, [&] { Bytes x = m; x.resize(m.size() + plus, 7); return x; }()));
		const auto one = make_shared<gm::ECBSink>(p.hold(shared_ptr<const goost::Sink>(make_shared<RecSink>())), key);
		p.keep("fresh ECB sink", [one] { return recorded(one->write(vector<byte>(8, byte(9)))->finalize()); }, ecb_enc(c, Bytes(8, 9)));
		const shared_ptr<const goost::Source> q = r.chance(1, 2)
			? make_shared<gm::ECBSource>(p.hold(shared_ptr<const goost::Source>(make_shared<MemSource>(m))), key)
			: make_shared<gm::ECBSource>(p.hold(shared_ptr<const goost::Source>(make_shared<MemSource>(m))), p.hold(shared_ptr<const gm::Container>(make_shared<HContainer>(c))));
		p.keep("ECB source", [q] { return read_to_end(q, 8); }, ecb_dec(c, m));
		break;
	}
	case 12: {
		const Bytes m = gen::content(r, 8 + 8 * length(r, 6));
		const auto i = make_shared<gm::Imit>(p.hold(shared_ptr<const goost::Source>(make_shared<MemSource>(m))), key);
		p.keep("Magma MAC", [i] { return b64(i->value()); }, b64(magma_mac_full(c, m)));
		break;
	}
	default: {
		const Bytes m = gen::content(r, length(r, 50));
		const auto i = make_shared<g89::DataImit>(p.vec(m), key);
		p.keep("28147 MAC", [i] { return i->value(); }, imit89(c, m));
		auto raw = std::make_unique<gm::BlkRaw>(v);
		const auto b = make_shared<g89::ImitedBlock>(*raw, key);
		raw.reset();
		p.keep("imited block", [b] { return b64(b->value().value()); }, b64(c.rounds16(v)));
		const auto tab = make_shared<gm::SboxByte64Tab>(p.vec(packed_from_rows(c.rows)), 1);
		p.keep("table column", [tab] { return b64(tab->translate(0x2b)); }, b64(u64(c.rows[2][0xb] | c.rows[3][2] << 4)));
	}
	}
}
inline void put_kuz(Pot &p) {
	auto &r = p.r;
	const auto kk = gen::kkey(r);
	const Kuz c(kk.k1, kk.k2);
	shared_ptr<const gk::Key> key;
	switch (r.below(3)) {
	case 0: key = make_shared<gk::Key>(p.text(gen::kkey_text(kk))); break;
	case 1: key = make_shared<gk::Key>(p.hold(shared_ptr<const gk::Key::Data>(make_shared<gk::KeyDataString>(p.text(gen::kkey_text(kk)))))); break;
	default: key = make_shared<gk::Key>(p.hold(shared_ptr<const gk::Key::Data>(make_shared<kz::OwnData>(kk.k1, kk.k2))));
	}
	p.hold(key);
	const u128 v = gen::wide(r);
	const auto raw = b128(v);
	auto block = [&]() -> shared_ptr<const gk::Block> {
		switch (r.below(3)) {
		case 0: return p.hold(make_shared<const gk::BlkString>(p.text(hex128(v))));
		case 1: return p.hold(make_shared<const gk::BlkRaw>(p.mem(raw.data(), 16)));
		default: return p.hold(make_shared<const gk::BlkCached>(p.hold(make_shared<const kz::OwnBlock>(v))));
		}
	};
	vector<u128> bl(1 + r.below(4));
	for (auto &b : bl) b = gen::wide(r);
	const u64 iv = gen::word(r);
	shared_ptr<const gk::Stream> st = r.chance(2, 3) ? shared_ptr<const gk::Stream>(make_shared<gk::StMemory>(p.vec(kz::words(bl)))) : shared_ptr<const gk::Stream>(make_shared<kz::OwnStream>(bl));
	p.hold(st);
	const auto f = [&](size_t i, u128 x) { return x ^ c.enc(ctr_block(iv, i)); };
	switch (r.below(11)) {
	case 9: {
		const u128 w = gen::wide(r);
		const int from = int(r.range(1, 32)), n = int(r.range(1, 4));
		u128 x = v, y = w;
		for (int j = from; j < from + n; j++) { const u128 t = LSX(Cn(j), x) ^ y; y = x; x = t; }
		const auto b = make_shared<gk::BlkIterKey>(block(), p.hold(make_shared<const gk::BlkRaw>(lo64(w), hi64(w))), from, from + n - 1);
		p.keep("key-schedule block", [b] { return b128(b->value()); }, b128(x));
		break;
	}
	case 10: {
		const int n = int(r.below(128));
		const vector<std::tuple<std::string, shared_ptr<const gk::Block>, u128>> all{
			{"S block", make_shared<gk::BlkS>(block()), S(v)}, {"L block", make_shared<gk::BlkL>(block()), L(v)}, {"R block", make_shared<gk::BlkR>(block()), R(v)},
			{"incremented block", make_shared<gk::BlkIncremented>(block()), v + 1}, {"wide shifted block", make_shared<gk::BlkShifted>(block(), n), v << n},
			{"cached block", make_shared<gk::BlkCached>(block()), v}, {"wide XOR", make_shared<gk::BlkXored>(block(), p.hold(make_shared<const gk::BlkRaw>(lo64(v)))), v ^ lo64(v)},
			{"wide text block", make_shared<gk::BlkString>(p.text(hex128(v))), v}, {"wide copied block", make_shared<gk::BlkRaw>(block()), v},
			{"wide memory block", make_shared<gk::BlkRaw>(p.mem(raw.data(), 16)), v}};
		for (const auto &x : all) { const auto b = std::get<1>(x); p.keep(std::get<0>(x), [b] { return b128(b->value()); }, b128(std::get<2>(x))); }
		break;
	}
	case 0: { const shared_ptr<const gk::Block> b = key->encrypt(block()); p.keep("result of the key's encrypt", [b] { return b128(b->value()); }, b128(c.enc(v))); break; }
	case 1: { const auto b = make_shared<gk::BlkEncrypted>(block(), key); p.keep("wide encrypted block", [b] { return b128(b->value()); }, b128(c.enc(v))); break; }
	case 2: {
		const auto b = make_shared<gk::BlkXored>(p.hold(make_shared<const gk::BlkL>(p.hold(make_shared<const gk::BlkS>(block())))), p.hold(make_shared<const gk::BlkR>(block())), p.hold(make_shared<const gk::BlkIncremented>(block())), p.hold(make_shared<const gk::BlkShifted>(block(), 70)));
		p.keep("wide block arithmetic", [b] { return b128(b->value()); }, b128(L(S(v)) ^ R(v) ^ (v + 1) ^ (v << 70)));
		break;
	}
	case 3: {
		auto d = std::make_unique<gk::KeyDataString>(p.text(gen::kkey_text(kk)));
		const auto lo = d->low(), hi = d->high();
		d.reset();
		const auto text = make_shared<gk::KeyDataString>(p.text(gen::kkey_text(kk)));
		p.keep("wide key text", [text] { Bytes x = b128(text->high()->value()); const Bytes y = b128(text->low()->value()); x.insert(x.end(), y.begin(), y.end()); return x; }, [&] { Bytes x = b128(kk.k1); const Bytes y = b128(kk.k2); x.insert(x.end(), y.begin(), y.end()); return x; }());
		p.keep("key halves", [lo, hi] { Bytes x = b128(lo->value()); const Bytes y = b128(hi->value()); x.insert(x.end(), y.begin(), y.end()); return x; }, [&] { Bytes x = b128(kk.k2); const Bytes y = b128(kk.k1); x.insert(x.end(), y.begin(), y.end()); return x; }());
		break;
	}
	case 4: case 5: {
		auto it = st->iter();
		size_t at = 0;
		while (r.chance(1, 2) && !it->last()) { p.hold(it); it = it->next(); at++; }
		p.keep("memory iterator", [it] { return walk(it); }, walk_want(bl, at, 16, [](size_t, u128 x) { return x; }));
		break;
	}
	case 6: case 7: {
		const auto ctr = p.hold(shared_ptr<const gk::Stream>(make_shared<gk::StCTREncrypted>(st, key, iv)));
		auto it = ctr->iter();
		size_t at = 0;
		while (r.chance(1, 2) && !it->last()) { p.hold(it); it = it->next(); at++; }
		if (r.chance(1, 2)) p.keep("CTR iterator", [it] { return walk(it); }, walk_want(bl, at, 16, f));
		else p.keep("CTR stream", [ctr] { return walk(ctr->iter()); }, walk_want(bl, 0, 16, f));
		break;
	}
	default: { const auto m = make_shared<gk::Imit>(st, key); p.keep("Kuznyechik MAC", [m] { return b128(m->value()); }, b128(kuz_mac(c, bl, 16))); }
	}
	if (r.chance(1, 4)) p.keep("wide key", [key, v] { return b128(key->encrypt(make_shared<kz::OwnBlock>(v))->value()); }, b128(c.enc(v)));
}
}
