// A scene: a random set of goost objects shared by a list of operations, each with the result
// the reference model predicts. Nothing is evaluated while the scene is built, so the first use
// of every object is the caller's. Operations may be run in any order, repeatedly, from any thread.
#pragma once
#include "hooked.hpp"
#include <goost/gost89/DataImit.h>
#include <goost/gost89/ImitedBlock.h>
#include <goost/kuznyechik/BlkCached.h>
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/BlkIncremented.h>
#include <goost/kuznyechik/BlkIterKey.h>
#include <goost/kuznyechik/BlkL.h>
#include <goost/kuznyechik/BlkR.h>
#include <goost/kuznyechik/BlkRaw.h>
#include <goost/kuznyechik/BlkS.h>
#include <goost/kuznyechik/BlkShifted.h>
#include <goost/kuznyechik/BlkString.h>
#include <goost/kuznyechik/BlkXored.h>
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/KeyDataString.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>
#include <goost/magma/BlkBackwarded.h>
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkForwarded.h>
#include <goost/magma/BlkRaw.h>
#include <goost/magma/BlkShifted.h>
#include <goost/magma/BlkString.h>
#include <goost/magma/BlkSwapped.h>
#include <goost/magma/BlkXored.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/EncryptionBase.h>
#include <goost/magma/Imit.h>
#include <goost/magma/KeyDataNative.h>
#include <goost/magma/KeyDataString.h>
#include <goost/magma/SboxByte64Tab.h>

namespace sc {
using namespace hk;
namespace gk = goost::kuznyechik;
namespace g89 = goost::gost89;

struct Op { std::string name; std::function<Bytes()> run; Bytes want; };
using Scene = vector<Op>;

inline Bytes b64(u64 v) { Bytes o; put64(o, v); return o; }
inline Bytes b64(const mg::Pair &p) { return b64(mg::val(p)); }
inline Bytes b128(u128 v) { Bytes o; put64(o, lo64(v)); put64(o, hi64(v)); return o; }
inline Bytes b128(const kz::Pair &p) { return b128(kz::val(p)); }

inline Bytes read_to_end(shared_ptr<const goost::Source> s, size_t chunk) {
	Bytes got;
	while (true) {
		auto res = s->read(chunk);
		if (res.first.empty()) return got;
		const Bytes b = fromb(res.first);
		got.insert(got.end(), b.begin(), b.end());
		s = res.second;
		if (got.size() > (1u << 24)) mon::fail("runaway", "a source does not end");
	}
}
inline Bytes walk(shared_ptr<const gk::Iterator> it) {
	Bytes got;
	for (; it; it = it->next()) {
		const Bytes b = b128(it->value());
		got.insert(got.end(), b.begin(), b.begin() + long(std::min<size_t>(it->size(), 16)));
		got.push_back(it->last()); got.push_back(u8(it->size()));
		if (got.size() > (1u << 24)) mon::fail("runaway", "a stream does not end");
	}
	return got;
}
inline Bytes walk_want(const vector<u128> &b, size_t from, size_t tail, const std::function<u128(size_t, u128)> &f) {
	Bytes got;
	for (size_t i = from; i < b.size(); i++) {
		const bool last = i + 1 == b.size();
		const size_t n = last ? tail : 16;
		const Bytes x = b128(f(i, b[i]));
		got.insert(got.end(), x.begin(), x.begin() + long(n));
		got.push_back(last); got.push_back(u8(n));
	}
	return got;
}

// Key with hooked or library parts. kind: how the material is held.
inline shared_ptr<const gm::LazyKey> lazy_key(mon::Rng &r, const Magma &c) {
	shared_ptr<const gm::Sbox> sb;
	switch (r.below(5)) {
	case 0: sb = make_shared<HSbox>(c.rows); break;
	case 4: sb = make_shared<gm::SboxTwisted>(std::make_unique<HPlain>(c.rows)); break;
	case 1: sb = make_shared<gm::SboxTwisted>(own_tabs(c.rows)); break;
	default: sb = sbox(c.rows, int(r.below(4)));
	}
	switch (r.below(6)) {
	case 0: return make_shared<gm::LazyKey>(gen::key_text(c.k), sb);
	case 1: return make_shared<gm::LazyKey>(vector<u32>(c.k.begin(), c.k.end()), sb);
	case 2: return make_shared<gm::LazyKey>(std::make_unique<HKeyData>(c.k), sb);
	case 3: return make_shared<gm::LazyKey>(std::make_unique<gm::KeyDataString>(gen::key_text(c.k)), sb);
	default: return make_shared<gm::LazyKey>(std::make_unique<gm::KeyCachedData>(std::make_unique<HKeyData>(c.k)), sb);
	}
}
inline shared_ptr<const gk::Key> kuz_key(mon::Rng &r, const gen::KKey &k) {
	if (r.chance(1, 2)) return make_shared<gk::Key>(make_shared<KData>(k.k1, k.k2));
	return make_shared<gk::Key>(gen::kkey_text(k));
}

inline void add_magma(mon::Rng &r, Scene &s, size_t maxlen) {
	Magma c;
	c.k = gen::key(r); c.rows = gen::rows(r);
	const auto key = lazy_key(r, c);
	const shared_ptr<const gm::Key> any = r.chance(1, 3) ? shared_ptr<const gm::Key>(make_shared<HKey>(c)) : shared_ptr<const gm::Key>(key);
	const u64 v = gen::word(r), w = gen::word(r);
	const auto src = make_shared<HBlock>(v);

	s.push_back({"encrypt block", [=] { return b64(gm::BlkEncrypted(src, key).value()); }, b64(c.enc(v))});
	const auto shared_enc = make_shared<gm::BlkEncrypted>(src, key);
	s.push_back({"shared encrypted block", [=] { return b64(shared_enc->value()); }, b64(c.enc(v))});
	const auto shared_dec = make_shared<gm::BlkDecrypted>(shared_enc, key);
	s.push_back({"shared decrypted block", [=] { return b64(shared_dec->value()); }, b64(v)});
	s.push_back({"decrypt block", [=] { return b64(gm::BlkDecrypted(make_shared<gm::BlkRaw>(w), key).value()); }, b64(c.dec(w))});
	s.push_back({"encryption base", [=] { return b64(gm::EncryptionBase(any).transform(w)); }, b64(c.enc(w))});
	{
		const int i = int(r.below(8)); const u32 x = gen::word32(r);
		s.push_back({"key transform", [=] { return b64(key->transform(x, i)); }, b64(c.g(x, c.k[size_t(i)]))});
	}
	const auto msg = make_shared<const Bytes>(gen::content(r, r.below(maxlen + 1)));
	const size_t cut = r.below(msg->size() + 1), chunk = 1 + r.below(40);
	for (int m = 0; m < 2; m++) {
		cfbv::Var var;
		var.m = m;
		var.iv.push_back(gen::word(r));
		if (m) var.iv.push_back(gen::word(r));
		// a sink that already holds a prefix; operations continue from it
		const shared_ptr<const goost::Sink> first = cfbv::sink(var, make_shared<HSink>(), any);
		s.push_back({m ? "34.13 CFB write, finalize" : "28147 CFB write, finalize",
			[=] { return hbytes(first->write(tob(*msg, 0, cut))->write(tob(*msg, cut))->finalize()); }, cfbv::enc(var, c, *msg)});
		s.push_back({m ? "34.13 CFB early finalize" : "28147 CFB early finalize",
			[=] { return hbytes(first->write(tob(*msg, 0, cut))->finalize()); }, cfbv::enc(var, c, Bytes(msg->begin(), msg->begin() + long(cut)))});
		const auto ct = cfbv::enc(var, c, *msg);
		const shared_ptr<const goost::Source> from = cfbv::source(var, make_shared<HSource>(ct), any);
		s.push_back({m ? "34.13 CFB read" : "28147 CFB read", [=] { return read_to_end(from, chunk); }, *msg});
		s.push_back({m ? "34.13 CFB read all" : "28147 CFB read all", [=] { return fromb(from->read(~size_t(0)).first); }, *msg});
	}
	{
		Bytes al = *msg;
		al.resize(al.size() / 8 * 8);
		const auto plain = make_shared<const Bytes>(al);
		const shared_ptr<const goost::Sink> e = make_shared<gm::ECBSink>(make_shared<HSink>(), any);
		const size_t c8 = cut / 8 * 8;
		s.push_back({"ECB write", [=] { return hbytes(e->write(tob(*plain, 0, c8))->write(tob(*plain, c8))->finalize()); }, ecb_enc(c, al)});
		const auto ct = ecb_enc(c, al);
		const shared_ptr<const goost::Source> d = make_shared<gm::ECBSource>(make_shared<HSource>(ct), any);
		s.push_back({"ECB read", [=] { return read_to_end(d, 8 + chunk); }, al});
		const auto cont = make_shared<HContainer>(c);
		const auto under = make_shared<HSource>(ct);
		s.push_back({"ECB read by container", [=] { return read_to_end(make_shared<gm::ECBSource>(under, cont), 8); }, al});
		if (msg->size() % 8) s.push_back({"unaligned ECB write refused", [=] {
			try { e->write(tob(*msg)); } catch (const hk::Injected &) { throw; } catch (const std::bad_alloc &) { throw; } catch (const std::exception &) { return Bytes{1}; }
			return Bytes{0};
		}, Bytes{1}});
		// MACs take the library's key class
		const auto imit = make_shared<gm::Imit>(make_shared<HSource>(al.empty() ? Bytes(8) : al), key);
		s.push_back({"Magma MAC", [=] { return b64(imit->value()); }, b64(magma_mac_full(c, al.empty() ? Bytes(8) : al))});
	}
	{
		// of any length: an incomplete last block may be filled up in any of the usual ways (see C09)
		const auto any_imit = make_shared<gm::Imit>(make_shared<HSource>(*msg), key);
		const size_t t = msg->size() % 8;
		vector<Bytes> may;
		if (t == 0 && !msg->empty()) may.push_back(b64(magma_mac_full(c, *msg)));
		else for (const u64 v : magma_tail_values(msg->data() + (msg->size() - t), t)) may.push_back(b64(magma_mac_tail(c, *msg, v)));
		s.push_back({"Magma MAC of any length", [=] { const Bytes got = b64(any_imit->value()); for (const auto &m : may) if (got == m) return Bytes{1}; return got; }, Bytes{1}});
	}
	const auto di = make_shared<g89::DataImit>(*msg, key);
	s.push_back({"28147 MAC", [=] { return di->value(); }, imit89(c, *msg)});
	s.push_back({"imited block", [=] { return b64(g89::ImitedBlock(gm::BlkRaw(v), key).value().value()); }, b64(c.rounds16(v))});
	{
		// pipeline: CFB over CFB over ECB-sized sink
		cfbv::Var a, b;
		a.m = false; a.iv = {v}; b.m = true; b.iv = {w, v};
		const shared_ptr<const goost::Sink> p = cfbv::sink(a, cfbv::sink(b, make_shared<HSink>(), any), key);
		s.push_back({"CFB over CFB", [=] { return hbytes(p->write(tob(*msg))->finalize()->finalize()); }, cfbv::enc(b, c, cfbv::enc(a, c, *msg))});
	}
	const int sh = int(r.below(64));
	const auto xs = make_shared<gm::BlkXored>(make_shared<gm::BlkShifted>(src, sh), make_shared<gm::BlkSwapped>(make_shared<gm::BlkString>(mon::hex(w))));
	s.push_back({"block arithmetic", [=] { return b64(xs->value()); }, b64((v << sh) ^ (w << 32 | w >> 32))});
	const auto sb = sbox(c.rows, int(r.below(4)));
	const u32 sv = gen::word32(r);
	s.push_back({"table", [=] { return b64(sb->transform(sv)); }, b64(c.g(sv, 0))});
}

inline void add_kuz(mon::Rng &r, Scene &s, size_t maxblocks) {
	const auto kk = gen::kkey(r);
	const auto key = kuz_key(r, kk);
	const auto c = make_shared<const Kuz>(kk.k1, kk.k2);
	const u128 v = gen::wide(r);
	const auto src = make_shared<KBlock>(v);
	s.push_back({"wide encrypt", [=] { return b128(key->encrypt(src)->value()); }, b128(c->enc(v))});
	const auto shared_enc = make_shared<gk::BlkEncrypted>(src, key);
	s.push_back({"shared wide encrypted block", [=] { return b128(shared_enc->value()); }, b128(c->enc(v))});
	const auto cached = make_shared<gk::BlkCached>(make_shared<gk::BlkL>(make_shared<gk::BlkS>(src)));
	s.push_back({"cached block", [=] { return b128(cached->value()); }, b128(L(S(v)))});
	const auto fresh_text = gen::kkey_text(kk);
	s.push_back({"fresh wide key", [=] { return b128(gk::Key(fresh_text).encrypt(src)->value()); }, b128(c->enc(v))});

	vector<u128> bl(1 + r.below(maxblocks));
	for (auto &x : bl) x = gen::wide(r);
	const bool odd = r.chance(1, 3);
	auto w = kz::words(bl);
	if (odd) { w.pop_back(); bl.back() = lo64(bl.back()); }
	const size_t tail = odd ? 8 : 16;
	const u64 iv = gen::word(r);
	const shared_ptr<const gk::Stream> mem = r.chance(1, 2) ? shared_ptr<const gk::Stream>(make_shared<gk::StMemory>(w)) : shared_ptr<const gk::Stream>(make_shared<KStream>(bl, tail));
	s.push_back({"stream walk", [=] { return walk(mem->iter()); }, walk_want(bl, 0, tail, [](size_t, u128 x) { return x; })});
	const auto ctr = make_shared<gk::StCTREncrypted>(mem, key, iv);
	auto f = [=](size_t i, u128 x) { return x ^ c->enc(ctr_block(iv, i)); };
	s.push_back({"CTR walk", [=] { return walk(ctr->iter()); }, walk_want(bl, 0, tail, f)});
	const auto first = ctr->iter();
	s.push_back({"shared CTR iterator", [=] { return walk(first); }, walk_want(bl, 0, tail, f)});
	s.push_back({"shared CTR iterator, rest", [=] { return walk(first->next()); }, walk_want(bl, 1, tail, f)});
	if (tail == 16) {
		const auto mac = make_shared<gk::Imit>(mem, key);
		s.push_back({"Kuznyechik MAC", [=] { return b128(mac->value()); }, b128(kuz_mac(*c, bl, 16))});
		vector<u128> e;
		for (size_t i = 0; i < bl.size(); i++) e.push_back(f(i, bl[i]));
		const auto mc = make_shared<gk::Imit>(ctr, key);
		s.push_back({"Kuznyechik MAC of CTR", [=] { return b128(mc->value()); }, b128(kuz_mac(*c, e, 16))});
	}
	else {
		vector<Bytes> may;
		for (const u128 t : kuz_tail_values(bl.back(), tail)) { auto x = bl; x.back() = t; may.push_back(b128(kuz_mac(*c, x, tail))); }
		const auto mac = make_shared<gk::Imit>(mem, key);
		s.push_back({"Kuznyechik MAC, incomplete", [=] { const Bytes got = b128(mac->value()); for (const auto &m : may) if (got == m) return Bytes{1}; return got; }, Bytes{1}});
	}
	const auto ar = make_shared<gk::BlkXored>(make_shared<gk::BlkIncremented>(make_shared<gk::BlkString>(hex128(v))), make_shared<gk::BlkShifted>(src, 13));
	s.push_back({"wide block arithmetic", [=] { return b128(ar->value()); }, b128((v + 1) ^ (v << 13))});
}
// An operation that has to be refused with an exception of the library's (an injected one passes through).
inline Op refusal(const std::string &name, const std::function<void()> &f) {
	return {name, [f] {
		try { f(); } catch (const hk::Injected &) { throw; } catch (const std::bad_alloc &) { throw; } catch (const std::exception &) { return Bytes{1}; }
		return Bytes{0};
	}, Bytes{1}};
}
// Every public class by itself, shared and made afresh, in every form its constructors offer.
inline void add_parts(mon::Rng &r, Scene &s) {
	{
		Magma c;
		c.k = gen::key(r); c.rows = gen::rows(r);
		const shared_ptr<const gm::Key> key = r.chance(1, 2) ? shared_ptr<const gm::Key>(make_shared<HKey>(c)) : shared_ptr<const gm::Key>(lazy_key(r, c));
		const u64 v = gen::word(r), w = gen::word(r);
		const auto src = make_shared<HBlock>(v), other = make_shared<HBlock>(w);
		const int n = int(r.below(64));
		const u32 x = gen::word32(r), y = c.subst(x);
		auto put = [&](const std::string &name, const shared_ptr<const gm::Block> &b, u64 want) { s.push_back({name, [b] { return b64(b->value()); }, b64(want)}); };
		auto made = [&](const std::string &name, const std::function<shared_ptr<const gm::Block>()> &f, u64 want) { s.push_back({name, [f] { return b64(f()->value()); }, b64(want)}); };
		put("forwarded block", make_shared<gm::BlkForwarded>(src, key), c.forward(v));
		put("backwarded block", make_shared<gm::BlkBackwarded>(src, key), c.backward(v));
		put("swapped block", make_shared<gm::BlkSwapped>(src), v << 32 | v >> 32);
		put("shifted block", make_shared<gm::BlkShifted>(src, n), v << n);
		put("XOR of two", make_shared<gm::BlkXored>(src, other), v ^ w);
		put("XOR of four", make_shared<gm::BlkXored>(src, other, make_shared<gm::BlkRaw>(v >> 3), make_shared<gm::BlkRaw>(w << 5)), v ^ w ^ (v >> 3) ^ (w << 5));
		put("text block", make_shared<gm::BlkString>(mon::hex(v)), v);
		const auto mem = make_shared<const Bytes>(b64(v));
		made("block of halves", [=] { return make_shared<gm::BlkRaw>(u32(v), u32(v >> 32)); }, v);
		made("block of a pair", [=] { return make_shared<gm::BlkRaw>(mg::Pair(u32(v), u32(v >> 32))); }, v);
		made("block of a block", [=] { return make_shared<gm::BlkRaw>(shared_ptr<const gm::Block>(src)); }, v);
		made("block of a word", [=] { return make_shared<gm::BlkRaw>(v); }, v);
		made("block of bytes", [=] { return make_shared<gm::BlkRaw>(*mem); }, v);
		made("block of memory", [=] { return make_shared<gm::BlkRaw>(static_cast<const void *>(mem->data())); }, v);
		made("zero block", [] { return make_shared<gm::BlkRaw>(); }, 0);
		made("block of text", [=] { return make_shared<gm::BlkString>(mon::hex(v)); }, v);
		made("forwarded, made", [=] { return make_shared<gm::BlkForwarded>(src, key); }, c.forward(v));
		made("backwarded, made", [=] { return make_shared<gm::BlkBackwarded>(src, key); }, c.backward(v));
		const auto base = make_shared<gm::EncryptionBase>(key);
		s.push_back({"shared transform", [=] { return b64(base->transform(w)); }, b64(c.enc(w))});
		const auto ib = make_shared<g89::ImitedBlock>(gm::BlkRaw(v), lazy_key(r, c));
		s.push_back({"shared imited block", [=] { return b64(ib->value().value()); }, b64(c.rounds16(v))});
		const auto packed = make_shared<const Bytes>(packed_from_rows(c.rows));
		const Rows rows = c.rows;
		const shared_ptr<const gm::Sbox> nb = nibble(rows), sb = make_shared<gm::SboxByte>(*packed), tw = make_shared<gm::SboxTwisted>(nibble(rows)), st = make_shared<gm::SboxR3412>();
		Magma std3412 = c;
		std3412.rows = rows3412();
		s.push_back({"nibble table", [=] { return b64(u64(nb->transform(x))); }, b64(u64(y))});
		s.push_back({"packed table", [=] { return b64(u64(sb->transform(x))); }, b64(u64(y))});
		s.push_back({"rotated table", [=] { return b64(u64(tw->transform(x))); }, b64(u64(y << 11 | y >> 21))});
		s.push_back({"default table", [=] { return b64(u64(st->transform(x))); }, b64(u64(std3412.g(x, 0)))});
		s.push_back({"nibble table, made", [=] { return b64(u64(nibble(rows)->transform(x))); }, b64(u64(y))});
		s.push_back({"packed table, made", [=] { return b64(u64(gm::SboxByte(*packed).transform(x))); }, b64(u64(y))});
		s.push_back({"tables of the caller", [=] { return b64(u64(own_tabs(rows)->transform(x))); }, b64(u64(y))});
		const auto tp = make_shared<gm::SboxTwisted>(std::make_unique<HPlain>(rows));
		s.push_back({"rotated table of the caller", [=] { return b64(u64(tp->transform(x))); }, b64(u64(y << 11 | y >> 21))});
		s.push_back({"default table, made", [=] { return b64(u64(gm::SboxR3412().transform(x))); }, b64(u64(std3412.g(x, 0)))});
		const auto col = make_shared<gm::SboxByte64Tab>(*packed, 2);
		s.push_back({"table column", [=] { return b64(u64(col->translate(int(x & 255)))); }, b64(u64(rows[4][x & 15] | rows[5][x >> 4 & 15] << 4))});
		const int i = int(r.below(8));
		const auto text = make_shared<const std::string>(gen::key_text(c.k, r.chance(1, 2)));
		const auto words = make_shared<const vector<u32>>(c.k.begin(), c.k.end());
		const vector<std::pair<std::string, shared_ptr<const gm::KeyData>>> held{
			{"native key word", make_shared<gm::KeyDataNative>(*words)}, {"text key word", make_shared<gm::KeyDataString>(*text)},
			{"cached key word", make_shared<gm::KeyCachedData>(std::make_unique<HKeyData>(c.k))}};
		for (const auto &h : held) { const auto d = h.second; s.push_back({h.first, [=] { return b64(u64(d->key(i))); }, b64(u64(c.k[size_t(i)]))}); }
		s.push_back({"native key word, made", [=] { return b64(u64(gm::KeyDataNative(*words).key(i))); }, b64(u64(c.k[size_t(i)]))});
		s.push_back({"text key word, made", [=] { return b64(u64(gm::KeyDataString(*text).key(i))); }, b64(u64(c.k[size_t(i)]))});
		const u32 g = c.g(x, c.k[size_t(i)]), g3 = std3412.g(x, c.k[size_t(i)]);
		s.push_back({"text key, made", [=] { return b64(u64(gm::LazyKey(*text).transform(x, i))); }, b64(u64(g3))});
		s.push_back({"text key and table, made", [=] { return b64(u64(gm::LazyKey(*text, tw).transform(x, i))); }, b64(u64(g))});
		s.push_back({"native key, made", [=] { return b64(u64(gm::LazyKey(*words, tw).transform(x, i))); }, b64(u64(g))});
		s.push_back({"key of material, made", [=] { return b64(u64(gm::LazyKey(std::make_unique<gm::KeyCachedData>(std::make_unique<gm::KeyDataString>(*text)), tw).transform(x, i))); }, b64(u64(g))});
		s.push_back(refusal("malformed text block", [=] { gm::BlkString("12x4").value(); }));
		s.push_back(refusal("malformed text key", [=] { gm::LazyKey(text->substr(1) + "g").transform(x, i); }));
		s.push_back(refusal("short native key", [=] { gm::LazyKey(vector<u32>(words->begin(), words->begin() + 7), tw).transform(x, 7); }));
		s.push_back(refusal("key index", [=] { key->transform(x, 8); }));
		s.push_back(refusal("short bytes", [=] { gm::BlkRaw(Bytes(7)).value(); }));
		s.push_back(refusal("partial ECB ciphertext", [=] { read_to_end(make_shared<gm::ECBSource>(make_shared<HSource>(Bytes(11)), key), 8); }));
	}
	{
		const u128 v = gen::wide(r), w = gen::wide(r);
		const auto src = make_shared<KBlock>(v), other = make_shared<KBlock>(w);
		const int n = int(r.below(128));
		auto put = [&](const std::string &name, const shared_ptr<const gk::Block> &b, u128 want) { s.push_back({name, [b] { return b128(b->value()); }, b128(want)}); };
		auto made = [&](const std::string &name, const std::function<shared_ptr<const gk::Block>()> &f, u128 want) { s.push_back({name, [f] { return b128(f()->value()); }, b128(want)}); };
		put("S block", make_shared<gk::BlkS>(src), S(v));
		put("L block", make_shared<gk::BlkL>(src), L(v));
		put("R block", make_shared<gk::BlkR>(src), R(v));
		put("incremented block", make_shared<gk::BlkIncremented>(src), v + 1);
		put("wide shifted block", make_shared<gk::BlkShifted>(src, n), v << n);
		put("wide XOR of two", make_shared<gk::BlkXored>(src, other), v ^ w);
		put("wide XOR of three", make_shared<gk::BlkXored>(src, other, make_shared<gk::BlkRaw>(kz::pr(v >> 3))), v ^ w ^ (v >> 3));
		put("cached wide block", make_shared<gk::BlkCached>(src), v);
		put("wide text block", make_shared<gk::BlkString>(hex128(v)), v);
		const int from = int(r.range(1, 32)), len = int(r.range(1, 3));
		u128 x = v, y = w;
		for (int j = from; j < from + len; j++) { const u128 t = LSX(Cn(j), x) ^ y; y = x; x = t; }
		put("key-schedule block", make_shared<gk::BlkIterKey>(src, other, from, from + len - 1), x);
		const auto mem = make_shared<const Bytes>(b128(v));
		made("wide block of halves", [=] { return make_shared<gk::BlkRaw>(lo64(v), hi64(v)); }, v);
		made("wide block of a pair", [=] { return make_shared<gk::BlkRaw>(kz::pr(v)); }, v);
		made("wide block of a block", [=] { return make_shared<gk::BlkRaw>(shared_ptr<const gk::Block>(src)); }, v);
		made("wide block of memory", [=] { return make_shared<gk::BlkRaw>(static_cast<const void *>(mem->data())); }, v);
		made("wide block of a word", [=] { return make_shared<gk::BlkRaw>(lo64(v)); }, lo64(v));
		made("wide zero block", [] { return make_shared<gk::BlkRaw>(); }, 0);
		made("wide block of text", [=] { return make_shared<gk::BlkString>(hex128(v)); }, v);
		made("key-schedule block, made", [=] { return make_shared<gk::BlkIterKey>(src, other, from, from + len - 1); }, x);
		made("cached wide block, made", [=] { return make_shared<gk::BlkCached>(src); }, v);
		const auto kk = gen::kkey(r);
		const auto text = make_shared<const std::string>(gen::kkey_text(kk));
		const auto d = make_shared<gk::KeyDataString>(*text);
		s.push_back({"wide key halves", [=] { Bytes a = b128(d->low()->value()); const Bytes b = b128(d->high()->value()); a.insert(a.end(), b.begin(), b.end()); return a; }, [&] { Bytes a = b128(kk.k2); const Bytes b = b128(kk.k1); a.insert(a.end(), b.begin(), b.end()); return a; }()});
		vector<u128> bl(1 + r.below(3));
		for (auto &b : bl) b = gen::wide(r);
		const auto w64 = make_shared<const vector<u64>>(kz::words(bl));
		const auto st = make_shared<gk::StMemory>(*w64);
		const auto same = [](size_t, u128 b) { return b; };
		s.push_back({"memory stream walk", [=] { return walk(st->iter()); }, walk_want(bl, 0, 16, same)});
		const auto first = st->iter();
		s.push_back({"shared memory iterator", [=] { return walk(first); }, walk_want(bl, 0, 16, same)});
		s.push_back({"memory stream, made", [=] { return walk(make_shared<gk::StMemory>(*w64)->iter()); }, walk_want(bl, 0, 16, same)});
		s.push_back(refusal("MAC of nothing", [] { gk::Imit(make_shared<gk::StMemory>(vector<u64>{}), make_shared<gk::Key>(std::string(64, 'a'))).value(); }));
		s.push_back(refusal("malformed wide text block", [] { gk::BlkString("12x4").value(); }));
		s.push_back(refusal("malformed wide text key", [=] { gk::Key(text->substr(2)).encrypt(src)->value(); }));
	}
}
inline Scene scene(mon::Rng &r, size_t maxlen = 60, size_t maxblocks = 4) {
	Scene s;
	add_magma(r, s, maxlen);
	add_kuz(r, s, maxblocks);
	if (r.chance(1, 2)) add_parts(r, s);
	return s;
}
inline void check(const Op &o, const Bytes &got, const std::string &ctx) {
	MON_REQUIRE(got == o.want, "result:" + o.name, ctx << ": " << o.name << " gives " << mon::hexb(got.data(), got.size()) << " expected " << mon::hexb(o.want.data(), o.want.size()));
}
}  // namespace sc
