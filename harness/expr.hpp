// Pools of library blocks built on one another, with keys that are kin of each other. Every member's value is
// observed once; a new member is judged only against the observed values of the members it is built from, so
// that a wrong value deeper down is not held against the operation on top.
#pragma once
#include "scene.hpp"

namespace ex {
using namespace sc;

struct MItem { shared_ptr<const gm::Block> b; u64 v; std::string what; };
enum MKind { M_ENC, M_DEC, M_FWD, M_BACK, M_XOR, M_SHIFT, M_SWAP, M_COPY, M_LEAF };
struct MPool {
	vector<MItem> items;
	vector<mg::Cipher> keys;
	explicit MPool(mon::Rng &r) {
		keys.push_back(mg::cipher(r));
		for (size_t n = 1 + r.below(4); n > 0; n--) keys.push_back(mg::kin(r, keys[r.below(keys.size())]));
		for (size_t n = 2 + r.below(3); n > 0; n--) leaf(r);
	}
	const MItem &pick(mon::Rng &r) const { return items[r.chance(1, 2) ? items.size() - 1 : r.below(items.size())]; }
	void leaf(mon::Rng &r) {
		const u64 v = items.empty() || r.chance(1, 2) ? gen::word(r) : gen::near(r, items.back().v);
		shared_ptr<const gm::Block> b;
		switch (r.below(4)) {
		case 0: b = make_shared<gm::BlkString>(mon::hex(v)); break;
		case 1: b = make_shared<OwnBlock>(v); break;
		case 2: b = make_shared<gm::BlkRaw>(u32(v), u32(v >> 32)); break;
		default: b = make_shared<gm::BlkRaw>(v);
		}
		items.push_back({b, mg::val(b->value()), mon::hex(v)});
	}
	// Builds a member of the given kind; gives what its value should be.
	std::pair<MItem, u64> make(mon::Rng &r, MKind k) {
		const MItem a = pick(r), c = items[r.below(items.size())];
		const auto &q = keys[r.below(keys.size())];
		const std::string key = std::to_string(&q - keys.data());
		Magma::S s{u32(a.v), u32(a.v >> 32)};
		switch (k) {
		case M_ENC: return {{make_shared<gm::BlkEncrypted>(a.b, q.key), 0, "E" + key + "(" + a.what + ")"}, q.ref.enc(a.v)};
		case M_DEC: return {{make_shared<gm::BlkDecrypted>(a.b, q.key), 0, "D" + key + "(" + a.what + ")"}, q.ref.dec(a.v)};
		case M_XOR: return {{make_shared<gm::BlkXored>(a.b, c.b), 0, "(" + a.what + "^" + c.what + ")"}, a.v ^ c.v};
		case M_SHIFT: { const int n = int(r.below(64)); return {{make_shared<gm::BlkShifted>(a.b, n), 0, "(" + a.what + "<<" + std::to_string(n) + ")"}, a.v << n}; }
		case M_SWAP: return {{make_shared<gm::BlkSwapped>(a.b), 0, "swap(" + a.what + ")"}, a.v << 32 | a.v >> 32};
		case M_FWD: return {{make_shared<gm::BlkForwarded>(a.b, q.key), 0, "F" + key + "(" + a.what + ")"}, 0};
		case M_BACK: return {{make_shared<gm::BlkBackwarded>(a.b, q.key), 0, "B" + key + "(" + a.what + ")"}, 0};
		default: return {{make_shared<gm::BlkRaw>(a.b), 0, a.what}, a.v};
		}
	}
	// Adds a member, observed but not judged.
	void grow(mon::Rng &r) {
		if (r.chance(1, 6)) { leaf(r); return; }
		auto x = make(r, MKind(r.below(M_LEAF))).first;
		x.v = mg::val(x.b->value());
		if (x.what.size() > 300) x.what = x.what.substr(0, 290) + "...";
		items.push_back(x);
	}
	std::string show() const { std::string s; for (const auto &k : keys) s += gen::key_text(k.ref.k) + " "; return s; }
};
// Judges operations of the given kinds on blocks of every sort.
inline void magma_pool(mon::Rng &r, const vector<MKind> &kinds, int rounds) {
	MPool p(r);
	for (int i = 0; i < rounds; i++) {
		for (size_t n = r.below(3); n > 0; n--) p.grow(r);
		auto x = p.make(r, kinds[r.below(kinds.size())]);
		const u64 first = r.chance(1, 2) ? mg::val(x.first.b->value()) : x.second;
		const u64 got = mg::val(x.first.b->value());
		MON_REQUIRE(first == x.second && got == x.second, "pool", x.first.what << " over keys " << p.show() << "gives " << mon::hex(got) << " expected " << mon::hex(x.second));
		mon::event("operations on library blocks over kin keys");
		mon::seen(mon::hash_str(x.first.what) ^ x.second);
		x.first.v = got;
		if (x.first.what.size() < 300) p.items.push_back(x.first);
	}
}

struct KItem { shared_ptr<const gk::Block> b; u128 v; std::string what; };
enum KKind { K_ENC, K_KEYENC, K_S, K_R, K_L, K_ITER, K_XOR, K_SHIFT, K_INC, K_CACHED, K_COPY, K_LEAF };
struct KPool {
	vector<KItem> items;
	vector<kz::Cipher> keys;
	explicit KPool(mon::Rng &r) {
		keys.push_back(kz::cipher(r));
		for (size_t n = 1 + r.below(3); n > 0; n--) keys.push_back(kz::kin(r, keys[r.below(keys.size())]));
		for (size_t n = 2 + r.below(3); n > 0; n--) leaf(r);
	}
	const KItem &pick(mon::Rng &r) const { return items[r.chance(1, 2) ? items.size() - 1 : r.below(items.size())]; }
	void leaf(mon::Rng &r) {
		const u128 v = items.empty() || r.chance(1, 2) ? gen::wide(r) : mk128(gen::near(r, hi64(items.back().v)), gen::near(r, lo64(items.back().v)));
		shared_ptr<const gk::Block> b;
		switch (r.below(3)) {
		case 0: b = make_shared<gk::BlkString>(hex128(v)); break;
		case 1: b = make_shared<kz::OwnBlock>(v); break;
		default: b = make_shared<gk::BlkRaw>(lo64(v), hi64(v));
		}
		items.push_back({b, kz::val(b->value()), hex128(v)});
	}
	std::pair<KItem, u128> make(mon::Rng &r, KKind k) {
		const KItem a = pick(r), c = items[r.below(items.size())];
		const auto &q = keys[r.below(keys.size())];
		const std::string key = std::to_string(&q - keys.data());
		switch (k) {
		case K_ENC: return {{make_shared<gk::BlkEncrypted>(a.b, q.key), 0, "E" + key + "(" + a.what + ")"}, q.ref.enc(a.v)};
		case K_KEYENC: return {{q.key->encrypt(a.b), 0, "E" + key + "(" + a.what + ")"}, q.ref.enc(a.v)};
		case K_S: return {{make_shared<gk::BlkS>(a.b), 0, "S(" + a.what + ")"}, S(a.v)};
		case K_R: return {{make_shared<gk::BlkR>(a.b), 0, "R(" + a.what + ")"}, R(a.v)};
		case K_L: return {{make_shared<gk::BlkL>(a.b), 0, "L(" + a.what + ")"}, L(a.v)};
		case K_ITER: {
			// the schedule's own use: eight steps give one of the next pair, seven the other
			const int g = int(r.below(4)), n = int(r.below(2));
			const u128 x = a.v, y = c.v;
			u128 u = x, w = y;
			for (int i = 1; i <= 8; i++) { const u128 t = L(S(u ^ L(u128(unsigned(8 * g + i))))) ^ w; w = u; u = t; }
			return {{make_shared<gk::BlkIterKey>(a.b, c.b, 8 * g + 1, 8 * g + 8 - n), 0, "K" + std::to_string(g) + (n ? "b(" : "a(") + a.what + "," + c.what + ")"}, n ? w : u};
		}
		case K_XOR: return {{make_shared<gk::BlkXored>(a.b, c.b), 0, "(" + a.what + "^" + c.what + ")"}, a.v ^ c.v};
		case K_SHIFT: { const int n = int(r.below(128)); return {{make_shared<gk::BlkShifted>(a.b, n), 0, "(" + a.what + "<<" + std::to_string(n) + ")"}, a.v << n}; }
		case K_INC: return {{make_shared<gk::BlkIncremented>(a.b), 0, "(" + a.what + "+1)"}, a.v + 1};
		case K_CACHED: return {{make_shared<gk::BlkCached>(a.b), 0, a.what}, a.v};
		default: return {{make_shared<gk::BlkRaw>(a.b), 0, a.what}, a.v};
		}
	}
	void grow(mon::Rng &r) {
		if (r.chance(1, 6)) { leaf(r); return; }
		auto x = make(r, KKind(r.below(K_LEAF))).first;
		x.v = kz::val(x.b->value());
		if (x.what.size() > 300) x.what = x.what.substr(0, 290) + "...";
		// lazy blocks nest, and their cost multiplies: keep the pool shallow
		if (x.what.size() > 150) x.b = make_shared<gk::BlkCached>(x.b);
		items.push_back(x);
	}
	std::string show() const { std::string s; for (const auto &k : keys) s += gen::kkey_text(k.k) + " "; return s; }
};
inline void kuz_pool(mon::Rng &r, const vector<KKind> &kinds, int rounds) {
	KPool p(r);
	for (int i = 0; i < rounds; i++) {
		for (size_t n = r.below(2); n > 0; n--) p.grow(r);
		auto x = p.make(r, kinds[r.below(kinds.size())]);
		const u128 first = r.chance(1, 3) ? kz::val(x.first.b->value()) : x.second;
		const u128 got = kz::val(x.first.b->value());
		MON_REQUIRE(first == x.second && got == x.second, "pool", x.first.what << " over keys " << p.show() << "gives " << hex128(got) << " expected " << hex128(x.second));
		mon::event("operations on library blocks over kin keys");
		mon::seen(mon::hash_str(x.first.what) ^ lo64(x.second));
		x.first.v = got;
		if (x.first.what.size() < 120) p.items.push_back(x.first);
	}
}
}  // namespace ex
