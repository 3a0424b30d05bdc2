// Kuznyechik side: key builders and custom implementations.
#pragma once
#include "gen.hpp"
#include <goost/kuznyechik/Block.h>
#include <goost/kuznyechik/Key.h>
#include <goost/kuznyechik/Stream.h>
#include <goost/kuznyechik/Iterator.h>

namespace kz {
using namespace ref;
using std::shared_ptr; using std::make_shared; using std::vector;
namespace gk = goost::kuznyechik;
using Pair = std::pair<uint64_t, uint64_t>;
inline u128 val(const Pair &p) { return mk128(p.second, p.first); }
inline Pair pr(u128 v) { return {lo64(v), hi64(v)}; }

class OwnBlock final : public gk::Block {
	const u128 v;
public:
	explicit OwnBlock(u128 v) : v(v) {}
	Pair value() const override { return pr(v); }
};
class OwnData final : public gk::Key::Data {
	const u128 k1, k2;
public:
	OwnData(u128 a, u128 b) : k1(a), k2(b) {}
	shared_ptr<const gk::Block> low() const override { return make_shared<OwnBlock>(k2); }
	shared_ptr<const gk::Block> high() const override { return make_shared<OwnBlock>(k1); }
};
struct Cipher { gen::KKey k; Kuz ref; shared_ptr<const gk::Key> key; std::string what; };
inline Cipher make_cipher(mon::Rng &r, const gen::KKey &k) {
	const auto t = gen::kkey_text(k);
	const auto form = r.below(3);
	shared_ptr<const gk::Key> key;
	if (form == 0) key = make_shared<gk::Key>(t);
	else if (form == 1) key = make_shared<gk::Key>(gen::mixed_case(r, t));
	else key = make_shared<gk::Key>(make_shared<OwnData>(k.k1, k.k2));
	return {k, Kuz(k.k1, k.k2), key, (form == 2 ? "own data " : "text ") + t};
}
inline Cipher cipher(mon::Rng &r) { return make_cipher(r, gen::kkey(r)); }
// A cipher close to c: the same object, the same key made again, one bit, one half, the halves swapped.
inline Cipher kin(mon::Rng &r, const Cipher &c) {
	gen::KKey k = c.k;
	switch (r.below(8)) {
	case 0: case 1: return c;
	case 2: break;
	case 3: k.k1 = gen::wide(r); break;
	case 4: k.k2 = gen::wide(r); break;
	default: k = gen::relative(r, k);
	}
	return make_cipher(r, k);
}
// A caller's stream over a shared vector of blocks, with a size for the last one.
class OwnIter final : public gk::Iterator {
	const shared_ptr<const vector<u128>> d; const size_t i, tail;
public:
	OwnIter(shared_ptr<const vector<u128>> d, size_t i, size_t tail) : d(std::move(d)), i(i), tail(tail) {}
	Pair value() const override { return pr((*d)[i]); }
	bool last() const override { return i + 1 == d->size(); }
	size_t size() const override { return last() ? tail : 16; }
	shared_ptr<const gk::Iterator> next() const override { if (last()) return {}; return make_shared<OwnIter>(d, i + 1, tail); }
};
class OwnStream final : public gk::Stream {
	const shared_ptr<const vector<u128>> d; const size_t tail;
public:
	explicit OwnStream(const vector<u128> &v, size_t tail = 16) : d(make_shared<const vector<u128>>(v)), tail(tail) {}
	shared_ptr<const gk::Iterator> iter() const override { if (d->empty()) return {}; return make_shared<OwnIter>(d, 0, tail); }
};
inline vector<u64> words(const vector<u128> &b) { vector<u64> w; for (const auto v : b) { w.push_back(lo64(v)); w.push_back(hi64(v)); } return w; }
inline vector<u128> blocks(const vector<u64> &w) { vector<u128> b; for (size_t i = 0; i < w.size(); i += 2) b.push_back(mk128(i + 1 < w.size() ? w[i + 1] : 0, w[i])); return b; }
}  // namespace kz
