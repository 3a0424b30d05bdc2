// Magma / GOST 28147-89 side: key builders in all representations, and custom implementations.
#pragma once
#include "parts.hpp"
#include <array>
#include <goost/magma/Key.h>
#include <goost/magma/KeyData.h>
#include <goost/magma/LazyKey.h>
#include <goost/magma/Sbox.h>
#include <goost/magma/SboxByte.h>
#include <goost/magma/SboxNibble.h>
#include <goost/magma/SboxR3412.h>
#include <goost/magma/SboxTwisted.h>
#include <goost/magma/Block.h>

namespace mg {
using namespace parts;
namespace gm = goost::magma;
using Pair = std::pair<u32, u32>;

inline u64 val(const Pair &p) { return (u64(p.second) << 32) | p.first; }

// The caller's own rotated table
class OwnSbox final : public gm::Sbox {
	const Rows rows;
public:
	explicit OwnSbox(const Rows &r) : rows(r) {}
	uint32_t transform(uint32_t v) const override {
		u32 t = 0;
		for (int i = 0; i < 8; i++) t |= u32(rows[i][(v >> (4 * i)) & 15]) << (4 * i);
		return (t << 11) | (t >> 21);
	}
};
inline std::unique_ptr<gm::SboxNibble> nibble(const Rows &r) {
	std::vector<std::vector<int>> v(8);
	for (int i = 0; i < 8; i++) v[i].assign(r[i].begin(), r[i].end());
	return std::make_unique<gm::SboxNibble>(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]);
}
// form: 0 nibble rows, 1 packed bytes, 2 caller's own, 3 default class (only for the default table)
inline shared_ptr<const gm::Sbox> sbox(const Rows &r, int form) {
	if (form == 3 && r == rows3412()) return make_shared<gm::SboxR3412>();
	if (form == 1) return make_shared<gm::SboxTwisted>(std::make_unique<gm::SboxByte>(packed_from_rows(r)));
	if (form == 2) return make_shared<OwnSbox>(r);
	return make_shared<gm::SboxTwisted>(nibble(r));
}
class OwnKeyData final : public gm::KeyData {
	const std::array<u32, 8> k;
public:
	explicit OwnKeyData(const std::array<u32, 8> &k) : k(k) {}
	uint32_t key(int i) const override { return k.at(size_t(i)); }
};
// The caller's own key: implements only the abstract interface
class OwnKey final : public gm::Key {
	const Magma c;
public:
	explicit OwnKey(const Magma &c) : c(c) {}
	uint32_t transform(uint32_t v, int index) const override { return c.g(v, c.k.at(size_t(index))); }
};
struct Cipher {
	Magma ref;
	shared_ptr<const gm::LazyKey> key;
	std::string what;
};
inline Cipher make_cipher(mon::Rng &r, const Magma &ref) {
	Cipher c;
	c.ref = ref;
	const auto form = r.below(5);
	const int sf = int(r.below(4));
	if (form == 0 && c.ref.rows == rows3412()) { c.key = make_shared<gm::LazyKey>(gen::mixed_case(r, gen::key_text(c.ref.k))); c.what = "text key, default table"; }
	else if (form <= 1) { c.key = make_shared<gm::LazyKey>(gen::key_text(c.ref.k, r.chance(1, 2)), sbox(c.ref.rows, sf)); c.what = "text key"; }
	else if (form <= 3) { c.key = make_shared<gm::LazyKey>(std::vector<u32>(c.ref.k.begin(), c.ref.k.end()), sbox(c.ref.rows, sf)); c.what = "native key"; }
	else { c.key = make_shared<gm::LazyKey>(std::make_unique<OwnKeyData>(c.ref.k), sbox(c.ref.rows, sf)); c.what = "own key data"; }
	c.what += " " + gen::key_text(c.ref.k) + " table form " + std::to_string(sf);
	return c;
}
inline Cipher cipher(mon::Rng &r) {
	Magma m;
	m.k = gen::key(r); m.rows = gen::rows(r);
	return make_cipher(r, m);
}
// A cipher close to c: the very same object, the same key in another form, or one that differs in a
// single bit, word, order of words, row or table entry.
inline Cipher kin(mon::Rng &r, const Cipher &c) {
	Magma m = c.ref;
	switch (r.below(10)) {
	case 0: case 1: return c;
	case 2: break;
	case 3: m.rows = gen::rows(r); break;
	case 4: { auto &row = m.rows[r.below(8)]; std::swap(row[r.below(16)], row[r.below(16)]); break; }
	case 5: std::swap(m.rows[r.below(8)], m.rows[r.below(8)]); break;
	default: m.k = gen::relative(r, m.k);
	}
	return make_cipher(r, m);
}
class OwnBlock final : public gm::Block {
	const u64 v;
public:
	explicit OwnBlock(u64 v) : v(v) {}
	Pair value() const override { return {u32(v), u32(v >> 32)}; }
};
}  // namespace mg
