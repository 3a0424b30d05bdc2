// Workload generators: keys, tables, words, messages, write splits, read plans.
#pragma once
#include "mon.hpp"
#include "ref.hpp"

namespace gen {
using namespace ref;
using mon::Rng;

// Words chosen to hit carries, signs, empty/full halves and byte/word boundaries as well as random ones.
inline u64 word(Rng &r) {
	switch (r.below(16)) {
	case 0: return 0;
	case 1: return ~0ull;
	case 2: return 1ull << r.below(64);
	case 3: return ~(1ull << r.below(64));
	case 4: return r.u() & 0xffffffffull;
	case 5: return r.u() << 32;
	case 6: { const u64 b = r.below(256); return b * 0x0101010101010101ull; }
	case 7: return (1ull << r.below(64)) - 1;
	case 8: return ~((1ull << r.below(64)) - 1);
	case 9: return 0x8000000000000000ull | (r.u() >> r.below(64));
	case 10: return r.below(300);
	case 11: return 0ull - r.below(300) - 1;
	case 12: { const u64 h = r.u() & 0xffffffffull; return h << 32 | h; }
	case 13: return r.u() & r.u() & r.u();
	default: return r.u();
	}
}
// A word close to w: equal, equal in one half, one bit off, halves swapped, the next or previous number.
inline u64 near(Rng &r, u64 w) {
	switch (r.below(8)) {
	case 0: case 1: return w;
	case 2: return (w & 0xffffffffull) | r.u() << 32;
	case 3: return (w & ~0xffffffffull) | (r.u() & 0xffffffffull);
	case 4: return w ^ 1ull << r.below(64);
	case 5: return w << 32 | w >> 32;
	case 6: return w + 1;
	default: return w - 1;
	}
}
inline u32 word32(Rng &r) {
	switch (r.below(10)) {
	case 0: return 0;
	case 1: return ~0u;
	case 2: return 1u << r.below(32);
	case 3: return ~(1u << r.below(32));
	case 4: return u32(r.below(256)) * 0x01010101u;
	case 5: return 0x80000000u | u32(r.u() >> 33);
	case 6: return (1u << r.below(32)) - 1;
	default: return u32(r.u());
	}
}
inline u128 wide(Rng &r) {
	switch (r.below(12)) {
	case 0: return 0;
	case 1: return ~u128(0);
	case 2: return u128(1) << r.below(128);
	case 3: return (u128(1) << r.below(128)) - 1;
	case 4: { const u64 w = word(r); return mk128(w, w); }
	case 5: return u128(r.below(256)) << (8 * r.below(16));
	case 6: return mk128(r.u(), 0);
	case 7: return mk128(0, r.u());
	case 8: case 9: return mk128(word(r), word(r));
	default: return mk128(r.u(), r.u());
	}
}

using Key8 = std::array<u32, 8>;
inline Key8 key(Rng &r) {
	Key8 k;
	const auto kind = r.below(12);
	for (auto &w : k) w = u32(r.u());
	if (kind == 0) k.fill(0);
	else if (kind == 1) k.fill(~0u);
	else if (kind == 2) k.fill(word32(r));
	else if (kind == 3) for (int i = 0; i < 4; i++) k[7 - i] = k[i];
	else if (kind == 4) { k.fill(0); k[r.below(8)] = 1u << r.below(32); }
	else if (kind == 5) for (auto &w : k) w = word32(r);
	else if (kind == 6) for (int i = 0; i < 4; i++) k[4 + i] = k[i];
	else if (kind == 7) for (int i = 0; i < 8; i++) k[i] = u32(i) * 0x11111111u;
	return k;
}
inline std::string key_text(const Key8 &k, bool upper = false) {
	std::string s;
	for (const auto w : k) { char b[16]; snprintf(b, sizeof b, upper ? "%08X" : "%08x", w); s += b; }
	return s;
}
inline std::string mixed_case(Rng &r, std::string s) {
	for (auto &c : s) if (r.chance(1, 2)) c = char(toupper(c));
	return s;
}
inline Rows rows(Rng &r) {
	const auto kind = r.below(10);
	Rows t = rows3412();
	if (kind < 3) return t;
	if (kind >= 8) {                                                      // almost the default table
		for (u64 n = 1 + r.below(2); n; n--) {
			auto &row = t[r.below(8)];
			const auto a = r.below(16), b = r.below(16);
			switch (r.below(4)) {
			case 0: row[a] = u8(r.below(16)); break;
			case 1: std::swap(row, t[r.below(8)]); break;
			case 2: std::reverse(row.begin() + long(std::min(a, b)), row.begin() + long(std::max(a, b)) + 1); break;
			default: std::swap(row[a], row[b]);
			}
		}
		return t;
	}
	for (auto &row : t) {
		for (int i = 0; i < 16; i++) row[i] = u8(i);
		if (kind == 3) continue;                                      // identity
		if (kind == 4) { for (auto &v : row) v = u8(r.below(16)); continue; }  // not a bijection
		for (int i = 15; i > 0; i--) std::swap(row[i], row[r.below(u64(i) + 1)]);
	}
	return t;
}
inline std::string show_key(const Key8 &k) { return key_text(k); }

struct KKey { u128 k1, k2; };
inline KKey kkey(Rng &r) {
	switch (r.below(8)) {
	case 0: { const u128 a = wide(r), b = wide(r); const auto p = Kuz::key_for(a, b, int(r.below(5))); return {p.first, p.second}; }  // special round keys
	case 1: { const u128 a = wide(r); return {a, a}; }
	case 2: return {0, 0};
	case 3: return {~u128(0), ~u128(0)};
	case 4: return {wide(r), wide(r)};
	default: return {mk128(r.u(), r.u()), mk128(r.u(), r.u())};
	}
}
inline std::string kkey_text(const KKey &k) { return hex128(k.k1) + hex128(k.k2); }
// A key close to k in one of the ways that a careless digest, index or comparison takes for the same:
// bits and words changed, moved or exchanged, sums and XORs kept, digits permuted.
inline Key8 relative(Rng &r, Key8 k) {
	const size_t a = r.below(8), b = (a + 1 + r.below(7)) % 8;
	const int s = int(r.below(32)), t = int(r.below(32));
	switch (r.below(20)) {
	case 0: k[a] ^= 1u << s; break;
	case 1: k[a] ^= 1u << s; k[a] ^= 1u << t; break;
	case 2: k[a] ^= 1u << s; k[b] ^= 1u << s; break;                       // XOR of the words kept
	case 3: { const u32 d = 1u << s; k[a] += d; k[b] -= d; break; }         // sum kept
	case 4: std::swap(k[a], k[b]); break;
	case 5: for (size_t i = 0; i < 4; i++) std::swap(k[i], k[7 - i]); break;
	case 6: for (size_t i = 0; i < 4; i++) std::swap(k[i], k[4 + i]); break;
	case 7: for (auto &w : k) w = __builtin_bswap32(w); break;
	case 8: k[7] = u32(r.u()); break;
	case 9: k[0] = u32(r.u()); break;
	case 10: for (size_t i = 4; i < 8; i++) k[i] = u32(r.u()); break;
	case 11: for (size_t i = 0; i < 4; i++) k[i] = u32(r.u()); break;
	case 12: for (auto &w : k) w = ~w; break;
	case 13: k[a] = k[a] << 16 | k[a] >> 16; break;
	case 14: { const u32 x = (k[a] >> (s & 28) ^ k[b] >> (t & 28)) & 15; k[a] ^= x << (s & 28); k[b] ^= x << (t & 28); break; }  // two digits exchanged
	case 15: { const u32 x = (k[a] >> (s & 24) ^ k[a] >> (t & 24)) & 255; k[a] ^= x << (s & 24); k[a] ^= x << (t & 24); break; }  // two bytes exchanged
	case 16: { const u32 w = k[0]; for (size_t i = 0; i < 7; i++) k[i] = k[i + 1]; k[7] = w; break; }
	case 17: k[a] = u32(r.u()); break;
	case 18: k[a] &= 0xffff; break;
	default: for (auto &w : k) w = w << 8 | w >> 24;
	}
	return k;
}
inline KKey relative(Rng &r, const KKey &k) {
	Key8 w;
	for (size_t i = 0; i < 4; i++) { w[i] = u32(k.k1 >> (96 - 32 * i)); w[4 + i] = u32(k.k2 >> (96 - 32 * i)); }
	w = relative(r, w);
	KKey o{0, 0};
	for (size_t i = 0; i < 4; i++) { o.k1 = o.k1 << 32 | w[i]; o.k2 = o.k2 << 32 | w[4 + i]; }
	return o;
}

inline Bytes content(Rng &r, size_t n) {
	Bytes m(n);
	const auto kind = r.below(9);
	if (kind == 0) return m;
	if (kind == 1) { for (auto &b : m) b = 0xff; return m; }
	if (kind == 2) { const u64 w = word(r); for (size_t i = 0; i < n; i++) m[i] = u8(w >> (8 * (i % 8))); return m; }
	if (kind == 3) { for (size_t i = 0; i < n; i++) m[i] = u8(i); return m; }
	if (kind == 4) { for (size_t i = 0; i < n; i += 8) { const u64 w = word(r); for (size_t j = i; j < n && j < i + 8; j++) m[j] = u8(w >> (8 * (j % 8))); } return m; }
	if (kind == 5) { for (auto &b : m) b = r.chance(1, 12) ? u8(r.u()) : 0; return m; }
	for (auto &b : m) b = u8(r.u());
	return m;
}

// Lengths: the first `dense` cases walk 0,1,2,... ; later ones sit around powers of two and
// multiples of common buffer sizes, up to maxlen.
inline size_t length(Rng &r, long i, long dense, size_t maxlen) {
	if (i < dense) return size_t(i);
	switch (r.below(4)) {
	case 0: { size_t p = size_t(1) << r.below(21); while (p > maxlen) p >>= 1; const long d = r.range(-9, 9); const long v = long(p) + d; return v < 0 ? 0 : size_t(v); }
	case 1: return size_t(r.below(130));
	case 2: return size_t(r.below(maxlen < 2100 ? maxlen + 1 : 2100));
	default: return size_t(8 * r.below(maxlen / 8 < 160 ? maxlen / 8 + 1 : 160));
	}
}

// A number at or a little beyond a power of two: 2^k - 9 .. 2^k + 2^k / 8.
inline size_t about(Rng &r, int k) {
	const size_t p = size_t(1) << k;
	switch (r.below(4)) {
	case 0: return p;
	case 1: { const long v = long(p) + r.range(-9, 9); return v < 0 ? 0 : size_t(v); }
	case 2: return p + r.below(p / 8 + 1);
	default: return p + r.below(p + 1);
	}
}

// A size in bytes from one to some tens of megabytes: the powers of two themselves, and around them.
inline long long_cases() { return mon::thorough() ? 64 : 24; }
inline size_t long_size(Rng &r, long i) { const long k = mon::thorough() ? 7 : 5; return i % 3 == 0 ? size_t(1) << (20 + i / 3 % k) : about(r, int(19 + i % k)); }

// Split of n bytes into write sizes (sum == n, may contain zeros). align > 1 keeps every write a multiple.
inline std::vector<size_t> split(Rng &r, size_t n, size_t align = 1) {
	std::vector<size_t> s;
	const auto kind = r.below(9);
	if (kind == 0) { s.push_back(n); return s; }
	size_t left = n;
	const size_t fixed = kind == 1 ? align : kind == 2 ? align * (1 + r.below(17)) : 0;
	while (left) {
		size_t c;
		if (fixed) c = fixed;
		else if (kind == 3) c = align * r.below(10);
		else if (kind == 4) c = align * r.below(40);
		else if (kind == 5) c = align * (s.empty() ? 7 : 1 + r.below(3));
		else if (kind == 6) c = align * (r.chance(1, 4) ? 0 : 8 * (1 + r.below(4)));
		else if (kind == 7) c = align * (1 + r.below(left / align + 1));
		else c = align * (s.size() % 2 ? 1 + r.below(200) : 1 + r.below(9));
		if (c > left) c = left;
		s.push_back(c); left -= c;
	}
	while (r.chance(1, 3)) s.insert(s.begin() + long(r.below(s.size() + 1)), 0);
	return s;
}
inline std::string show_split(const std::vector<size_t> &s) {
	std::string o;
	for (size_t i = 0; i < s.size() && i < 24; i++) { if (i) o += '+'; o += std::to_string(s[i]); }
	if (s.size() > 24) o += "+..";
	return o;
}

// Read sizes, to be used until the source is exhausted (the plan repeats its last entry kind).
struct ReadPlan {
	u64 kind; u64 fixed; Rng rng;
	explicit ReadPlan(Rng &r) : kind(r.below(9)), fixed(1 + r.below(40)), rng(r.u()) {}
	size_t next() {
		switch (kind) {
		case 0: return ~size_t(0);
		case 1: return 1;
		case 2: return size_t(fixed);
		case 3: return size_t(rng.below(20));
		case 4: return size_t(rng.below(3) ? rng.below(70) : 0);
		case 5: return 8;
		case 6: return size_t(1) << rng.below(62);
		case 7: return size_t((u64(1) << 32) + rng.below(9));
		default: return rng.chance(1, 3) ? 7 : 9;
		}
	}
};

}  // namespace gen
