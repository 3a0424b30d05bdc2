// C11: a GOST R 34.13 MAC depends on every bit and on the length of the message, and on the key.
#include "kz.hpp"
#include "mg.hpp"
#include "main.hpp"
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/StMemory.h>
#include <goost/magma/Imit.h>

using mg::make_shared;
using ref::Bytes; using ref::u64; using ref::u128; using ref::u8; using ref::u32;

// Random keys only: palindromic ones make the block cipher an involution (weak keys of the
// cipher itself), and degenerate tables make it no permutation worth the name.
static gen::Key8 strong_key(mon::Rng &r) { gen::Key8 k; for (auto &w : k) w = u32(r.u()); return k; }
static mg::Cipher strong(mon::Rng &r) {
	mg::Cipher c;
	c.ref.k = strong_key(r);
	c.ref.rows = ref::rows3412();
	if (r.chance(1, 3)) for (auto &row : c.ref.rows) for (int i = 15; i > 0; i--) std::swap(row[size_t(i)], row[r.below(u64(i) + 1)]);
	const int sf = int(r.below(4));
	if (r.chance(1, 2)) c.key = make_shared<mg::gm::LazyKey>(gen::key_text(c.ref.k), mg::sbox(c.ref.rows, sf));
	else c.key = make_shared<mg::gm::LazyKey>(std::vector<u32>(c.ref.k.begin(), c.ref.k.end()), mg::sbox(c.ref.rows, sf));
	c.what = "key " + gen::key_text(c.ref.k) + " table form " + std::to_string(sf);
	return c;
}
static u64 mmac(const mg::Cipher &c, const Bytes &m) { return mg::val(mg::gm::Imit(make_shared<mg::MemSource>(m), c.key).value()); }
static u128 kmac(const kz::Cipher &c, const std::vector<u64> &w) { return kz::val(kz::gk::Imit(make_shared<kz::gk::StMemory>(w), c.key).value()); }

// One of many ways in which a message can be changed; never returns the same message.
template <class V>
static V changed(mon::Rng &r, const V &m, std::string &how, size_t unit) {
	while (true) {
		V x = m;
		switch (r.below(12)) {
		case 0: if (x.empty()) continue; { const size_t i = r.below(x.size()); const unsigned b = unsigned(r.below(8 * sizeof(x[0]))); x[i] ^= typename V::value_type(1) << b; how = mon::Msg() << "bit " << b << " of unit " << i << " flipped"; } break;
		case 1: x.push_back(0); how = "a zero unit appended"; break;
		case 2: x.resize(x.size() + unit * (1 + r.below(3))); how = "zero blocks appended"; break;
		case 3: if (x.size() < 2) continue; x.pop_back(); how = "last unit dropped"; break;
		case 4: if (x.size() < unit + 1) continue; x.erase(x.begin(), x.begin() + long(unit)); how = "first block dropped"; break;
		case 5: x.insert(x.begin(), unit, 0); how = "zero block prepended"; break;
		case 6: if (x.size() < 2 * unit) continue; { const size_t n = x.size() / unit, a = r.below(n), b = r.below(n); if (a == b) continue; for (size_t k = 0; k < unit; k++) std::swap(x[a * unit + k], x[b * unit + k]); how = mon::Msg() << "blocks " << a << " and " << b << " swapped"; } break;
		case 7: if (x.size() < unit) continue; { const size_t a = r.below(x.size() / unit); const V b(x.begin() + long(a * unit), x.begin() + long((a + 1) * unit)); x.insert(x.begin() + long(a * unit), b.begin(), b.end()); how = mon::Msg() << "block " << a << " repeated"; } break;
		case 8: if (x.size() < 3) continue; x.resize(x.size() / 2); how = "truncated"; break;
		case 9: if (x.size() < 2) continue; std::swap(x[0], x[x.size() - 1]); how = "first and last unit swapped"; break;
		case 10: { const V y = x; x.insert(x.end(), y.begin(), y.end()); how = "message doubled"; } break;
		default: if (x.empty()) continue; { const size_t i = r.below(x.size()); x[i] = typename V::value_type(x[i] + 1 + r.below(250)); how = mon::Msg() << "unit " << i << " changed"; } break;
		}
		if (x != m && !x.empty()) return x;
	}
}
// the known limitation: two different byte strings the library pads to the same last block
static bool same_padding(const Bytes &a, const Bytes &b) {
	const Bytes &s = a.size() < b.size() ? a : b, &l = a.size() < b.size() ? b : a;
	if (s.size() == l.size() || s.size() / 8 != l.size() / 8 || l.size() % 8 == 0) return false;
	for (size_t i = 0; i < l.size(); i++) if (l[i] != (i < s.size() ? s[i] : 0)) return false;
	return true;
}
static void checks() {
	mon::group("magma-change", mon::count(4000), [](mon::Rng &r, long i) {
		const auto c = strong(r);
		const Bytes m = gen::content(r, r.below(i % 3 ? 60 : 24));
		const u64 a = mmac(c, m);
		for (int k = 0; k < 3; k++) {
			std::string how;
			const Bytes x = changed(r, m, how, 8);
			if (same_padding(m, x)) { mon::event("pairs of the recorded padding finding left out"); continue; }
			const u64 b = mmac(c, x);
			MON_REQUIRE(a != b, "magma-collision", c.what << ": messages of " << m.size() << " and " << x.size() << " bytes (" << how << ") both have MAC " << mon::hex(a));
			mon::event("Magma message pairs");
			mon::seen(mon::hash_bytes(x.data(), x.size(), mon::hash_bytes(m.data(), m.size())));
			if (i < 1) mon::sample(mon::Msg() << "Magma, " << m.size() << " bytes, " << how << ": " << mon::hex(a) << " / " << mon::hex(b));
		}
	});
	mon::group("magma-family", mon::count(120, 10), [](mon::Rng &r, long) {
		// all zero-extensions and prefixes of one message have pairwise different MACs
		const auto c = strong(r);
		const Bytes m = r.chance(1, 2) ? Bytes(80) : gen::content(r, 80);
		std::map<u64, size_t> got;
		for (size_t n = 0; n <= 80; n++) {
			const Bytes x(m.begin(), m.begin() + long(n));
			const u64 v = mmac(c, x);
			const auto it = got.find(v);
			if (it != got.end() && !same_padding(x, Bytes(m.begin(), m.begin() + long(it->second)))) mon::fail("magma-collision", mon::Msg() << c.what << ": prefixes of " << it->second << " and " << n << " bytes both have MAC " << mon::hex(v));
			got.emplace(v, n);
			mon::event("Magma prefixes");
		}
		mon::seen(mon::hash_str(c.what));
	});
	mon::group("magma-bits", mon::count(40, 10), [](mon::Rng &r, long) {
		const auto c = strong(r);
		const Bytes m = gen::content(r, 1 + r.below(30));
		std::set<u64> all{mmac(c, m)};
		for (size_t b = 0; b < 8 * m.size(); b++) {
			Bytes x = m; x[b / 8] ^= u8(1 << (b % 8));
			MON_REQUIRE(all.insert(mmac(c, x)).second, "magma-bit", c.what << ": flipping bit " << b << " of " << m.size() << " bytes repeats a MAC");
			mon::event("Magma bit flips");
		}
		mon::seen(mon::hash_str(c.what));
	});
	mon::group("magma-key", mon::count(30, 10), [](mon::Rng &r, long) {
		const auto k = strong_key(r);
		const auto rows = ref::rows3412();
		const Bytes m = gen::content(r, r.below(40));
		const auto mac = [&](const gen::Key8 &x) { return mg::val(mg::gm::Imit(make_shared<mg::MemSource>(m), make_shared<mg::gm::LazyKey>(std::vector<u32>(x.begin(), x.end()), mg::sbox(rows, 3))).value()); };
		std::set<u64> all{mac(k)};
		for (size_t b = 0; b < 256; b++) {
			auto x = k; x[b / 32] ^= 1u << (b % 32);
			MON_REQUIRE(all.insert(mac(x)).second, "magma-key", gen::key_text(k) << ": key bit " << b << " does not change the MAC of " << m.size() << " bytes");
			mon::event("Magma key bits");
		}
		mon::seen(mon::hash_str(gen::key_text(k)));
	});
	// Messages of every magnitude; changes anywhere, and in the blocks around powers of two
	if (mon::opts().mode == "plain") mon::group("magma-long", mon::count(64, 6), [](mon::Rng &r, long i) {
		const auto c = strong(r);
		const size_t n = std::max(size_t(16), gen::about(r, int(4 + i % 13)));
		const Bytes m = gen::content(r, r.chance(1, 2) ? n / 8 * 8 : n);
		const u64 a = mmac(c, m);
		for (int k = 0; k < 6; k++) {
			std::string how;
			Bytes x = m;
			if (k < 3) x = changed(r, m, how, 8);
			else {
				size_t block = (size_t(1) << r.below(18)) + r.below(3) - 1;
				while (block * 8 >= m.size()) block >>= 1;
				const size_t at = std::min(block * 8 + r.below(8), m.size() - 1);
				x[at] ^= u8(1 + r.below(255));
				how = mon::Msg() << "byte " << at << " changed";
			}
			if (same_padding(m, x)) { mon::event("pairs of the recorded padding finding left out"); continue; }
			MON_REQUIRE(a != mmac(c, x), "magma-collision", c.what << ": messages of " << m.size() << " and " << x.size() << " bytes (" << how << ") both have MAC " << mon::hex(a));
			mon::event("Magma message pairs"); mon::event("long Magma message pairs");
			mon::seen(mon::hash_bytes(x.data(), x.size(), mon::hash_bytes(m.data(), m.size())));
		}
	});
	if (mon::opts().mode == "plain") mon::group("kuz-long", mon::count(48, 6), [](mon::Rng &r, long i) {
		const auto c = kz::cipher(r);
		std::vector<u64> m(std::max(size_t(4), gen::about(r, int(2 + i % 9))));
		const bool zero = r.chance(1, 3);
		for (auto &w : m) w = zero ? 0 : gen::word(r);
		const u128 a = kmac(c, m);
		for (int k = 0; k < 4; k++) {
			std::string how;
			auto x = m;
			if (k < 2) x = changed(r, m, how, 2);
			else {
				size_t w = (size_t(1) << r.below(12)) + r.below(5) - 1;
				while (w >= m.size()) w >>= 1;
				x[w] ^= u64(1) << r.below(64);
				how = mon::Msg() << "word " << w << " changed";
			}
			MON_REQUIRE(a != kmac(c, x), "kuz-collision", c.what << ": messages of " << m.size() << " and " << x.size() << " words (" << how << ") both have MAC " << ref::hex128(a));
			mon::event("Kuznyechik message pairs"); mon::event("long Kuznyechik message pairs");
			mon::seen(mon::hash_bytes(x.data(), 8 * x.size(), mon::hash_bytes(m.data(), 8 * m.size())));
		}
	});
	// Keys that are close to one another, in any form, used in turn
	mon::group("magma-close-keys", mon::count(120, 10), [](mon::Rng &r, long) {
		const auto rows = ref::rows3412();
		const Bytes m = gen::content(r, r.below(40));
		std::map<u64, gen::Key8> all;
		std::vector<gen::Key8> keys{strong_key(r)};
		while (keys.size() < 24) keys.push_back(gen::relative(r, keys[r.below(keys.size())]));
		for (const auto &k : keys) {
			std::shared_ptr<const mg::gm::LazyKey> key;
			if (r.chance(1, 2)) key = make_shared<mg::gm::LazyKey>(gen::key_text(k));
			else key = make_shared<mg::gm::LazyKey>(std::vector<u32>(k.begin(), k.end()), mg::sbox(rows, int(r.below(4))));
			const u64 v = mg::val(mg::gm::Imit(make_shared<mg::MemSource>(m), key).value());
			const auto it = all.emplace(v, k).first;
			MON_REQUIRE(it->second == k, "magma-key", "keys " << gen::key_text(k) << " and " << gen::key_text(it->second) << " give one MAC of " << m.size() << " bytes");
			mon::event("Magma close keys");
		}
		mon::seen(mon::hash_str(gen::key_text(keys[0])));
	});
	mon::group("kuz-close-keys", mon::count(40, 10), [](mon::Rng &r, long) {
		std::vector<u64> m(1 + r.below(4));
		for (auto &w : m) w = gen::word(r);
		std::map<u128, std::string> all;
		std::vector<gen::KKey> keys{gen::kkey(r)};
		while (keys.size() < 16) keys.push_back(gen::relative(r, keys[r.below(keys.size())]));
		for (const auto &k : keys) {
			const auto t = gen::kkey_text(k);
			const u128 v = kz::val(kz::gk::Imit(make_shared<kz::gk::StMemory>(m), make_shared<kz::gk::Key>(t)).value());
			const auto it = all.emplace(v, t).first;
			MON_REQUIRE(it->second == t, "kuz-key", "keys " << t << " and " << it->second << " give one MAC");
			mon::event("Kuznyechik close keys");
		}
		mon::seen(mon::hash_str(gen::kkey_text(keys[0])));
	});
	mon::group("kuz-change", mon::count(700), [](mon::Rng &r, long i) {
		const auto c = kz::cipher(r);
		std::vector<u64> m(1 + r.below(7));
		for (auto &w : m) w = gen::word(r);
		const u128 a = kmac(c, m);
		for (int k = 0; k < 2; k++) {
			std::string how;
			const auto x = changed(r, m, how, 2);
			const u128 b = kmac(c, x);
			MON_REQUIRE(a != b, "kuz-collision", c.what << ": messages of " << m.size() << " and " << x.size() << " words (" << how << ") both have MAC " << ref::hex128(a));
			mon::event("Kuznyechik message pairs");
			mon::seen(mon::hash_bytes(x.data(), 8 * x.size(), mon::hash_bytes(m.data(), 8 * m.size())));
			if (i < 1) mon::sample(mon::Msg() << "Kuznyechik, " << m.size() << " words, " << how << ": " << ref::hex128(a) << " / " << ref::hex128(b));
		}
	});
	mon::group("kuz-family", mon::count(24, 10), [](mon::Rng &r, long) {
		const auto c = kz::cipher(r);
		const bool zero = r.chance(1, 2);
		std::vector<u64> m;
		std::map<u128, size_t> got;
		for (size_t n = 1; n <= 12; n++) {
			m.push_back(zero ? 0 : gen::word(r));
			const auto res = got.emplace(kmac(c, m), n);
			MON_REQUIRE(res.second, "kuz-collision", c.what << ": prefixes of " << res.first->second << " and " << n << " words have one MAC");
			mon::event("Kuznyechik prefixes");
		}
		mon::seen(mon::hash_str(c.what));
	});
	mon::group("kuz-bits", mon::count(16, 10), [](mon::Rng &r, long) {
		const auto c = kz::cipher(r);
		std::vector<u64> m(1 + r.below(3));
		for (auto &w : m) w = gen::word(r);
		std::set<u128> all{kmac(c, m)};
		for (size_t b = 0; b < 64 * m.size(); b++) {
			auto x = m; x[b / 64] ^= u64(1) << (b % 64);
			MON_REQUIRE(all.insert(kmac(c, x)).second, "kuz-bit", c.what << ": flipping bit " << b << " of " << m.size() << " words repeats a MAC");
			mon::event("Kuznyechik bit flips");
		}
		mon::seen(mon::hash_str(c.what));
	});
	mon::group("kuz-key", mon::count(8, 10), [](mon::Rng &r, long) {
		const auto k = gen::kkey(r);
		const std::vector<u64> m{gen::word(r), gen::word(r)};
		const auto mac = [&](u128 a, u128 b) { return kz::val(kz::gk::Imit(make_shared<kz::gk::StMemory>(m), make_shared<kz::gk::Key>(gen::kkey_text({a, b}))).value()); };
		std::set<u128> all{mac(k.k1, k.k2)};
		for (int b = 0; b < 256; b++) {
			const u128 f = u128(1) << (b % 128);
			MON_REQUIRE(all.insert(b < 128 ? mac(k.k1 ^ f, k.k2) : mac(k.k1, k.k2 ^ f)).second, "kuz-key", gen::kkey_text(k) << ": key bit " << b << " does not change the MAC");
			mon::event("Kuznyechik key bits");
		}
		mon::seen(mon::hash_str(gen::kkey_text(k)));
	});
	// The recorded finding: zero bytes appended inside an incomplete last block go unnoticed.
	mon::group("magma-tail-zero-extension", 1, [](mon::Rng &, long) {
		const auto key = make_shared<mg::gm::LazyKey>("ffeeddccbbaa99887766554433221100f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff");
		const auto mac = [&](const Bytes &m) { return mg::val(mg::gm::Imit(make_shared<mg::MemSource>(m), key).value()); };
		mon::event("pairs of the recorded padding finding");
		const u64 a = mac(Bytes{1, 2, 3}), b = mac(Bytes{1, 2, 3, 0});
		MON_REQUIRE(a != b, "magma-tail-zero-extension", "key ffeedd..feff: messages 010203 and 01020300 both have MAC " << mon::hex(a));
	});
}
