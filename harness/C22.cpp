// C22: substitution tables act nibble by nibble, in every form alike.
#include "scene.hpp"
#include <optional>
using namespace sc;
static u32 sub(const Rows &t, u32 v) { u32 r = 0; for (int i = 0; i < 8; i++) r |= u32(t[size_t(i)][v >> (4 * i) & 15]) << (4 * i); return r; }
static u32 rot(u32 t) { return t << 11 | t >> 21; }
static void eq(u32 got, u32 want, const Rows &t, const std::string &form, u32 v) {
	mon::event("words compared: " + form);
	if (got == want) return;
	std::string s;
	for (const auto &row : t) { for (const auto x : row) s += mon::hex(x, 1); s += ' '; }
	mon::fail("table " + form, form + " of rows " + s + "takes " + mon::hex(v, 8) + " to " + mon::hex(got, 8) + ", expected " + mon::hex(want, 8));
}
static Rows table(mon::Rng &r) {
	Rows t = gen::rows(r);
	switch (r.below(6)) {
	case 0: for (auto &row : t) row.fill(u8(r.below(16))); break;                        // constant rows
	case 1: for (size_t i = 0; i < 8; i++) for (size_t j = 0; j < 16; j++) t[i][j] = u8(15 - j); break;
	case 2: for (size_t i = 0; i < 8; i++) for (size_t j = 0; j < 16; j++) t[i][j] = u8(j ^ i); break;
	default: break;
	}
	return t;
}
static void checks() {
	// every (nibble position, nibble value) and every byte value at every byte position, plus random words
	mon::group("forms", mon::count(400), [](mon::Rng &r, long) {
		const Rows t = table(r);
		const auto packed = packed_from_rows(t);
		const auto nib = nibble(t);
		const gm::SboxByte byt(packed);
		const auto tabs = own_tabs(t);
		const gm::SboxTwisted tn(nibble(t)), tb(std::make_unique<gm::SboxByte>(packed)), tt(own_tabs(t)), own(std::make_unique<gm::SboxTwisted>(nibble(t)));
		vector<u32> w;
		for (int i = 0; i < 8; i++) for (u32 n = 0; n < 16; n++) w.push_back(n << (4 * i));
		for (int i = 0; i < 4; i++) for (u32 n = 0; n < 256; n++) w.push_back((n << (8 * i)) | (u32(r.u()) & ~(0xffu << (8 * i))));
		for (int i = 0; i < 200; i++) w.push_back(gen::word32(r));
		for (const u32 v : w) {
			const u32 s = sub(t, v);
			eq(nib->transform(v), s, t, "nibble form", v);
			eq(byt.transform(v), s, t, "packed form", v);
			eq(tabs->transform(v), s, t, "per-byte form", v);
			eq(tn.transform(v), rot(s), t, "rotated nibble form", v);
			eq(tb.transform(v), rot(s), t, "rotated packed form", v);
			eq(tt.transform(v), rot(s), t, "rotated per-byte form", v);
			eq(own.transform(v), rot(rot(s)), t, "twice rotated form", v);
		}
		const u64 h = mon::hash_bytes(packed.data(), 64);
		for (size_t i = 0; i < w.size(); i++) mon::seen(mon::mix64(h) ^ w[i]);
		mon::sample("table " + mon::hexb(packed.data(), 64, 64) + ": " + std::to_string(w.size()) + " words in 7 forms");
	});
	// one byte column of the packed form at a time, with longer vectors too
	mon::group("packed column", mon::count(400), [](mon::Rng &r, long i) {
		const Rows t = table(r);
		auto packed = packed_from_rows(t);
		if (r.chance(1, 3)) packed.resize(64 + r.below(20), 0x77);
		const int off = int(i % 4);
		const gm::SboxByte64Tab tab(packed, off);
		for (u32 n = 0; n < 256; n++) {
			const u32 want = u32(t[size_t(2 * off)][n & 15]) | u32(t[size_t(2 * off + 1)][n >> 4]) << 4;
			eq(tab.translate(int(n)), want, t, "packed column " + std::to_string(off), n);
		}
	});
	mon::group("default", mon::count(60), [](mon::Rng &r, long) {
		const gm::SboxR3412 d;
		const gm::LazyKey zero(std::string(64, '0'));
		for (int i = 0; i < 2000; i++) {
			const u32 v = i < 1024 ? (u32(i & 255) << (8 * (i >> 8))) | (r.chance(1, 2) ? u32(r.u()) & ~(0xffu << (8 * (i >> 8))) : 0) : gen::word32(r);
			eq(d.transform(v), rot(sub(rows3412(), v)), rows3412(), "default table", v);
			eq(zero.transform(v, int(r.below(8))), rot(sub(rows3412(), v)), rows3412(), "key without a table", v);
			mon::seen(v);
		}
	});
	// tables inside a key: the sum feeding the table wraps modulo 2^32
	mon::group("in a key", mon::count(400), [](mon::Rng &r, long) {
		Magma c;
		c.k = gen::key(r); c.rows = table(r);
		for (int form = 0; form < 4; form++) {
			const gm::LazyKey k(vector<u32>(c.k.begin(), c.k.end()), sbox(c.rows, form));
			for (int i = 0; i < 40; i++) {
				const u32 v = gen::word32(r); const int n = int(r.below(8));
				eq(k.transform(v, n), rot(sub(c.rows, v + c.k[size_t(n)])), c.rows, "table in a key", v + c.k[size_t(n)]);
			}
		}
	});
	// A table object that takes the place of another one: it answers from its own rows
	mon::group("in the same place", mon::count(600), [](mon::Rng &r, long i) {
		std::optional<gm::SboxByte> byt; std::optional<gm::SboxNibble> nib; std::optional<gm::SboxTwisted> tw; std::optional<gm::SboxByte64Tab> col;
		vector<u32> w;
		for (int i = 0; i < 4; i++) w.push_back(gen::word32(r));
		for (int k = 0; k < 6; k++) {
			const Rows t = table(r);
			const auto packed = packed_from_rows(t);
			const int off = int(r.below(2));
			vector<vector<int>> p;
			for (const auto &row : t) p.emplace_back(row.begin(), row.end());
			// one form at a time, so that nothing else is asked in between
			switch (i % 4) {
			case 0: byt.emplace(packed); break;
			case 1: nib.emplace(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]); break;
			case 2: tw.reset(); tw.emplace(std::make_unique<gm::SboxByte>(packed)); break;
			default: col.emplace(packed, off);
			}
			// the last word asked of one table is the first asked of the next
			for (size_t j = 0; j < 8; j++) {
				const u32 v = w[k % 2 ? 3 - j % 4 : j % 4], s = sub(t, v);
				if (byt) eq(byt->transform(v), s, t, "packed form in the place of another", v);
				if (nib) eq(nib->transform(v), s, t, "nibble form in the place of another", v);
				if (tw) eq(tw->transform(v), rot(s), t, "rotated form in the place of another", v);
				if (col) eq(col->translate(int(v & 0xff)), u32(t[size_t(2 * off)][v & 15]) | u32(t[size_t(2 * off + 1)][v >> 4 & 15]) << 4, t, "packed column in the place of another", v & 0xff);
				mon::seen(mon::mix64(mon::hash_bytes(packed.data(), 64) ^ v));
			}
		}
	});
	// exhaustive over 32-bit words, a slice per case (complete in the thorough tier)
	mon::group("exhaustive", mon::thorough() ? 1024 : 16, [](mon::Rng &r, long i) {
		static const Rows t = rows3412();
		static const auto packed = packed_from_rows(t);
		static const gm::SboxByte byt(packed);
		static const auto nib = nibble(t);
		static const gm::SboxR3412 d;
		// slices of 2^22 words; the quick tier takes a seed-chosen sample of words over the space
		const u32 step = mon::thorough() ? 1 : 0;
		const u32 n = mon::thorough() ? 1u << 22 : 20000;
		u64 bad = 0; u32 w = 0;
		for (u32 j = 0; j < n; j++) {
			const u32 v = step ? (u32(i) << 22) + j : u32(r.u());
			const u32 s = sub(t, v);
			if (nib->transform(v) != s || byt.transform(v) != s || d.transform(v) != rot(s)) { bad++; w = v; }
		}
		mon::event("words swept", n);
		mon::seen(mon::mix64(u64(i) + 99));
		MON_REQUIRE(!bad, "table sweep", "default table: " << bad << " words of the slice wrong, one is " << mon::hex(w, 8));
	});
}
#include "main.hpp"
