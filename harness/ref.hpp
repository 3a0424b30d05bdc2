// Independent reference model of GOST 28147-89, GOST R 34.12-2015 and the modes of
// GOST R 34.13-2015 goost offers, written from the standards. No goost code is used here.
// Blocks are plain integers: u64 for Magma, u128 for Kuznyechik; byte strings hold a block
// least significant byte first (the convention of goost's sources and sinks).
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

namespace ref {

using u8 = uint8_t; using u32 = uint32_t; using u64 = uint64_t;
using u128 = unsigned __int128;
using Bytes = std::vector<u8>;

inline u128 mk128(u64 hi, u64 lo) { return (u128(hi) << 64) | lo; }
inline u64 lo64(u128 v) { return u64(v); }
inline u64 hi64(u128 v) { return u64(v >> 64); }

// ---------------------------------------------------------------- Magma / GOST 28147-89
using Rows = std::array<std::array<u8, 16>, 8>;   // row i substitutes nibble i (0 = least significant)

inline const Rows &rows3412() {
	// GOST R 34.12-2015, 5.1.1 (pi_0 .. pi_7)
	static const Rows r = {{
		{{0xc,0x4,0x6,0x2,0xa,0x5,0xb,0x9,0xe,0x8,0xd,0x7,0x0,0x3,0xf,0x1}},
		{{0x6,0x8,0x2,0x3,0x9,0xa,0x5,0xc,0x1,0xe,0x4,0x7,0xb,0xd,0x0,0xf}},
		{{0xb,0x3,0x5,0x8,0x2,0xf,0xa,0xd,0xe,0x1,0x7,0x4,0xc,0x9,0x6,0x0}},
		{{0xc,0x8,0x2,0x1,0xd,0x4,0xf,0x6,0x7,0x0,0xa,0x5,0x3,0xe,0x9,0xb}},
		{{0x7,0xf,0x5,0xa,0x8,0x1,0x6,0xd,0x0,0x9,0x3,0xe,0xb,0x4,0x2,0xc}},
		{{0x5,0xd,0xf,0x6,0x9,0x2,0xc,0xa,0xb,0x7,0x8,0x1,0x4,0x3,0xe,0x0}},
		{{0x8,0xe,0x2,0x5,0x6,0x9,0x1,0xc,0xf,0x4,0xb,0x0,0xd,0xa,0x3,0x7}},
		{{0x1,0x7,0xe,0xd,0x0,0x5,0x8,0x3,0x4,0xf,0xa,0x6,0x9,0xc,0xb,0x2}},
	}};
	return r;
}

// 64-byte packed form: byte 4*n+j holds, for value n, row 2j in its low and row 2j+1 in its high nibble.
inline Rows rows_from_packed(const u8 *t) {
	Rows r;
	for (int n = 0; n < 16; n++) for (int j = 0; j < 4; j++) { r[2 * j][n] = t[4 * n + j] & 15; r[2 * j + 1][n] = t[4 * n + j] >> 4; }
	return r;
}
inline Bytes packed_from_rows(const Rows &r) {
	Bytes t(64);
	for (int n = 0; n < 16; n++) for (int j = 0; j < 4; j++) t[4 * n + j] = u8(r[2 * j][n] | (r[2 * j + 1][n] << 4));
	return t;
}

struct Magma {
	std::array<u32, 8> k;
	Rows rows;

	u32 subst(u32 v) const {
		u32 r = 0;
		for (int i = 7; i >= 0; i--) r = (r << 4) | (rows[i][(v >> (4 * i)) & 15] & 15);
		return r;
	}
	u32 g(u32 a, u32 key) const { const u32 t = subst(a + key); return (t << 11) | (t >> 21); }
	static int kidx(int round) { return round < 24 ? round % 8 : 7 - round % 8; }

	// Feistel state before/after a number of rounds: hi = a1, lo = a0 of the standard.
	struct S { u32 hi, lo; };
	S round(S s, u32 key) const { return {s.lo, s.hi ^ g(s.lo, key)}; }
	S unround(S s, u32 key) const { return {s.lo ^ g(s.hi, key), s.hi}; }
	u64 enc(u64 v) const {
		S s{u32(v >> 32), u32(v)};
		for (int i = 0; i < 32; i++) s = round(s, k[kidx(i)]);
		return (u64(s.lo) << 32) | s.hi;              // last round does not swap
	}
	u64 dec(u64 v) const {
		S s{u32(v), u32(v >> 32)};                     // undo the missing swap
		for (int i = 31; i >= 0; i--) s = unround(s, k[kidx(i)]);
		return (u64(s.hi) << 32) | s.lo;
	}
	// Block whose Feistel state just before round n is s
	u64 block_for_state(S s, int n) const {
		for (int i = n - 1; i >= 0; i--) s = unround(s, k[kidx(i)]);
		return (u64(s.hi) << 32) | s.lo;
	}
	u64 forward(u64 v) const { S s{u32(v >> 32), u32(v)}; for (int i = 0; i < 8; i++) s = round(s, k[size_t(i)]); return (u64(s.hi) << 32) | s.lo; }
	u64 backward(u64 v) const { S s{u32(v >> 32), u32(v)}; for (int i = 7; i >= 0; i--) s = round(s, k[size_t(i)]); return (u64(s.hi) << 32) | s.lo; }
	u64 rounds16(u64 v) const {
		S s{u32(v >> 32), u32(v)};
		for (int i = 0; i < 16; i++) s = round(s, k[i % 8]);
		return (u64(s.hi) << 32) | s.lo;
	}
};

inline u64 le64(const u8 *p, size_t n = 8) { u64 v = 0; for (size_t i = 0; i < n && i < 8; i++) v |= u64(p[i]) << (8 * i); return v; }
inline void put64(Bytes &o, u64 v, size_t n = 8) { for (size_t i = 0; i < n; i++) o.push_back(u8(v >> (8 * i))); }

inline Bytes ecb_enc(const Magma &c, const Bytes &m) { Bytes o; for (size_t i = 0; i + 8 <= m.size(); i += 8) put64(o, c.enc(le64(&m[i]))); return o; }
inline Bytes ecb_dec(const Magma &c, const Bytes &m) { Bytes o; for (size_t i = 0; i + 8 <= m.size(); i += 8) put64(o, c.dec(le64(&m[i]))); return o; }

// CFB with a register of one (GOST 28147-89) or two (GOST R 34.13 example, m = 2n) blocks.
inline Bytes cfb(const Magma &c, std::vector<u64> reg, const Bytes &in, bool decrypt) {
	Bytes o;
	for (size_t i = 0; i < in.size(); i += 8) {
		const size_t n = in.size() - i < 8 ? in.size() - i : 8;
		const u64 gamma = c.enc(reg[0]);
		const u64 x = le64(&in[i], n);
		u64 y = x ^ gamma;
		put64(o, y, n);
		if (n == 8) { reg.erase(reg.begin()); reg.push_back(decrypt ? x : y); }
	}
	return o;
}

inline u64 dbl64(u64 v) { return (v << 1) ^ ((v >> 63) ? 0x1b : 0); }
inline u64 magma_k1(const Magma &c) { return dbl64(c.enc(0)); }
inline u64 magma_k2(const Magma &c) { return dbl64(dbl64(c.enc(0))); }

// MAC with an explicit value for the (already padded) incomplete last block.
inline u64 magma_mac_tail(const Magma &c, const Bytes &m, u64 tail_value) {
	u64 s = 0;
	const size_t full = m.size() / 8;
	for (size_t i = 0; i < full; i++) s = c.enc(s ^ le64(&m[8 * i]));
	return c.enc(s ^ tail_value ^ magma_k2(c));
}
inline u64 magma_mac_full(const Magma &c, const Bytes &m) {
	u64 s = 0;
	const size_t full = m.size() / 8;
	for (size_t i = 0; i + 1 < full; i++) s = c.enc(s ^ le64(&m[8 * i]));
	return c.enc(s ^ le64(&m[8 * (full - 1)]) ^ magma_k1(c));
}
// All readings of "padded to a block" for an r-byte tail: zero fill (what goost does) and the
// renderings of Procedure 3 of GOST R 34.13 (a one bit, then zeros) in the low-first convention.
inline std::vector<u64> magma_tail_values(const u8 *p, size_t r) {
	const u64 v = le64(p, r);
	const u64 num = r ? v << (64 - 8 * r) : 0;
	return {v, v | (u64(0x80) << (8 * r)), v | (u64(1) << (8 * r)), num | (u64(1) << (63 - 8 * r))};
}

inline Bytes imit89(const Magma &c, Bytes m) {
	size_t n = m.size() < 16 ? 16 : (m.size() + 7) / 8 * 8;
	m.resize(n, 0);
	u64 s = 0;
	for (size_t i = 0; i < n; i += 8) s = c.rounds16(s ^ le64(&m[i]));
	Bytes o; put64(o, s); return o;
}

// ---------------------------------------------------------------- Kuznyechik
struct KuzTables {
	u8 pi[256], ipi[256];
	u8 mul[256][256];
	static u8 gm(u8 a, u8 b) {
		unsigned r = 0, x = a;
		for (int i = 0; i < 8; i++) { if (b >> i & 1) r ^= x << i; }
		for (int i = 15; i >= 8; i--) if (r >> i & 1) r ^= 0x1c3u << (i - 8);
		return u8(r);
	}
	KuzTables() {
		// GOST R 34.12-2015, 4.1.1
		static const char *h =
		 "fceedd11cf6e3116fbc4fada23c5044de977f0db932e99ba1736f1bb14cd5fc1"
		 "f918655ae25cef21811c3c428b018e4f058402aee36a8fa0060bed987fd4d31f"
		 "eb342c51eac848abf22a68a2fd3acecc b5700e56080c7612bf7213479cb75d87"
		 "15a19629107b9ac7f391786f9d9eb2b132751 93dff358a7e6d54c680c3bd0d57"
		 "dff524a93ea843c9d779d6f67c22b903e00fecde7a94b0bcdce828504e330a4a"
		 "a79760731e006244 1ab83882649f2641ad45469 2275e552f8ca3a57d69d5953b"
		 "0758b34086ac1df730376be488d9e789e11b83494c3ff8fe8d53aa90cad88561"
		 "207167a42d2b095bcb9b25d0bee56c5259a674d2e6f4b4c0d166afc2394b63b6";
		int n = 0; int acc = 0;
		for (const char *p = h; *p; p++) {
			if (*p == ' ') continue;
			const int d = *p <= '9' ? *p - '0' : *p - 'a' + 10;
			acc = acc * 16 + d;
			if (++n % 2 == 0) { pi[n / 2 - 1] = u8(acc); acc = 0; }
		}
		for (int i = 0; i < 256; i++) ipi[pi[i]] = u8(i);
		for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) mul[a][b] = gm(u8(a), u8(b));
	}
};
inline const KuzTables &kt() { static const KuzTables t; return t; }

inline u8 by(u128 v, int i) { return u8(v >> (8 * i)); }
inline u128 S(u128 v) { u128 r = 0; for (int i = 0; i < 16; i++) r |= u128(kt().pi[by(v, i)]) << (8 * i); return r; }
inline u128 Si(u128 v) { u128 r = 0; for (int i = 0; i < 16; i++) r |= u128(kt().ipi[by(v, i)]) << (8 * i); return r; }
// coefficients for a15 .. a0
inline u8 lsum(u128 v) {
	static const u8 c[16] = {148,32,133,16,194,192,1,251,1,192,194,16,133,32,148,1};
	u8 s = 0;
	for (int i = 0; i < 16; i++) s ^= kt().mul[by(v, 15 - i)][c[i]];
	return s;
}
inline u128 R(u128 v) { return (v >> 8) | (u128(lsum(v)) << 120); }
inline u128 Ri(u128 v) { return (v << 8) | lsum((v << 8) | by(v, 15)); }
inline u128 L(u128 v) { for (int i = 0; i < 16; i++) v = R(v); return v; }
inline u128 Li(u128 v) { for (int i = 0; i < 16; i++) v = Ri(v); return v; }
inline u128 Cn(int i) { return L(u128(unsigned(i))); }
inline u128 LSX(u128 k, u128 v) { return L(S(k ^ v)); }

struct Kuz {
	std::array<u128, 10> rk;
	Kuz(u128 k1, u128 k2) : rk() {
		u128 a = k1, b = k2;
		rk[0] = a; rk[1] = b;
		for (int i = 0; i < 4; i++) {
			for (int j = 1; j <= 8; j++) { const u128 t = LSX(Cn(8 * i + j), a) ^ b; b = a; a = t; }
			rk[2 * i + 2] = a; rk[2 * i + 3] = b;
		}
	}
	u128 enc(u128 v) const { for (int i = 0; i < 9; i++) v = LSX(rk[i], v); return v ^ rk[9]; }
	u128 dec(u128 v) const { v ^= rk[9]; for (int i = 8; i >= 0; i--) v = Si(Li(v)) ^ rk[i]; return v; }
	// plaintext whose state before round r (0..9) is v
	u128 block_for_state(u128 v, int r) const { for (int i = r - 1; i >= 0; i--) v = Si(Li(v)) ^ rk[i]; return v; }
	// master key (k1,k2) such that round keys 2p+1, 2p+2 (1-based) are a, b; p = 0..4
	static std::pair<u128, u128> key_for(u128 a, u128 b, int p) {
		for (int i = p - 1; i >= 0; i--)
			for (int j = 8; j >= 1; j--) { const u128 pa = b; const u128 pb = a ^ LSX(Cn(8 * i + j), pa); a = pa; b = pb; }
		return {a, b};
	}
};

inline u128 dbl128(u128 v) { return (v << 1) ^ ((v >> 127) ? 0x87 : 0); }
// last block incomplete if last_size < 16; its value must be already padded
inline u128 kuz_mac(const Kuz &c, const std::vector<u128> &blocks, size_t last_size) {
	u128 s = 0;
	for (size_t i = 0; i + 1 < blocks.size(); i++) s = c.enc(s ^ blocks[i]);
	const u128 r = c.enc(0);
	const u128 k = last_size == 16 ? dbl128(r) : dbl128(dbl128(r));
	return c.enc(s ^ blocks.back() ^ k);
}
inline std::vector<u128> kuz_tail_values(u128 v, size_t r) {
	const u128 m = r ? (v & ((u128(1) << (8 * r)) - 1)) : 0;
	const u128 num = r ? m << (128 - 8 * r) : 0;
	return {m, m | (u128(0x80) << (8 * r)), m | (u128(1) << (8 * r)), num | (u128(1) << (127 - 8 * r))};
}
inline u128 ctr_block(u64 iv, u64 i) { return mk128(iv, i); }

inline std::string hex128(u128 v) { char b[40]; snprintf(b, sizeof b, "%016llx%016llx", (unsigned long long)hi64(v), (unsigned long long)lo64(v)); return b; }
inline u128 unhex128(const char *s) { u128 v = 0; for (; *s; s++) { v = v * 16 + u128(unsigned(*s <= '9' ? *s - '0' : *s - 'a' + 10)); } return v; }

// Published vectors; a failure means the reference (not goost) is wrong.
inline const char *selftest() {
	Magma m{{{0xffeeddcc,0xbbaa9988,0x77665544,0x33221100,0xf0f1f2f3,0xf4f5f6f7,0xf8f9fafb,0xfcfdfeff}}, rows3412()};
	if (m.enc(0xfedcba9876543210ull) != 0x4ee901e5c2d8ca3dull) return "magma enc (34.12 A.2.4)";
	if (m.dec(0x4ee901e5c2d8ca3dull) != 0xfedcba9876543210ull) return "magma dec (34.12 A.2.5)";
	Bytes p; for (u64 v : {0x92def06b3c130a59ull,0xdb54c704f8189d20ull,0x4a98fb2e67a8024cull,0x8912409b17b57e41ull}) put64(p, v);
	Bytes e; for (u64 v : {0x2b073f0494f372a0ull,0xde70e715d3556e48ull,0x11d8d9e9eacfbc1eull,0x7c68260996c67efbull}) put64(e, v);
	if (ecb_enc(m, p) != e || ecb_dec(m, e) != p) return "magma ecb (34.13 A.2.1)";
	Bytes f; for (u64 v : {0xdb37e0e266903c83ull,0x0d46644c1f9a089cull,0x24bdd2035315d38bull,0xbcc0321421075505ull}) put64(f, v);
	if (cfb(m, {0x1234567890abcdefull,0x234567890abcdef1ull}, p, false) != f) return "magma cfb (34.13 A.2.5)";
	if (cfb(m, {0x1234567890abcdefull,0x234567890abcdef1ull}, f, true) != p) return "magma cfb dec";
	if (magma_mac_full(m, p) >> 32 != 0x154e7210u) return "magma mac (34.13 A.2.6)";
	{	// GOST 28147-89 with the CryptoPro-style packed test table used in goost's own suite
		static const u8 t[64] = {
			0xc4,0xed,0x83,0xc9,0x92,0x98,0xfe,0x6b,0xff,0xbe,0x65,0x5c,0xe5,0x2c,0xb9,0x20,
			0x89,0x57,0x16,0xb3,0x11,0xf3,0x98,0x06,0x30,0x79,0xc0,0x97,0xa8,0x1a,0x5d,0xd5,
			0x2e,0x01,0xda,0x34,0x73,0xd5,0x3b,0xe8,0x4b,0xc2,0x77,0x7e,0xdc,0x64,0xac,0xaf,
			0x6d,0xa6,0x02,0xf1,0x07,0x4f,0xe1,0x4a,0xba,0x30,0x2f,0x12,0x56,0x8b,0x44,0x8d};
		Magma g{{{0xE0F67504,0xFAFB3850,0x90C3C7D2,0x3DCAB3ED,0x42124715,0x8A1EAE91,0x9ECD792F,0xBDEFBCD2}}, rows_from_packed(t)};
		if (g.enc(0x0001020304050607ull) != 0xea4af215984c8c4bull) return "gost89 enc";
		if (g.enc(0x08090a0b0c0d0e0full) != 0xd12ebcb30957c31eull) return "gost89 enc 2";
		Bytes x; put64(x, 0x33333333CCCCCCCCull); put64(x, 0xCCCCCCCC33333333ull);
		Bytes y; put64(y, 0x4B64BD1043224C3Bull); put64(y, 0x0FAA6CD95548EB99ull);
		if (cfb(g, {0x47E3A8FFC3A7802Aull}, x, false) != y) return "gost89 cfb";
	}
	const u128 k1 = unhex128("8899aabbccddeeff0011223344556677"), k2 = unhex128("fedcba98765432100123456789abcdef");
	Kuz q(k1, k2);
	if (q.rk[9] != unhex128("72e9dd7416bcf45b755dbaa88e4a4043")) return "kuz key schedule (34.12 A.1.4)";
	if (q.enc(unhex128("1122334455667700ffeeddccbbaa9988")) != unhex128("7f679d90bebc24305a468d42b9d4edcd")) return "kuz enc (34.12 A.1.5)";
	if (q.dec(unhex128("7f679d90bebc24305a468d42b9d4edcd")) != unhex128("1122334455667700ffeeddccbbaa9988")) return "kuz dec";
	if (S(unhex128("ffeeddccbbaa99881122334455667700")) != unhex128("b66cd8887d38e8d77765aeea0c9a7efc")) return "kuz S (34.12 A.1.1)";
	if (R(unhex128("00000000000000000000000000000100")) != unhex128("94000000000000000000000000000001")) return "kuz R (34.12 A.1.2)";
	if (L(unhex128("64a59400000000000000000000000000")) != unhex128("d456584dd0e3e84cc3166e4b7fa2890d")) return "kuz L (34.12 A.1.3)";
	std::vector<u128> b{unhex128("1122334455667700ffeeddccbbaa9988"),unhex128("00112233445566778899aabbcceeff0a"),unhex128("112233445566778899aabbcceeff0a00"),unhex128("2233445566778899aabbcceeff0a0011")};
	if (hi64(kuz_mac(q, b, 16)) != 0x336f4d296059fbe3ull) return "kuz mac (34.13 A.1.6)";
	if ((b[0] ^ q.enc(ctr_block(0x1234567890abcef0ull, 0))) != unhex128("f195d8bec10ed1dbd57b5fa240bda1b8")) return "kuz ctr (34.13 A.1.2)";
	const auto kk = Kuz::key_for(q.rk[8], q.rk[9], 4);
	if (kk.first != k1 || kk.second != k2) return "kuz key inversion";
	for (int i = 0; i < 64; i++) { const u128 v = u128(1) << (2 * i); if (Li(L(v)) != v) return "kuz L inverse"; }
	return nullptr;
}

}  // namespace ref
