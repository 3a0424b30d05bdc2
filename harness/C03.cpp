// C03: Kuznyechik conforms to GOST R 34.12-2015: cipher, key schedule and component transformations.
#include "expr.hpp"
#include "main.hpp"
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/BlkIterKey.h>
#include <goost/kuznyechik/BlkL.h>
#include <goost/kuznyechik/BlkR.h>
#include <goost/kuznyechik/BlkRaw.h>
#include <goost/kuznyechik/BlkS.h>
#include <goost/kuznyechik/BlkString.h>

using namespace kz;

static shared_ptr<const gk::Block> block_of(mon::Rng &r, u128 v) {
	switch (r.below(4)) {
	case 0: return make_shared<gk::BlkString>(hex128(v));
	case 1: return make_shared<OwnBlock>(v);
	default: return make_shared<gk::BlkRaw>(lo64(v), hi64(v));
	}
}
static void one(mon::Rng &r, const Cipher &c, u128 v) {
	const u128 want = c.ref.enc(v);
	const u128 a = val(gk::BlkEncrypted(block_of(r, v), c.key).value());
	MON_REQUIRE(a == want, "encrypt", c.what << " block " << hex128(v) << ": gives " << hex128(a) << ", standard " << hex128(want));
	const u128 b = val(c.key->encrypt(block_of(r, v))->value());
	MON_REQUIRE(b == want, "key-encrypt", c.what << " block " << hex128(v) << ": key gives " << hex128(b) << ", standard " << hex128(want));
	mon::event("blocks compared (2 entry points each)");
	mon::seen(mon::hash_bytes(&v, 16, mon::hash_str(c.what)));
}
static void comp(u128 v) {
	const auto b = make_shared<OwnBlock>(v);
	u128 x = val(gk::BlkS(b).value());
	MON_REQUIRE(x == S(v), "S", "S(" << hex128(v) << ") = " << hex128(x) << ", standard " << hex128(S(v)));
	x = val(gk::BlkR(b).value());
	MON_REQUIRE(x == R(v), "R", "R(" << hex128(v) << ") = " << hex128(x) << ", standard " << hex128(R(v)));
	x = val(gk::BlkL(b).value());
	MON_REQUIRE(x == L(v), "L", "L(" << hex128(v) << ") = " << hex128(x) << ", standard " << hex128(L(v)));
	mon::event("component inputs (S, R, L)");
	mon::seen(mon::hash_bytes(&v, 16));
}
static void checks() {
	mon::group("library blocks", mon::count(40), [](mon::Rng &r, long) { ex::kuz_pool(r, {ex::K_ENC, ex::K_KEYENC, ex::K_S, ex::K_R, ex::K_L, ex::K_ITER}, 24); });
	mon::group("random", mon::count(1200), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		for (int j = 0; j < 5; j++) one(r, c, gen::wide(r));
		if (i < 2) mon::sample(c.what);
	});
	mon::group("crafted", mon::count(1200), [](mon::Rng &r, long) {
		const auto c = cipher(r);
		for (int j = 0; j < 5; j++) {
			const int n = int(r.below(10));
			u128 s = gen::wide(r);
			switch (r.below(4)) {
			case 0: if (n < 9) s ^= c.ref.rk[n]; break;              // state after adding the round key
			case 1: if (n < 9) s = Si(s) ^ c.ref.rk[n]; break;       // state after S
			case 2: if (n < 9) { u128 t = s; for (int k = int(r.below(17)); k > 0; k--) t = Ri(t); s = Si(t) ^ c.ref.rk[n]; } break;  // state within L
			default: break;
			}
			one(r, c, c.ref.block_for_state(s, n));
			mon::event("crafted intermediate states");
		}
	});
	mon::group("bytes", 4096, [](mon::Rng &r, long i) {
		// every byte value at every position, alone and among random bytes
		const int pos = int(i % 16), v = int(i / 16);
		comp(u128(unsigned(v)) << (8 * pos));
		const u128 m = mk128(r.u(), r.u());
		comp((m & ~(u128(0xff) << (8 * pos))) | (u128(unsigned(v)) << (8 * pos)));
		mon::event("byte position/value pairs");
	});
	mon::group("wide", mon::count(4000), [](mon::Rng &r, long) { comp(gen::wide(r)); });
	mon::group("iterkey", mon::count(600), [](mon::Rng &r, long) {
		const u128 a = gen::wide(r), b = gen::wide(r);
		const int c1 = int(r.range(1, 32)), n = int(r.range(1, 8));
		u128 x = a, y = b;
		for (int j = c1; j < c1 + n; j++) { const u128 t = LSX(Cn(j), x) ^ y; y = x; x = t; }
		const u128 g = val(gk::BlkIterKey(make_shared<OwnBlock>(a), make_shared<OwnBlock>(b), c1, c1 + n - 1).value());
		MON_REQUIRE(g == x, "iterkey", "iteration " << c1 << ".." << c1 + n - 1 << " over " << hex128(a) << "," << hex128(b) << " gives " << hex128(g) << ", standard " << hex128(x));
		mon::event("key-schedule segments");
	});
	mon::group("bits", mon::count(256), [](mon::Rng &r, long i) {
		gen::KKey k{0, 0};
		if (i % 2) k = {mk128(r.u(), r.u()), mk128(r.u(), r.u())};
		(i < 128 ? k.k1 : k.k2) ^= u128(1) << (i % 128);
		const Cipher c{k, Kuz(k.k1, k.k2), make_shared<gk::Key>(gen::kkey_text(k)), "text " + gen::kkey_text(k)};
		one(r, c, 0);
		one(r, c, u128(1) << (i % 128));
		one(r, c, ~(u128(1) << (i % 128)));
	});
	mon::group("many-blocks", mon::count(8), [](mon::Rng &r, long) {
		const auto c = cipher(r);
		u128 v = gen::wide(r);
		for (int j = 0; j < 700; j++) { one(r, c, v); v = r.chance(1, 50) ? gen::wide(r) : c.ref.enc(v); }
	});
}
