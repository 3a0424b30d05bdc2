// C02: 64-bit block decryption is the exact inverse of encryption.
#include "expr.hpp"
#include "main.hpp"
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkRaw.h>

using namespace mg;

static void one(const Cipher &c, u64 v) {
	const auto raw = make_shared<OwnBlock>(v);
	const u64 d = val(gm::BlkDecrypted(raw, c.key).value());
	const u64 want = c.ref.dec(v);
	MON_REQUIRE(d == want, "decrypt", c.what << " block " << mon::hex(v) << " decrypts to " << mon::hex(d) << ", standard " << mon::hex(want));
	const u64 de = val(gm::BlkDecrypted(make_shared<gm::BlkEncrypted>(raw, c.key), c.key).value());
	MON_REQUIRE(de == v, "decrypt-of-encrypt", c.what << " block " << mon::hex(v) << " comes back as " << mon::hex(de));
	const u64 ed = val(gm::BlkEncrypted(make_shared<gm::BlkDecrypted>(raw, c.key), c.key).value());
	MON_REQUIRE(ed == v, "encrypt-of-decrypt", c.what << " block " << mon::hex(v) << " comes back as " << mon::hex(ed));
	const u64 st = val(gm::BlkDecrypted(make_shared<gm::BlkRaw>(gm::BlkEncrypted(raw, c.key).value()), c.key).value());
	MON_REQUIRE(st == v, "decrypt-stored", c.what << " block " << mon::hex(v) << " stored and decrypted as " << mon::hex(st));
	mon::event("blocks inverted (both directions)");
	mon::seen(mon::hash_bytes(&v, 8, mon::hash_str(c.what)));
}
static void checks() {
	mon::group("library blocks", mon::count(60), [](mon::Rng &r, long) { ex::magma_pool(r, {ex::M_DEC, ex::M_ENC, ex::M_DEC}, 40); });
	// The two inverses of each other under keys that are kin: what one key encrypted, another decrypts and encrypts again
	mon::group("other keys", mon::count(1500), [](mon::Rng &r, long) {
		const auto a = cipher(r), b = kin(r, a);
		const u64 v = gen::word(r);
		const auto e = make_shared<gm::BlkEncrypted>(make_shared<gm::BlkRaw>(v), a.key);
		const u64 c = val(e->value());
		const auto d = make_shared<gm::BlkDecrypted>(e, b.key);
		const u64 p = val(d->value());
		const std::string what = mon::Msg() << a.what << ", then " << b.what << ", block " << mon::hex(v);
		MON_REQUIRE(val(gm::BlkEncrypted(make_shared<gm::BlkRaw>(p), b.key).value()) == c && val(gm::BlkEncrypted(d, b.key).value()) == c, "other-decrypt", what << ": encrypting the decryption does not give the block back");
		const auto d2 = make_shared<gm::BlkDecrypted>(make_shared<gm::BlkRaw>(v), a.key);
		const auto e2 = make_shared<gm::BlkEncrypted>(d2, b.key);
		MON_REQUIRE(val(gm::BlkDecrypted(make_shared<gm::BlkRaw>(e2->value()), b.key).value()) == val(d2->value()) && val(gm::BlkDecrypted(e2, b.key).value()) == val(d2->value()), "other-encrypt", what << ": decrypting the encryption does not give the block back");
		mon::event("inversions under kin keys");
		mon::seen(mon::hash_str(b.what) ^ v);
	});
	mon::group("random", mon::count(5000), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		for (int j = 0; j < 6; j++) one(c, gen::word(r));
		if (i < 2) mon::sample(c.what);
	});
	mon::group("crafted", mon::count(5000), [](mon::Rng &r, long) {
		const auto c = cipher(r);
		for (int j = 0; j < 6; j++) {
			const int n = int(r.below(33));
			Magma::S s{gen::word32(r), gen::word32(r)};
			if (n < 32 && r.chance(1, 2)) s.lo = gen::word32(r) - c.ref.k[Magma::kidx(n)];
			if (n > 0 && r.chance(1, 3)) s.hi = gen::word32(r) - c.ref.k[Magma::kidx(n - 1)];
			const u64 p = c.ref.block_for_state(s, n);
			one(c, r.chance(1, 2) ? c.ref.enc(p) : p);
			mon::event("crafted intermediate states");
		}
	});
	mon::group("deep", mon::count(300), [](mon::Rng &r, long) {
		// Several layers of encryption under different keys peeled off again
		std::vector<Cipher> cs;
		for (int i = 0; i < 5; i++) cs.push_back(cipher(r));
		const u64 v = gen::word(r);
		shared_ptr<const gm::Block> b = make_shared<OwnBlock>(v);
		for (auto &c : cs) b = make_shared<gm::BlkEncrypted>(b, c.key);
		for (auto it = cs.rbegin(); it != cs.rend(); ++it) b = make_shared<gm::BlkDecrypted>(b, it->key);
		MON_REQUIRE(val(b->value()) == v, "layers", "five layers over " << mon::hex(v) << " give " << mon::hex(val(b->value())));
		mon::event("layered inversions");
	});
}
