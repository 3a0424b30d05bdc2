// C01: 64-bit block encryption conforms to the standard, through every one-block entry point.
#include "expr.hpp"
#include "main.hpp"
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkRaw.h>
#include <goost/magma/BlkString.h>
#include <goost/magma/BlkXored.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/EncryptionBase.h>

using namespace mg;

static shared_ptr<const gm::Block> block_of(mon::Rng &r, u64 v) {
	switch (r.below(6)) {
	case 0: return make_shared<gm::BlkRaw>(u32(v), u32(v >> 32));
	case 1: return make_shared<gm::BlkString>(mon::hex(v));
	case 2: { const u64 t = r.u(); return make_shared<gm::BlkXored>(make_shared<gm::BlkRaw>(t), make_shared<OwnBlock>(v ^ t)); }
	case 3: return make_shared<OwnBlock>(v);
	default: return make_shared<gm::BlkRaw>(v);
	}
}
static void one(mon::Rng &r, const Cipher &c, u64 v) {
	const u64 want = c.ref.enc(v);
	const u64 a = val(gm::BlkEncrypted(block_of(r, v), c.key).value());
	MON_REQUIRE(a == want, "block-encrypt", c.what << " block " << mon::hex(v) << ": encrypted block gives " << mon::hex(a) << ", standard " << mon::hex(want));
	const u64 b = gm::EncryptionBase(c.key).transform(v);
	MON_REQUIRE(b == want, "word-encrypt", c.what << " block " << mon::hex(v) << ": one-block transform gives " << mon::hex(b) << ", standard " << mon::hex(want));
	Bytes in; put64(in, v);
	Bytes out = recorded(gm::ECBSink(make_shared<RecSink>(), c.key).write(tob(in))->finalize());
	Bytes w; put64(w, want);
	MON_REQUIRE(out == w, "ecb-encrypt", c.what << " block " << mon::hex(v) << ": one-block ECB gives " << mon::hexb(out.data(), out.size()));
	mon::event("blocks compared (3 entry points each)");
	mon::seen(mon::hash_bytes(&v, 8, mon::hash_str(c.what)));
}
static void checks() {
	mon::group("library blocks", mon::count(60), [](mon::Rng &r, long) { ex::magma_pool(r, {ex::M_ENC}, 40); });
	mon::group("random", mon::count(6000), [](mon::Rng &r, long i) {
		const auto c = cipher(r);
		for (int j = 0; j < 6; j++) one(r, c, gen::word(r));
		if (i < 2) mon::sample(c.what);
	});
	// Intermediate states: the state just before a chosen round has chosen halves, or the sum
	// with the round key is a chosen value (0, all ones, carries at every byte).
	mon::group("crafted", mon::count(6000), [](mon::Rng &r, long) {
		const auto c = cipher(r);
		for (int j = 0; j < 6; j++) {
			const int n = int(r.below(33));
			Magma::S s{gen::word32(r), gen::word32(r)};
			if (n < 32 && r.chance(1, 2)) s.lo = gen::word32(r) - c.ref.k[Magma::kidx(n)];
			if (r.chance(1, 8)) s.hi = s.lo;
			one(r, c, c.ref.block_for_state(s, n));
			mon::event("crafted intermediate states");
		}
	});
	// Every table entry of every row: a word with chosen nibble at chosen round
	mon::group("rows", mon::count(128 * 4), [](mon::Rng &r, long i) {
		auto c = cipher(r);
		const int row = int(i % 8), n = int(i / 8 % 16);
		const int rd = int(r.below(32));
		const u32 sum = (u32(r.u()) & ~(15u << (4 * row))) | (u32(n) << (4 * row));
		one(r, c, c.ref.block_for_state({u32(r.u()), sum - c.ref.k[Magma::kidx(rd)]}, rd));
		mon::event("table entries driven");
	});
	// One bit of the key, or of the block, at a time
	mon::group("bits", mon::count(320), [](mon::Rng &r, long i) {
		Cipher c;
		c.ref.rows = rows3412();
		for (auto &w : c.ref.k) w = r.chance(1, 2) ? 0u : u32(r.u());
		if (i < 256) c.ref.k[i / 32] ^= 1u << (i % 32);
		c.key = make_shared<gm::LazyKey>(gen::key_text(c.ref.k));
		c.what = "text key " + gen::key_text(c.ref.k);
		one(r, c, 0);
		one(r, c, 1ull << (i % 64));
		one(r, c, ~(1ull << (i % 64)));
	});
	// Long use of one key object
	mon::group("many-blocks", mon::count(24), [](mon::Rng &r, long) {
		const auto c = cipher(r);
		u64 v = gen::word(r);
		for (int j = 0; j < 3000; j++) { one(r, c, v); v = r.chance(1, 50) ? gen::word(r) : c.ref.enc(v); }
	});
}
