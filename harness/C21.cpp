// C21: building blocks and block arithmetic equal integer arithmetic of the block's width.
#include "expr.hpp"
#include <sys/mman.h>
using namespace sc;

// Memory whose bytes after the block are unreadable, at any alignment
struct Edge {
	u8 *base; size_t page;
	Edge() : base(nullptr), page(size_t(sysconf(_SC_PAGESIZE))) {
		base = static_cast<u8 *>(mmap(nullptr, 2 * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
		if (base == MAP_FAILED || mprotect(base + page, page, PROT_NONE) != 0) mon::fail("harness:mmap", "cannot map memory");
	}
	~Edge() { munmap(base, 2 * page); }
	u8 *end() { return base + page; }
};
static Edge &edge() { static Edge e; return e; }
static void eq(u64 got, u64 want, const std::string &what) {
	mon::event("values compared"); mon::event("64-bit: " + what.substr(0, what.find(' ')));
	MON_REQUIRE(got == want, what.substr(0, what.find(' ')), "64-bit " << what << " gives " << mon::hex(got) << " expected " << mon::hex(want));
}
static void eq(u128 got, u128 want, const std::string &what) {
	mon::event("values compared"); mon::event("128-bit: " + what.substr(0, what.find(' ')));
	MON_REQUIRE(got == want, "wide " + what.substr(0, what.find(' ')), "128-bit " << what << " gives " << hex128(got) << " expected " << hex128(want));
}
using MB = shared_ptr<const gm::Block>;
using KB = shared_ptr<const gk::Block>;
template <class B> static u64 mv(const B &b) { return mg::val(b.value()); }
template <class B> static u128 kv(const B &b) { return kz::val(b.value()); }

static std::string num_text(mon::Rng &r, std::string s, size_t keep_min) {
	// drop some or all leading zeros
	size_t z = 0;
	while (z < s.size() - keep_min && s[z] == '0') z++;
	s = s.substr(r.below(z + 1));
	return gen::mixed_case(r, s);
}
struct MNode { MB b; u64 v; std::string what; };
struct KNode { KB b; u128 v; std::string what; };

static MNode mtree(mon::Rng &r, int depth) {
	const u64 v = gen::word(r);
	if (depth == 0) {
		switch (r.below(4)) {
		case 0: return {make_shared<gm::BlkRaw>(v), v, mon::hex(v)};
		case 1: return {make_shared<gm::BlkString>(mon::hex(v)), v, mon::hex(v)};
		case 2: return {make_shared<gm::BlkRaw>(u32(v), u32(v >> 32)), v, mon::hex(v)};
		default: return {make_shared<OwnBlock>(v), v, mon::hex(v)};
		}
	}
	const auto a = mtree(r, depth - 1);
	switch (r.below(4)) {
	case 0: { const int n = int(r.below(64)); return {make_shared<gm::BlkShifted>(a.b, n), a.v << n, "(" + a.what + "<<" + std::to_string(n) + ")"}; }
	case 1: return {make_shared<gm::BlkSwapped>(a.b), a.v << 32 | a.v >> 32, "swap" + a.what};
	case 2: { const auto b = mtree(r, depth - 1); return {make_shared<gm::BlkXored>(a.b, b.b), a.v ^ b.v, "(" + a.what + "^" + b.what + ")"}; }
	default: return {make_shared<gm::BlkRaw>(a.b), a.v, a.what};
	}
}
static KNode ktree(mon::Rng &r, int depth) {
	const u128 v = gen::wide(r);
	if (depth == 0) {
		switch (r.below(4)) {
		case 0: return {make_shared<gk::BlkRaw>(lo64(v), hi64(v)), v, hex128(v)};
		case 1: return {make_shared<gk::BlkString>(hex128(v)), v, hex128(v)};
		case 2: return {make_shared<gk::BlkRaw>(lo64(v)), lo64(v), hex128(lo64(v))};
		default: return {make_shared<kz::OwnBlock>(v), v, hex128(v)};
		}
	}
	const auto a = ktree(r, depth - 1);
	switch (r.below(5)) {
	case 0: { const int n = int(r.below(128)); return {make_shared<gk::BlkShifted>(a.b, n), a.v << n, "(" + a.what + "<<" + std::to_string(n) + ")"}; }
	case 1: return {make_shared<gk::BlkIncremented>(a.b), a.v + 1, "(" + a.what + "+1)"};
	case 2: { const auto b = ktree(r, depth - 1); return {make_shared<gk::BlkXored>(a.b, b.b), a.v ^ b.v, "(" + a.what + "^" + b.what + ")"}; }
	case 3: return {make_shared<gk::BlkCached>(a.b), a.v, a.what};
	default: return {make_shared<gk::BlkRaw>(a.b), a.v, a.what};
	}
}
static void checks() {
	mon::group("library blocks", mon::count(20), [](mon::Rng &r, long) {
		ex::magma_pool(r, {ex::M_XOR, ex::M_SHIFT, ex::M_SWAP, ex::M_COPY}, 40);
		ex::kuz_pool(r, {ex::K_XOR, ex::K_SHIFT, ex::K_INC, ex::K_COPY}, 24);
	});
	mon::group("build 64", mon::count(20000), [](mon::Rng &r, long) {
		const u64 v = gen::word(r);
		mon::seen(v);
		const auto t = mon::hex(v);
		eq(mv(gm::BlkRaw(u32(v), u32(v >> 32))), v, "halves " + t);
		eq(mv(gm::BlkRaw(mg::Pair(u32(v), u32(v >> 32)))), v, "pair " + t);
		eq(mv(gm::BlkRaw(u64(v))), v, "word " + t);
		eq(mv(gm::BlkRaw()), u64(0), "default");
		eq(mv(gm::BlkRaw(MB(make_shared<OwnBlock>(v)))), v, "block " + t);
		Bytes b;
		put64(b, v);
		for (size_t i = 0, x = r.below(3) ? 0 : r.below(20); i < x; i++) b.push_back(u8(r.u()));
		eq(mv(gm::BlkRaw(b)), v, "bytes " + t + " of a vector of " + std::to_string(b.size()));
		for (size_t o = 0; o < 8; o++) {
			// as high as it can be at every alignment; the byte past the last one is unreadable at o = 0
			u8 *p = edge().end() - 8 - o;
			memcpy(p, b.data(), 8);
			if (o) memset(p + 8, int(r.below(256)), o);
			eq(mv(gm::BlkRaw(static_cast<const void *>(p))), v, "memory " + t + " at alignment -" + std::to_string(o));
		}
		const auto s = num_text(r, t, 1);
		eq(mv(gm::BlkString(s)), v, "text " + s);
		eq(mv(gm::BlkString(gen::mixed_case(r, t))), v, "text " + t);
		eq(mv(gm::BlkSwapped(make_shared<gm::BlkRaw>(v))), v << 32 | v >> 32, "swap " + t);
		eq(mv(gm::BlkSwapped(make_shared<gm::BlkSwapped>(make_shared<gm::BlkRaw>(v)))), v, "swap twice " + t);
		const gm::BlkRaw copy = gm::BlkRaw(v);
		eq(mv(copy), v, "copy " + t);
	});
	mon::group("build 128", mon::count(20000), [](mon::Rng &r, long) {
		const u128 v = gen::wide(r);
		mon::seen(lo64(v) ^ mon::mix64(hi64(v)));
		const auto t = hex128(v);
		eq(kv(gk::BlkRaw(lo64(v), hi64(v))), v, "halves " + t);
		eq(kv(gk::BlkRaw(kz::pr(v))), v, "pair " + t);
		eq(kv(gk::BlkRaw(lo64(v))), u128(lo64(v)), "word " + t);
		eq(kv(gk::BlkRaw()), u128(0), "default");
		eq(kv(gk::BlkRaw(KB(make_shared<kz::OwnBlock>(v)))), v, "block " + t);
		const auto b = b128(v);
		for (size_t o = 0; o < 16; o++) {
			u8 *p = edge().end() - 16 - o;
			memcpy(p, b.data(), 16);
			if (o) memset(p + 16, int(r.below(256)), o);
			eq(kv(gk::BlkRaw(static_cast<const void *>(p))), v, "memory " + t + " at alignment -" + std::to_string(o));
		}
		const auto s = num_text(r, t, 1);
		eq(kv(gk::BlkString(s)), v, "text " + s);
		eq(kv(gk::BlkString(gen::mixed_case(r, t))), v, "text " + t);
		eq(kv(gk::BlkIncremented(make_shared<gk::BlkRaw>(lo64(v), hi64(v)))), v + 1, "increment " + t);
		eq(kv(gk::BlkCached(make_shared<kz::OwnBlock>(v))), v, "cached " + t);
	});
	// Every length of text, every leading digit
	mon::group("text lengths", 32 * 16, [](mon::Rng &r, long i) {
		const size_t n = size_t(i / 16) + 1;
		std::string s(1, "0123456789abcdef"[i % 16]);
		while (s.size() < n) s += "0123456789abcdef"[r.below(16)];
		u128 v = 0;
		for (const char c : s) v = v << 4 | u128(unsigned(c <= '9' ? c - '0' : c - 'a' + 10));
		s = gen::mixed_case(r, s);
		eq(kv(gk::BlkString(s)), v, "text " + s);
		if (n <= 16) eq(mv(gm::BlkString(s)), u64(v), "text " + s);
		mon::seen(mon::hash_str(s));
	});
	// Every shift amount on every single-bit and boundary word
	mon::group("shift 64", 64, [](mon::Rng &r, long n) {
		for (int b = 0; b < 64; b++) for (const u64 v : {u64(1) << b, ~(u64(1) << b), (u64(1) << b) - 1, gen::word(r), r.u()})
			eq(mv(gm::BlkShifted(make_shared<gm::BlkRaw>(v), int(n))), v << n, "shift " + mon::hex(v) + " by " + std::to_string(n));
		mon::seen(u64(n));
	});
	mon::group("shift 128", 128, [](mon::Rng &r, long n) {
		for (int b = 0; b < 128; b++) for (const u128 v : {u128(1) << b, ~(u128(1) << b), (u128(1) << b) - 1, gen::wide(r), mk128(r.u(), r.u())})
			eq(kv(gk::BlkShifted(make_shared<kz::OwnBlock>(v), int(n))), v << n, "shift " + hex128(v) + " by " + std::to_string(n));
		mon::seen(u64(n) + 1000);
	});
	mon::group("increment", 128, [](mon::Rng &r, long b) {
		for (const u128 v : {u128(1) << b, (u128(1) << b) - 1, ~((u128(1) << b) - 1), ~(u128(1) << b), (gen::wide(r) << b) | ((u128(1) << b) - 1), ~u128(0)}) {
			eq(kv(gk::BlkIncremented(make_shared<kz::OwnBlock>(v))), v + 1, "increment " + hex128(v));
			KB k = make_shared<kz::OwnBlock>(v);
			const size_t n = r.below(600);
			for (size_t i = 0; i < n; i++) k = make_shared<gk::BlkIncremented>(make_shared<gk::BlkRaw>(make_shared<gk::BlkIncremented>(k)));
			eq(kv(*k), v + 2 * n, "increment " + hex128(v) + " " + std::to_string(2 * n) + " times");
		}
		mon::seen(u64(b) + 2000);
	});
	mon::group("xor", mon::count(8000), [](mon::Rng &r, long) {
		vector<u64> v(8);
		vector<MB> b;
		for (auto &x : v) { x = gen::word(r); b.push_back(r.chance(1, 2) ? MB(make_shared<gm::BlkRaw>(x)) : MB(make_shared<OwnBlock>(x))); }
		if (r.chance(1, 8)) { v[1] = v[0]; b[1] = b[0]; }
		const auto t = mon::hex(v[0]) + " ^ " + mon::hex(v[1]) + " ..";
		eq(mv(gm::BlkXored(b[0], b[1])), v[0] ^ v[1], "xor of 2 " + t);
		eq(mv(gm::BlkXored(b[0], b[1], b[2])), v[0] ^ v[1] ^ v[2], "xor of 3 " + t);
		eq(mv(gm::BlkXored(b[0], b[1], b[2], b[3])), v[0] ^ v[1] ^ v[2] ^ v[3], "xor of 4 " + t);
		eq(mv(gm::BlkXored(b[0], b[1], b[2], b[3], b[4])), v[0] ^ v[1] ^ v[2] ^ v[3] ^ v[4], "xor of 5 " + t);
		eq(mv(gm::BlkXored(b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7])), v[0] ^ v[1] ^ v[2] ^ v[3] ^ v[4] ^ v[5] ^ v[6] ^ v[7], "xor of 8 " + t);
		vector<u128> w(8);
		vector<KB> k;
		for (auto &x : w) { x = gen::wide(r); k.push_back(r.chance(1, 2) ? KB(make_shared<gk::BlkRaw>(lo64(x), hi64(x))) : KB(make_shared<kz::OwnBlock>(x))); }
		if (r.chance(1, 8)) { w[1] = w[0]; k[1] = k[0]; }
		const auto q = hex128(w[0]) + " ^ " + hex128(w[1]) + " ..";
		eq(kv(gk::BlkXored(k[0], k[1])), w[0] ^ w[1], "xor of 2 " + q);
		eq(kv(gk::BlkXored(k[0], k[1], k[2])), w[0] ^ w[1] ^ w[2], "xor of 3 " + q);
		eq(kv(gk::BlkXored(k[0], k[1], k[2], k[3])), w[0] ^ w[1] ^ w[2] ^ w[3], "xor of 4 " + q);
		eq(kv(gk::BlkXored(k[0], k[1], k[2], k[3], k[4])), w[0] ^ w[1] ^ w[2] ^ w[3] ^ w[4], "xor of 5 " + q);
		eq(kv(gk::BlkXored(k[0], k[1], k[2], k[3], k[4], k[5], k[6], k[7])), w[0] ^ w[1] ^ w[2] ^ w[3] ^ w[4] ^ w[5] ^ w[6] ^ w[7], "xor of 8 " + q);
		mon::seen(v[0] ^ v[1]);
	});
	mon::group("expressions", mon::count(10000), [](mon::Rng &r, long) {
		const auto a = mtree(r, int(r.below(5)));
		eq(mv(*a.b), a.v, "expression " + a.what);
		const auto b = ktree(r, int(r.below(5)));
		eq(kv(*b.b), b.v, "expression " + b.what);
		mon::seen(mon::hash_str(a.what)); mon::seen(mon::hash_str(b.what));
		if (a.what.size() < 90) mon::sample(a.what + " = " + mon::hex(a.v));
	});
}
#include "main.hpp"
