// C18: key material is derived once, stays what it was, and failures are not kept.
#include "scene.hpp"
#include "main.hpp"
#include <mutex>
#include <sched.h>
#include <thread>

using namespace sc;

// What the collaborators below record, shared between them and the monitor.
struct Log {
	std::atomic<int> ok[8], failed{0}, inside{0}, overlap{0};
	std::atomic<int> fail_first{0};          // fail that many first attempts
	std::atomic<u32> version{0};             // added to the value: the underlying value changes
	std::atomic<int> spin{0};
	std::atomic<u32> given[8];               // the value last handed out
	explicit Log(u64 salt) : salt(salt) { for (auto &x : ok) x = 0; for (auto &x : given) x = 0; }
	void fail() { hk::fail(int(mon::mix64(u64(failed) + salt) % hk::fault_kinds), 0); }
	const u64 salt;
	void enter() const { for (int i = spin; i > 0; i--) sched_yield(); }
	bool fails() { int f = fail_first; while (f > 0 && !fail_first.compare_exchange_weak(f, f - 1)) {} if (f > 0) failed++; return f > 0; }
};
class CountKeyData final : public gm::KeyData {
	const std::array<u32, 8> k; const shared_ptr<Log> log; const int fail_index;
public:
	CountKeyData(const std::array<u32, 8> &k, shared_ptr<Log> l, int fi) : k(k), log(std::move(l)), fail_index(fi) {}
	uint32_t key(int i) const override {
		log->enter();
		if ((fail_index < 0 || i == fail_index) && log->fails()) log->fail();
		log->ok[i]++;
		return log->given[i] = k.at(size_t(i)) + log->version;
	}
};
class CountBlock final : public gk::Block {
	const u128 v; const shared_ptr<Log> log; const int slot;
public:
	CountBlock(u128 v, shared_ptr<Log> l, int slot) : v(v), log(std::move(l)), slot(slot) {}
	kz::Pair value() const override {
		log->enter();
		if (log->fails()) log->fail();
		log->ok[slot]++;
		return kz::pr(v + log->version);
	}
};
class CountData final : public gk::Key::Data {
	const u128 k1, k2; const shared_ptr<Log> log;
public:
	CountData(u128 a, u128 b, shared_ptr<Log> l) : k1(a), k2(b), log(std::move(l)) {}
	shared_ptr<const gk::Block> low() const override { return make_shared<CountBlock>(k2, log, 1); }
	shared_ptr<const gk::Block> high() const override { return make_shared<CountBlock>(k1, log, 0); }
};
static void parallel(int n, const std::function<void(int)> &f) {
	std::atomic<int> ready{0}; std::atomic<bool> go{false};
	vector<std::thread> t;
	for (int i = 0; i < n; i++) t.emplace_back([&, i] { ready++; while (!go.load(std::memory_order_acquire)) sched_yield(); f(i); });
	while (ready.load() < n) sched_yield();
	go.store(true, std::memory_order_release);
	for (auto &x : t) x.join();
}
static void checks() {
	const bool tsan = mon::opts().mode == "tsan";
	const double f = tsan ? 0.25 : 1;
	mon::group("cached-key-data", mon::count(1500 * f), [](mon::Rng &r, long) {
		const auto k = gen::key(r);
		auto log = make_shared<Log>(r.u());
		const int fails = r.chance(1, 2) ? int(r.below(4)) : 0, fi = int(r.below(9)) - 1;
		log->fail_first = fails;
		const gm::KeyCachedData c(std::make_unique<CountKeyData>(k, log, fi));
		const auto ctx = "cached key " + gen::key_text(k);
		int threw = 0;
		u32 first[8] = {};
		bool known[8] = {};
		for (int t = 0; t < fails + 40; t++) {
			const int i = int(r.below(8));
			try {
				const u32 v = c.key(i);
				if (!known[i]) { known[i] = true; first[i] = log->given[i]; }
				MON_REQUIRE(v == first[i], "value", ctx << ": word " << i << " is " << mon::hex(v, 8) << " after " << threw << " failures, obtained was " << mon::hex(first[i], 8));
				log->version = u32(r.u());       // from now on the underlying value is another one
				if (log->fail_first == 0 && t > 2) log->fail_first = 0;
				mon::event("cached answers");
			} catch (const hk::Injected &) { threw++; MON_REQUIRE(threw <= fails, "failure-kept", ctx << ": a failure is reported again although the material is available"); mon::event("failures reported"); }
		}
		MON_REQUIRE(threw == log->failed, "failure-hidden", ctx << ": " << log->failed << " failures, " << threw << " reported");
		if (!fails) for (int i = 0; i < 8; i++) MON_REQUIRE(log->ok[i] <= 1, "asked-again", ctx << ": word " << i << " was asked for " << log->ok[i] << " times");
		log->fail_first = 0;                     // words not asked for yet are available from now on
		for (int i = 0; i < 8; i++) { const u32 v = c.key(i); if (!known[i]) { known[i] = true; first[i] = log->given[i]; } MON_REQUIRE(v == first[i], "value", ctx << ": word " << i << " is " << mon::hex(v, 8)); }
		// unchanged material after success must never be asked again, not even when it would fail
		log->fail_first = 1000000;
		int before[8];
		for (int i = 0; i < 8; i++) before[i] = log->ok[i];
		for (int i = 0; i < 8; i++) { u32 v = 0; bool t2 = false; try { v = c.key(i); } catch (const hk::Injected &) { t2 = true; } MON_REQUIRE(!t2 && v == first[i], "asked-again", ctx << ": word " << i << " was asked for again after it was obtained"); }
		for (int i = 0; i < 8; i++) MON_REQUIRE(before[i] == log->ok[i], "asked-again", ctx << ": word " << i << " was asked for again");
		mon::seen(mon::hash_str(ctx));
	});
	mon::group("lazy-key", mon::count(600 * f), [](mon::Rng &r, long) {
		Magma m;
		m.k = gen::key(r); m.rows = gen::rows(r);
		auto log = make_shared<Log>(r.u());
		const int fails = int(r.below(3));
		log->fail_first = fails;
		const auto key = make_shared<gm::LazyKey>(std::make_unique<gm::KeyCachedData>(std::make_unique<CountKeyData>(m.k, log, -1)), sbox(m.rows, int(r.below(4))));
		int threw = 0;
		for (int t = 0; t < fails + 6; t++) {
			const u64 v = gen::word(r);
			try {
				MON_REQUIRE(val(gm::BlkEncrypted(make_shared<gm::BlkRaw>(v), key).value()) == m.enc(v), "value", "key " << gen::key_text(m.k) << " changed after " << t << " uses, " << threw << " failures");
				log->version = u32(r.u());
				mon::event("cached answers");
			} catch (const hk::Injected &) { threw++; mon::event("failures reported"); }
		}
		MON_REQUIRE(threw == fails, "failure", fails << " failures of the key material, " << threw << " failed encryptions");
		if (!fails) for (int i = 0; i < 8; i++) MON_REQUIRE(log->ok[i] <= 1, "asked-again", "word " << i << " was asked for " << log->ok[i] << " times");
		mon::seen(mon::hash_str(gen::key_text(m.k)));
	});
	mon::group("cached-block", mon::count(1500 * f), [](mon::Rng &r, long) {
		const u128 v = gen::wide(r);
		auto log = make_shared<Log>(r.u());
		const int fails = int(r.below(4));
		log->fail_first = fails;
		const gk::BlkCached c(make_shared<CountBlock>(v, log, 0));
		int threw = 0;
		for (int t = 0; t < fails + 12; t++) {
			try {
				MON_REQUIRE(kz::val(c.value()) == v, "value", "cached block " << hex128(v) << " changed after " << t << " uses, " << threw << " failures");
				log->version = u32(1 + r.below(1000));
				mon::event("cached answers");
			} catch (const hk::Injected &) { threw++; mon::event("failures reported"); }
		}
		MON_REQUIRE(threw == fails, "failure", fails << " failures of the block, " << threw << " reported");
		MON_REQUIRE(log->ok[0] == 1, "asked-again", "the block was asked for " << log->ok[0] << " times");
		mon::seen(lo64(v) ^ hi64(v));
	});
	mon::group("wide-key", mon::count(160 * f), [](mon::Rng &r, long) {
		const auto kk = gen::kkey(r);
		const Kuz ref(kk.k1, kk.k2);
		auto log = make_shared<Log>(r.u());
		const int fails = int(r.below(4));
		const auto key = make_shared<gk::Key>(make_shared<CountData>(kk.k1, kk.k2, log));
		log->fail_first = fails;
		int threw = 0;
		for (int t = 0; t < fails + 4; t++) {
			const u128 v = gen::wide(r);
			try {
				MON_REQUIRE(kz::val(key->encrypt(make_shared<gk::BlkRaw>(kz::pr(v)))->value()) == ref.enc(v), "value", "key " << gen::kkey_text(kk) << " changed after " << t << " uses, " << threw << " failures");
				log->version = u32(1 + r.below(1000));
				mon::event("cached answers");
			} catch (const hk::Injected &) { threw++; mon::event("failures reported"); }
		}
		MON_REQUIRE(threw == fails, "failure", fails << " failures of the key material, " << threw << " failed encryptions");
		for (int i = 0; i < 2; i++) MON_REQUIRE(log->ok[i] == 1, "asked-again", "half " << i << " of the key was asked for " << log->ok[i] << " times");
		mon::seen(mon::hash_str(gen::kkey_text(kk)));
	});
	// Used very often: still once.
	mon::group("long-use", mon::count(8, 8), [f](mon::Rng &r, long i) {
		auto log = make_shared<Log>(r.u());
		const long many = long((mon::thorough() ? 20000000 : 300000) * f), wide = long((mon::thorough() ? 70000 : 4000) * f);
		if (i % 4 == 0) {
			const auto k = gen::key(r);
			const gm::KeyCachedData c(std::make_unique<CountKeyData>(k, log, -1));
			for (int w = 0; w < 8; w++) c.key(w);
			log->version = 5;
			for (long n = 0; n < many; n++) MON_REQUIRE(c.key(int(n % 8)) == k[size_t(n % 8)], "value", "word " << n % 8 << " of " << gen::key_text(k) << " changed at use " << n);
		} else if (i % 4 == 1) {
			const u128 v = gen::wide(r);
			const gk::BlkCached c(make_shared<CountBlock>(v, log, 0));
			c.value();
			log->version = 5;
			for (long n = 0; n < many; n++) MON_REQUIRE(kz::val(c.value()) == v, "value", "cached block " << hex128(v) << " changed at use " << n);
		} else if (i % 4 == 2) {
			const auto kk = gen::kkey(r);
			const Kuz ref(kk.k1, kk.k2);
			const auto key = make_shared<gk::Key>(make_shared<CountData>(kk.k1, kk.k2, log));
			const u128 v = gen::wide(r), e = ref.enc(v);
			const auto b = make_shared<gk::BlkRaw>(kz::pr(v));
			for (long n = 0; n < wide; n++) { MON_REQUIRE(kz::val(key->encrypt(b)->value()) == e, "value", "key " << gen::kkey_text(kk) << " changed at use " << n); log->version = 5; }
		} else {
			Magma m;
			m.k = gen::key(r); m.rows = gen::rows(r);
			const gm::LazyKey key(std::make_unique<gm::KeyCachedData>(std::make_unique<CountKeyData>(m.k, log, -1)), sbox(m.rows, int(r.below(4))));
			for (int w = 0; w < 8; w++) key.transform(0, w);
			log->version = 5;
			for (long n = 0; n < many / 4; n++) MON_REQUIRE(key.transform(u32(n), int(n % 8)) == key.transform(u32(n), int(n % 8)), "value", "key " << gen::key_text(m.k) << " changed at use " << n);
		}
		for (int w = 0; w < 8; w++) MON_REQUIRE(log->ok[w] <= 1, "asked-again", "part " << w << " was asked for " << log->ok[w].load() << " times in a long use");
		mon::event("long uses"); mon::seen(r.u());
	});
	// Many threads at once: still one successful derivation, and the same value for all,
	// although the underlying value changes as soon as it was asked for.
	mon::group("threads", mon::count(1200 * f), [](mon::Rng &r, long) {
		const int n = int(2 + r.below(7));
		auto log = make_shared<Log>(r.u());
		log->spin = int(r.below(6));
		const int fails = r.chance(1, 3) ? int(1 + r.below(3)) : 0;
		std::atomic<int> wrong{0}, threw{0};
		const auto kind = r.below(3);
		if (kind == 0) {
			const auto k = gen::key(r);
			const gm::KeyCachedData c(std::make_unique<CountKeyData>(k, log, 0));
			log->fail_first = fails;
			parallel(n, [&](int t) { for (int q = 0; q < 8; q++) { const int i = (q + t) % 8; try { if (c.key(i) != k[size_t(i)]) wrong++; } catch (const hk::Injected &) { threw++; } } });
			for (int i = 0; i < 8; i++) if (!fails && log->ok[i] > 1) mon::fail("asked-again", mon::Msg() << n << " threads: word " << i << " was asked for " << log->ok[i] << " times");
		} else if (kind == 1) {
			const u128 v = gen::wide(r);
			const gk::BlkCached c(make_shared<CountBlock>(v, log, 0));
			log->fail_first = fails;
			parallel(n, [&](int) { for (int q = 0; q < 4; q++) { try { if (kz::val(c.value()) != v) wrong++; } catch (const hk::Injected &) { threw++; } } });
			MON_REQUIRE(log->ok[0] <= 1, "asked-again", n << " threads: the block was asked for " << log->ok[0] << " times");
		} else {
			const auto kk = gen::kkey(r);
			const Kuz ref(kk.k1, kk.k2);
			const auto key = make_shared<gk::Key>(make_shared<CountData>(kk.k1, kk.k2, log));
			log->fail_first = fails;
			parallel(n, [&](int t) { const u128 v = u128(unsigned(t)) * 77; const u128 w = ref.enc(v); for (int q = 0; q < 2; q++) { try { if (kz::val(key->encrypt(make_shared<gk::BlkRaw>(kz::pr(v)))->value()) != w) wrong++; } catch (const hk::Injected &) { threw++; } } });
			for (int i = 0; i < 2; i++) MON_REQUIRE(log->ok[i] <= 1, "asked-again", n << " threads: half " << i << " of the key was asked for " << log->ok[i] << " times");
		}
		MON_REQUIRE(wrong == 0, "value", n << " threads: " << wrong.load() << " wrong answers");
		MON_REQUIRE(threw == log->failed, "failure", n << " threads: " << log->failed.load() << " failures, " << threw.load() << " reported");
		mon::event("concurrent derivations"); mon::event("failures reported", u64(threw));
		mon::seen(r.u());
	});
}
