// C16: a failure of a collaborator or of memory leaves every object as it was.
// Fault points are enumerated: the n-th call of any caller-supplied part, and the n-th allocation.
#include "scene.hpp"
#include "main.hpp"

#include <locale>
using namespace sc;

static long calls = 0, fail_at = -1;
static int hit_point = -1;
static bool sticky = false;
static int how = 0;                      // the kind of exception
static bool fired = false;
static void counter(int p) {
	const long n = calls++;
	if (fail_at >= 0 && (n == fail_at || (sticky && n > fail_at))) {
		if (!fired) hit_point = p;
		fired = true;
		hk::fail(how, fail_at);
	}
}
static void arm_calls(long n) { calls = 0; fail_at = n; fired = false; hit_point = -1; hk::hook = counter; }
static void disarm_calls() { hk::hook = nullptr; fail_at = -1; }

// A scene and a map from operation name to where it is
static bool large = false;
static Scene make(u64 seed) { mon::Rng q(seed); return large ? scene(q, 6000, 24) : scene(q, 26, 2); }

static std::map<std::string, u64> tally;   // flushed to events outside of the balance measurement

static long one(u64 seed, size_t op, int kind, long k, mon::Rng &r) {
	const long live = alloc::live_count;
	int verdict = 0;                 // 0 fine, else see below
	Bytes got;
	const char *what = "";
	int point = -1;
	bool alloc_fired = false;
	{
		const Scene s = make(seed);
		const Op &o = s[op];
		const size_t other = r.below(s.size());
		try {
			if (kind == 0) arm_calls(k); else alloc::arm(k, sticky);
			Bytes res = o.run();
			alloc::disarm(); disarm_calls();
			if (kind == 0) { if (fired) verdict = 1; }
			else if (alloc::fired) verdict = 1;
		} catch (const Injected &b) {
			alloc::disarm(); disarm_calls();
			if (kind != 0 || b.n != k) verdict = 2;
		} catch (const std::bad_alloc &) {
			alloc::disarm(); disarm_calls();
			if (kind != 1) verdict = 2;
		} catch (...) {
			alloc::disarm(); disarm_calls();
			verdict = 2;
		}
		point = hit_point; alloc_fired = alloc::fired;
		if (!verdict) {
			what = "retry";
			try { got = o.run(); } catch (...) { verdict = 3; }
			if (!verdict && got != o.want) verdict = 4;
			if (!verdict) {
				what = "another operation";
				try { if (s[other].run() != s[other].want) verdict = 5; } catch (...) { verdict = 5; }
			}
		}
		got = Bytes();
	}
	const long left = alloc::live_count - live;
	const std::string ctx = mon::Msg() << make(seed)[op].name << " with " << (kind ? "allocation " : "call ") << k << (sticky ? " and all later ones" : "") << " failing" << (kind == 0 && point >= 0 ? std::string(" (") + point_name(point) + ")" : "");
	MON_REQUIRE(verdict != 1, "swallowed", ctx << ": the failure did not reach the caller");
	MON_REQUIRE(verdict != 2, "replaced", ctx << ": another exception than the failure reached the caller");
	MON_REQUIRE(verdict != 3, "retry-throws", ctx << ": the same call made again throws although nothing fails any more");
	MON_REQUIRE(verdict != 4, "retry-wrong", ctx << ": the same call made again gives a wrong result");
	MON_REQUIRE(verdict != 5, "others", ctx << ": " << what << " is wrong afterwards");
	if (kind == 0 && point >= 0) mon::event(std::string("faults: ") + point_name(point));
	if (kind == 1 && alloc_fired) mon::event("faults: allocation");
	mon::seen(mon::hash_str(ctx));
	return left;
}
// A lazily built constant may stay allocated once; a leak comes back every time.
static void one_checked(u64 seed, size_t op, int kind, long k, mon::Rng &r) {
	long left = 0;
	for (int t = 0; t < 3; t++) { mon::Rng q = r; left = one(seed, op, kind, k, q); if (left <= 0) break; }
	r.u();
	MON_REQUIRE(left <= 0, "leak", make(seed)[op].name << " with " << (kind ? "allocation " : "call ") << k << " failing: " << left << " allocations are never released");
}
struct Odd : std::numpunct<char> {
	std::string do_grouping() const override { return "\1\2"; }
	char do_thousands_sep() const override { return '.'; }
};
static void checks() {
	const auto faults = [](mon::Rng &r, long i) {
		const u64 seed = mon::mix64(mon::opts().seed * 977 + u64(i) + 5);
		const size_t op = size_t(i) % make(seed).size();
		// measure the fault-free run on a twin
		long ncalls, nalloc;
		std::map<std::size_t, std::pair<long, long>> places;     // key -> how many, one of them
		std::set<long> picked;
		{
			const Scene s = make(seed);
			mon::note(s[op].name);
			vector<std::size_t> keys(size_t(1) << 20);
			alloc::Sites st{keys.data(), keys.size(), 0};
			arm_calls(-1); hk::hook = counter; calls = 0;
			const long a0 = alloc::total;
			alloc::sites = &st;
			const Bytes b = s[op].run();
			alloc::sites = nullptr;
			nalloc = alloc::total - a0;
			ncalls = calls;
			disarm_calls();
			for (size_t j = 0; j < st.n; j++) {
				auto &x = places[keys[j]];
				if (r.below(u64(++x.first)) == 0) x.second = long(j);
			}
			for (const auto &x : places) picked.insert(x.second.second);
			check(s[op], b, "without a fault");
		}
		const long cap = large ? 9 : mon::thorough() ? 160 : 40;
		for (int kind = 0; kind < 2; kind++) {
			const long total = kind ? nalloc : ncalls;
			for (long t = 0; t < std::min(total, cap); t++) {
				// all points if they fit, else the first ones, the last ones and a sample
				long k = t;
				if (total > cap) k = t < cap / 3 ? t : t < 2 * cap / 3 ? total - 1 - (t - cap / 3) : long(r.below(u64(total)));
				how = int(r.below(fault_kinds)); sticky = r.chance(1, 4);
				mon::note(std::string(kind ? "allocation " : "call ") + std::to_string(k));
				one_checked(seed, op, kind, k, r);
				mon::event("fault runs");
			}
			// and one allocation of every place and size, the rare ones too
			if (kind && total > cap) for (const long k : picked) {
				how = 0; sticky = r.chance(1, 4);
				mon::note("allocation " + std::to_string(k));
				one_checked(seed, op, kind, k, r);
				mon::event("fault runs"); mon::event("fault runs at a place of its own");
			}
			mon::event(kind ? "allocation points of the operations" : "call points of the operations", u64(total));
		}
		if (i < 3) mon::sample(mon::Msg() << make(seed)[op].name << ": " << ncalls << " collaborator calls, " << nalloc << " allocations");
	};
	mon::group("faults", mon::count(900, 12), faults);
	large = true;
	mon::group("faults in long messages", mon::count(180, 6), faults);
	large = false;
	// Building objects under allocation failure: nothing leaks, and building again works.
	mon::group("construction", mon::count(24, 8), [](mon::Rng &r, long) {
		const u64 seed = r.u();
		long n;
		{ const long a0 = alloc::total; make(seed); n = alloc::total - a0; }
		for (int t = 0; t < 30; t++) {
			const long k = long(r.below(u64(n)));
			bool ok = false;
			long left = 0;
			for (int again = 0; again < 3; again++) {
				const long live = alloc::live_count;
				ok = false;
				try { alloc::arm(k); const Scene s = make(seed); alloc::disarm(); ok = true; } catch (const std::bad_alloc &) { alloc::disarm(); ok = true; } catch (...) { alloc::disarm(); }
				left = alloc::live_count - live;
				if (!ok || left <= 0) break;
			}
			MON_REQUIRE(ok, "construction", "allocation " << k << " failing while objects are built: another exception than bad_alloc");
			MON_REQUIRE(left <= 0, "leak", "allocation " << k << " failing while objects are built: " << left << " allocations are never released");
			mon::event("construction faults");
			mon::seen(seed + u64(k));
		}
	});
	// A sink that fails at every possible write, then works: the stream is completed without loss or repetition.
	mon::group("flaky-sink", mon::count(300), [](mon::Rng &r, long) {
		const auto c = mg::cipher(r);
		const auto v = cfbv::var(r);
		const Bytes m = gen::content(r, r.below(120));
		shared_ptr<const goost::Sink> s = cfbv::sink(v, make_shared<HSink>(), c.key);
		size_t p = 0;
		int retries = 0;
		sticky = false; how = int(r.below(fault_kinds));
		while (p < m.size()) {
			const size_t n = 1 + r.below(30);
			for (int tries = 0; tries < 3; tries++) {
				arm_calls(tries < 2 && r.chance(1, 2) ? long(r.below(4)) : -1);
				try { auto t = s->write(tob(m, p, n)); disarm_calls(); s = t; p += std::min(n, m.size() - p); break; }
				catch (const Injected &) { disarm_calls(); retries++; }
			}
		}
		disarm_calls();
		const Bytes got = hbytes(s->finalize()), want = cfbv::enc(v, c.ref, m);
		MON_REQUIRE(got == want, "flaky-sink", c.what << " " << v.what << ": after " << retries << " failed writes that were repeated the ciphertext differs");
		mon::event("messages completed over a failing sink"); mon::event("writes repeated after a failure", u64(retries));
		mon::seen(mon::hash_str(c.what));
	});
	// Text keys and blocks under a locale whose facets are used for the first time: the failing allocation
	// may be one of the locale's, and must reach the caller all the same.
	mon::group("locale", mon::count(60), [](mon::Rng &r, long) {
		const auto k = gen::key(r);
		const auto kk = gen::kkey(r);
		const u32 v = gen::word32(r);
		Magma c;
		c.k = k; c.rows = rows3412();
		const u64 bv = gen::word(r);
		for (int what = 0; what < 4; what++) {
			for (long n = 0; n < 60; n++) {
				const std::locale old = std::locale::global(std::locale(std::locale::classic(), new Odd));
				bool threw = false;
				Bytes got, want;
				try {
					alloc::arm(n);
					if (what == 0) { want = b64(c.g(v, k[3])); got = b64(gm::LazyKey(gen::key_text(k)).transform(v, 3)); }
					else if (what == 1) { want = b64(k[5]); got = b64(gm::KeyDataString(gen::key_text(k)).key(5)); }
					else if (what == 2) { want = b64(bv); got = b64(gm::BlkString(mon::hex(bv)).value()); }
					else { want = b128(kk.k1); got = b128(gk::KeyDataString(gen::kkey_text(kk)).high()->value()); }
					alloc::disarm();
				} catch (const std::bad_alloc &) { alloc::disarm(); threw = true; } catch (...) { alloc::disarm(); std::locale::global(old); throw; }
				std::locale::global(old);
				const bool hit = alloc::fired;
				mon::event(threw ? "locale faults reported" : "locale runs completed");
				MON_REQUIRE(threw || got == want, "locale-fault", "allocation " << n << " failing under another locale: text " << (what == 3 ? gen::kkey_text(kk) : what == 2 ? mon::hex(bv) : gen::key_text(k)) << " was taken for something else");
				if (!hit) break;
			}
		}
		mon::seen(r.u());
	});
}
