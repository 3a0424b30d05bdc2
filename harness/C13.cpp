// C13: objects can be shared between threads without races and with equal results.
// Every round builds a fresh scene, so that the threads compete for the first use of each object.
#include "scene.hpp"
#include "main.hpp"
#include <cerrno>
#include <csignal>
#include <mutex>
#include <sched.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>

using namespace sc;

static thread_local u64 tl_state = 0;
static thread_local u64 tl_hooks = 0;
static std::atomic<int> delay_level{0};
static void delay(int) {
	tl_hooks++;
	const u64 z = mon::mix64(tl_state++);
	const int lv = delay_level.load(std::memory_order_relaxed);
	if (lv == 0) return;
	if (z % 7 < unsigned(lv)) sched_yield();
	if (lv > 1 && z % 61 == 0) { struct timespec t = {0, long(1000 + z % 40000)}; nanosleep(&t, nullptr); }
}
struct Race {
	std::atomic<int> ready{0};
	std::atomic<bool> go{false};
};
static void parallel(int n, const std::function<void(int)> &f) {
	Race race;
	vector<std::thread> t;
	for (int i = 0; i < n; i++) t.emplace_back([&, i] {
		race.ready++;
		while (!race.go.load(std::memory_order_acquire)) sched_yield();
		f(i);
	});
	while (race.ready.load() < n) sched_yield();
	race.go.store(true, std::memory_order_release);
	for (auto &x : t) x.join();
}
struct Fail { std::mutex m; std::string key, msg; };

static void checks() {
	const bool tsan = mon::opts().mode == "tsan";
	// The very first use of anything in a process, by several threads at once: each case is a process of its own,
	// in which nothing of the library has run yet. Runs before all other groups, and only the children use the library.
	mon::group("first in process", mon::count(tsan ? 320 : 800, 5), [](mon::Rng &r, long i) {
		static char *said = static_cast<char *>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
		if (said == MAP_FAILED) mon::fail("harness:mmap", "no shared page");
		said[0] = 0;
		const int n = int(2 + r.below(4));
		const u64 seed = r.u(), oseed = r.u();
		const int level = int(r.below(3));
		const bool same = i % 3 != 2, building = r.chance(1, 2);
		fflush(nullptr);
		const pid_t pid = fork();
		if (pid < 0) mon::fail("harness:fork", "no process");
		if (pid == 0) {
			delay_level = level;
			std::mutex m;
			std::atomic<int> bad{0};
			const auto make = [&] { mon::Rng q(seed); return make_shared<const Scene>(scene(q, 12, 2)); };
			const shared_ptr<const Scene> common = building ? nullptr : make();
			hk::hook = delay;
			parallel(n, [&](int t) {
				tl_state = seed + u64(t);
				std::string name = "building the objects";
				try {
					const auto s = building ? make() : common;
					mon::Rng q(oseed + u64(same ? 0 : t));
					for (int k = 0; k < 3; k++) {
						const auto &o = (*s)[k == 0 && same ? size_t(i / 3 * 2 + i % 3) % s->size() : q.below(s->size())];
						name = o.name;
						if (k == 0 && t == 0) mon::note(name);
						const Bytes got = o.run();
						if (got != o.want && !bad++) { std::lock_guard<std::mutex> l(m); snprintf(said, 4000, "%s in thread %d of %d gives %s expected %s", o.name.c_str(), t, n, mon::hexb(got.data(), got.size()).c_str(), mon::hexb(o.want.data(), o.want.size()).c_str()); }
					}
				} catch (const std::exception &e) { if (!bad++) { std::lock_guard<std::mutex> l(m); snprintf(said, 4000, "%s in a thread threw %s", name.c_str(), e.what()); } }
			});
			_exit(bad ? 1 : 0);
		}
		int st = 0;
		while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) mon::fail("harness:wait", "lost the child");
		if (WIFEXITED(st) && WEXITSTATUS(st) == 66) _exit(66);             // a sanitizer's report, already written
		MON_REQUIRE(!WIFSIGNALED(st) || WTERMSIG(st) == SIGKILL, "first-in-process", "the first concurrent use in a process died with signal " << WTERMSIG(st));
		if (WIFSIGNALED(st)) mon::fail("harness:killed", "the child was killed");
		MON_REQUIRE(WEXITSTATUS(st) == 0, "first-in-process", "first use in a process by " << n << " threads: " << said);
		mon::event("processes whose first use was concurrent"); mon::event("threads started", u64(n));
		mon::seen(seed);
	});
	mon::group("scenes", mon::count(tsan ? 220 : 900), [](mon::Rng &r, long i) {
		const int n = int(2 + r.below(7));
		auto s = make_shared<const Scene>(scene(r, i % 16 == 9 ? 4000 : 30, i % 16 == 9 ? 40 : 3));
		// a round concentrates on a few operations, so that they collide
		const size_t focus = 1 + r.below(4);
		vector<size_t> pick;
		for (size_t k = 0; k < focus; k++) pick.push_back(r.below(s->size()));
		const bool all = r.chance(1, 4);
		const u64 seed = r.u();
		delay_level = int(r.below(3));
		Fail bad;
		std::atomic<u64> ops{0}, hooks{0};
		vector<vector<u8>> order(static_cast<size_t>(n));
		hk::hook = delay;
		parallel(n, [&](int t) {
			mon::Rng q(seed + u64(t) * 1000003);
			tl_state = q.u(); tl_hooks = 0;
			const size_t reps = all ? s->size() : 4;
			for (size_t k = 0; k < reps; k++) {
				const auto &o = all ? (*s)[(k + size_t(t) * 5) % s->size()] : (*s)[pick[q.below(pick.size())]];
				order[size_t(t)].push_back(u8(&o - s->data()));
				try {
					const Bytes got = o.run();
					if (got != o.want) {
						std::lock_guard<std::mutex> l(bad.m);
						if (bad.key.empty()) { bad.key = "result:" + o.name; bad.msg = mon::Msg() << o.name << " in thread " << t << " of " << n << " gives " << mon::hexb(got.data(), got.size()) << " expected " << mon::hexb(o.want.data(), o.want.size()); }
					}
				} catch (const std::exception &e) {
					std::lock_guard<std::mutex> l(bad.m);
					if (bad.key.empty()) { bad.key = "exception:" + o.name; bad.msg = o.name + " in a thread threw " + e.what(); }
				}
				ops++;
			}
			hooks += tl_hooks;
		});
		hk::hook = nullptr;
		mon::event("concurrent operations", ops); mon::event("threads started", u64(n)); mon::event("scenes");
		mon::event("delay points passed", hooks);
		u64 h = 0;
		for (const auto &v : order) h = mon::hash_bytes(v.data(), v.size(), h + 1);
		mon::seen(h);
		if (i < 2) mon::sample(mon::Msg() << n << " threads, " << ops.load() << " operations, " << (all ? "all kinds" : (*s)[pick[0]].name));
		if (!bad.key.empty()) mon::fail(bad.key, bad.msg);
		// results afterwards, alone
		for (const auto p : pick) check((*s)[p], (*s)[p].run(), "after the threads ended");
	});
	// The first use of a key by many threads at once, whatever holds the key material.
	mon::group("first-use", mon::count(tsan ? 400 : 2500), [](mon::Rng &r, long) {
		const int n = int(3 + r.below(6));
		delay_level = int(r.below(3));
		const u64 seed = r.u();
		std::atomic<int> wrong{0};
		hk::hook = delay;
		std::string what;
		if (r.chance(1, 2)) {
			Magma c;
			c.k = gen::key(r); c.rows = gen::rows(r);
			const auto key = lazy_key(r, c);
			what = "28147 key " + gen::key_text(c.k);
			vector<u64> v(static_cast<size_t>(n)), want(static_cast<size_t>(n));
			for (int t = 0; t < n; t++) { v[size_t(t)] = gen::word(r); want[size_t(t)] = c.enc(v[size_t(t)]); }
			parallel(n, [&](int t) {
				tl_state = seed + u64(t);
				try { if (val(gm::BlkEncrypted(make_shared<gm::BlkRaw>(v[size_t(t)]), key).value()) != want[size_t(t)]) wrong++; } catch (...) { wrong++; }
			});
		} else {
			const auto kk = gen::kkey(r);
			const Kuz c(kk.k1, kk.k2);
			const auto key = kuz_key(r, kk);
			what = "34.12 key " + gen::kkey_text(kk);
			vector<u128> v(static_cast<size_t>(n)), want(static_cast<size_t>(n));
			for (int t = 0; t < n; t++) { v[size_t(t)] = gen::wide(r); want[size_t(t)] = c.enc(v[size_t(t)]); }
			parallel(n, [&](int t) {
				tl_state = seed + u64(t);
				try { if (kz::val(gk::BlkEncrypted(make_shared<gk::BlkRaw>(kz::pr(v[size_t(t)])), key).value()) != want[size_t(t)]) wrong++; } catch (...) { wrong++; }
			});
		}
		hk::hook = nullptr;
		mon::event("concurrent first uses", u64(n));
		mon::seen(mon::hash_str(what));
		MON_REQUIRE(wrong == 0, "first-use", what << ": " << wrong.load() << " of " << n << " threads that used a fresh key at once got a wrong block");
	});
	// Handles are copied and dropped by the threads while others use them.
	mon::group("sharing", mon::count(tsan ? 120 : 500), [](mon::Rng &r, long) {
		const int n = int(2 + r.below(5));
		const auto c = mg::cipher(r);
		const auto v = cfbv::var(r);
		const Bytes m = gen::content(r, 20 + r.below(60));
		const Bytes want = cfbv::enc(v, c.ref, m);
		delay_level = int(r.below(2));
		std::atomic<int> wrong{0};
		const u64 seed = r.u();
		shared_ptr<const goost::Sink> s = cfbv::sink(v, make_shared<RecSink>(), c.key)->write(tob(m, 0, 11));
		shared_ptr<const goost::Source> src = cfbv::source(v, make_shared<MemSource>(want), c.key)->read(5).second;
		parallel(n, [&, s, src](int t) {
			mon::Rng q(seed + u64(t));
			try {
				auto mine = s;
				auto rd = src;
				for (size_t p = 11; p < m.size();) { const size_t k = 1 + q.below(13); mine = mine->write(tob(m, p, k)); p += k; }
				if (recorded(mine->finalize()) != want) wrong++;
				if (read_to_end(rd, 1 + q.below(11)) != Bytes(m.begin() + 5, m.end())) wrong++;
			} catch (...) { wrong++; }
		});
		MON_REQUIRE(wrong == 0, "sharing", c.what << " " << v.what << ": " << wrong.load() << " continuations of one shared handle by " << n << " threads were wrong");
		mon::event("continuations of shared handles", u64(n));
		mon::seen(mon::hash_str(c.what));
	});
}
