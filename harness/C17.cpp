// C17: stack, memory and work stay bounded however long the message is.
// Each workload runs at a small and a large length on a painted stack of its own; the monitors compare
// the high-water mark of the stack, the peak of live heap, and the number of cipher operations.
#include "scene.hpp"
#include "main.hpp"
#include <pthread.h>

using namespace sc;

// ---- length-driven collaborators that hold nothing
class NullSink final : public goost::Sink {
public:
	shared_ptr<const goost::Sink> write(const vector<byte> &) const override { at(P_SINK_WRITE); return make_shared<NullSink>(); }
	shared_ptr<const goost::Sink> finalize() const override { return make_shared<NullSink>(); }
};
class GenSource final : public goost::Source {
	const size_t pos, end;
public:
	GenSource(size_t pos, size_t end) : pos(pos), end(end) {}
	pair<vector<byte>, shared_ptr<const goost::Source>> read(size_t size) const override {
		at(P_SOURCE);
		const size_t n = std::min(size, end - pos);
		vector<byte> r(n);
		for (size_t i = 0; i < n; i++) r[i] = byte(u8((pos + i) * 167));
		return {r, make_shared<GenSource>(pos + n, end)};
	}
};
class GenIter final : public gk::Iterator {
	const size_t i, n;
public:
	GenIter(size_t i, size_t n) : i(i), n(n) {}
	kz::Pair value() const override { at(P_IVALUE); return {i, ~i}; }
	bool last() const override { return i + 1 == n; }
	size_t size() const override { return 16; }
	shared_ptr<const gk::Iterator> next() const override { at(P_NEXT); if (i + 1 == n) return {}; return make_shared<GenIter>(i + 1, n); }
};
class GenStream final : public gk::Stream {
	const size_t n;
public:
	explicit GenStream(size_t n) : n(n) {}
	shared_ptr<const gk::Iterator> iter() const override { return make_shared<GenIter>(0, n); }
};

#ifdef MON_STEPS
// Steps: every basic block the library executes, and every eight bytes it copies, moves, fills or compares.
static thread_local u64 steps;
extern "C" {
void __sanitizer_cov_trace_pc() { steps++; }
void *__real_memmove(void *, const void *, size_t);
void *__real_memcpy(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
void *__wrap_memmove(void *d, const void *s, size_t n) { steps += n / 8 + 1; return __real_memmove(d, s, n); }
void *__wrap_memcpy(void *d, const void *s, size_t n) { steps += n / 8 + 1; return __real_memcpy(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { steps += n / 8 + 1; return __real_memset(d, c, n); }
int __wrap_memcmp(const void *d, const void *s, size_t n) { steps += n / 8 + 1; return __real_memcmp(d, s, n); }
}
#else
static u64 steps;
#endif
static std::atomic<u64> ops{0};
static void counting(int p) { if (p == P_KEY || p == P_SBOX || p == P_IVALUE || p == P_NEXT || p == P_SOURCE || p == P_SINK_WRITE) ops++; }

// ---- painted stack
struct Used { size_t stack; long heap; u64 work, allocs, bytes, steps; };
struct Job { const std::function<void()> *f; std::string err; u64 steps; };
static void *entry(void *p) {
	auto *j = static_cast<Job *>(p);
	const u64 s0 = steps;
	try { (*j->f)(); } catch (const std::exception &e) { j->err = e.what(); } catch (...) { j->err = "unknown exception"; }
	j->steps = steps - s0;
	return nullptr;
}
static const size_t stack_size = size_t(192) << 20;
static u8 *stack_mem() {
	static u8 *m = static_cast<u8 *>(mmap(nullptr, stack_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
	if (m == MAP_FAILED) mon::fail("harness:mmap", "no stack");
	return m;
}
// Fresh zero pages stand for the paint: the lowest non-zero byte is the high-water mark.
static Used measure(const std::function<void()> &f) {
	u8 *m = stack_mem();
	madvise(m, stack_size, MADV_DONTNEED);
	pthread_attr_t a;
	pthread_attr_init(&a);
	pthread_attr_setstack(&a, m, stack_size);
	Job j{&f, "", 0};
	const long base = alloc::live_bytes;
	alloc::peak_bytes = base;
	const u64 t0 = u64(alloc::total), b0 = u64(alloc::total_bytes);
	ops = 0;
	hk::hook = counting;
	pthread_t t;
	if (pthread_create(&t, &a, entry, &j) != 0) mon::fail("harness:thread", "no thread");
	pthread_join(t, nullptr);
	hk::hook = nullptr;
	pthread_attr_destroy(&a);
	Used u{0, alloc::peak_bytes - base, ops, u64(alloc::total) - t0, u64(alloc::total_bytes) - b0, j.steps};
	// find the lowest touched byte, page by page
	size_t lo = 0;
	const size_t page = 4096;
	static vector<unsigned char> vec(stack_size / page);
	mincore(m, stack_size, vec.data());
	while (lo < stack_size && !(vec[lo / page] & 1)) lo += page;
	while (lo < stack_size && m[lo] == 0) lo++;
	u.stack = stack_size - lo;
	if (!j.err.empty()) mon::fail("exception", "the workload threw: " + j.err);
	return u;
}

struct Load {
	std::string name;
	std::function<std::function<void()>(size_t)> make;   // prepares a run over n blocks
	size_t small, large;
	long copies;                                          // data handed in/out in one piece may be held so many times
	size_t unit;
};
static Magma mref() { Magma c; for (size_t i = 0; i < 8; i++) c.k[i] = u32(mon::mix64(i)); c.rows = rows3412(); return c; }
static const char *ktext = "8899aabbccddeeff0011223344556677fedcba98765432100123456789abcdef";

static vector<Load> loads() {
	vector<Load> l;
	const auto c = mref();
	const shared_ptr<const gm::Key> key = make_shared<HKey>(c);
	const auto lazy = make_shared<gm::LazyKey>(gen::key_text(c.k), make_shared<HSbox>(c.rows));
	const auto kkey = make_shared<gk::Key>(ktext);
	const size_t S = 64, L = mon::thorough() ? 400000 : 40000, KS = 12, KL = mon::thorough() ? 70000 : 8000;
	for (int m = 0; m < 2; m++) {
		cfbv::Var v; v.m = m; v.iv = {1, 2}; if (!m) v.iv.pop_back();
		const std::string n = m ? "34.13 CFB " : "28147 CFB ";
		for (const size_t chunk : {size_t(1), size_t(8), size_t(13), size_t(64)})
			l.push_back({n + "writes of " + std::to_string(chunk), [=](size_t k) { return [=] {
				shared_ptr<const goost::Sink> s = cfbv::sink(v, make_shared<NullSink>(), key);
				for (size_t p = 0; p < 8 * k; p += chunk) s = s->write(vector<byte>(chunk, byte(p)));
				s->finalize();
			}; }, S, L, 0, 8});
		l.push_back({n + "one write", [=](size_t k) { return [=] { cfbv::sink(v, make_shared<NullSink>(), key)->write(vector<byte>(8 * k + 3, byte(5)))->finalize(); }; }, S, L, 6, 8});
		for (const size_t chunk : {size_t(1), size_t(8), size_t(50)})
			l.push_back({n + "reads of " + std::to_string(chunk), [=](size_t k) { return [=] {
				shared_ptr<const goost::Source> s = cfbv::source(v, make_shared<GenSource>(0, 8 * k + 3), key);
				while (true) { auto x = s->read(chunk); if (x.first.empty()) break; s = x.second; }
			}; }, S, L, 0, 8});
		l.push_back({n + "read of everything", [=](size_t k) { return [=] { cfbv::source(v, make_shared<GenSource>(0, 8 * k), key)->read(~size_t(0)); }; }, S, L, 8, 8});
		l.push_back({n + "layered writes", [=](size_t k) { return [=] {
			shared_ptr<const goost::Sink> s = cfbv::sink(v, cfbv::sink(v, make_shared<NullSink>(), key), key);
			for (size_t p = 0; p < k; p++) s = s->write(vector<byte>(8));
			s->finalize()->finalize();
		}; }, S, L, 0, 8});
		l.push_back({n + "layered reads", [=](size_t k) { return [=] {
			shared_ptr<const goost::Source> s = cfbv::source(v, cfbv::source(v, make_shared<GenSource>(0, 8 * k), key), key);
			while (true) { auto x = s->read(21); if (x.first.empty()) break; s = x.second; }
		}; }, S, L, 0, 8});
	}
	l.push_back({"ECB writes", [=](size_t k) { return [=] {
		shared_ptr<const goost::Sink> s = make_shared<gm::ECBSink>(make_shared<NullSink>(), key);
		for (size_t p = 0; p < k; p++) s = s->write(vector<byte>(8));
		s->finalize();
	}; }, S, L, 0, 8});
	l.push_back({"ECB one write", [=](size_t k) { return [=] { make_shared<gm::ECBSink>(make_shared<NullSink>(), key)->write(vector<byte>(8 * k))->finalize(); }; }, S, L, 6, 8});
	l.push_back({"ECB reads", [=](size_t k) { return [=] {
		shared_ptr<const goost::Source> s = make_shared<gm::ECBSource>(make_shared<GenSource>(0, 8 * k), key);
		while (true) { auto x = s->read(8); if (x.first.empty()) break; s = x.second; }
	}; }, S, L, 0, 8});
	l.push_back({"Magma MAC", [=](size_t k) { return [=] { gm::Imit(make_shared<GenSource>(0, 8 * k), lazy).value(); }; }, S, L, 0, 8});
	l.push_back({"Magma MAC, incomplete tail", [=](size_t k) { return [=] { gm::Imit(make_shared<GenSource>(0, 8 * k + 5), lazy).value(); }; }, S, L, 0, 8});
	l.push_back({"Magma MAC over CFB", [=](size_t k) { return [=] { gm::Imit(make_shared<g89::CFBSource>(make_shared<GenSource>(0, 8 * k), key, 7), lazy).value(); }; }, S, L, 0, 8});
	l.push_back({"28147 MAC", [=](size_t k) { return [=] { g89::DataImit(Bytes(8 * k + 1), lazy).value(); }; }, S, L, 10, 8});
	l.push_back({"Kuznyechik MAC", [=](size_t k) { return [=] { gk::Imit(make_shared<GenStream>(k), kkey).value(); }; }, KS, KL, 0, 16});
	l.push_back({"Kuznyechik MAC over memory", [=](size_t k) { return [=] { gk::Imit(make_shared<gk::StMemory>(vector<u64>(2 * k)), kkey).value(); }; }, KS, KL, 6, 16});
	l.push_back({"CTR walk", [=](size_t k) { return [=] { for (auto it = gk::StCTREncrypted(make_shared<GenStream>(k), kkey, 3).iter(); it; it = it->next()) it->value(); }; }, KS, KL, 0, 16});
	l.push_back({"CTR walk, only the last block inspected", [=](size_t k) { return [=] { for (auto it = gk::StCTREncrypted(make_shared<GenStream>(k), kkey, 3).iter(); it; it = it->next()) if (it->last()) it->value(); }; }, 100, size_t(mon::thorough() ? 300000 : 30000), 0, 16});
	l.push_back({"CTR over CTR", [=](size_t k) { return [=] { for (auto it = gk::StCTREncrypted(make_shared<gk::StCTREncrypted>(make_shared<GenStream>(k), kkey, 4), kkey, 3).iter(); it; it = it->next()) it->value(); }; }, KS, KL / 2, 0, 16});
	l.push_back({"Kuznyechik MAC over CTR", [=](size_t k) { return [=] { gk::Imit(make_shared<gk::StCTREncrypted>(make_shared<GenStream>(k), kkey, 4), kkey).value(); }; }, KS, KL / 2, 0, 16});
	l.push_back({"memory walk", [=](size_t k) { return [=] { u64 x = 0; for (auto it = make_shared<gk::StMemory>(vector<u64>(2 * k))->iter(); it; it = it->next()) { x += it->value().first + it->size() + it->last(); } if (x == 1) abort(); }; }, 100, size_t(mon::thorough() ? 200000 : 20000), 6, 16});
	l.push_back({"key used for many blocks", [=](size_t k) { return [=] { for (size_t p = 0; p < k; p++) kkey->encrypt(make_shared<gk::BlkRaw>(p))->value(); }; }, KS, KL, 0, 16});
	l.push_back({"28147 key used for many blocks", [=](size_t k) { return [=] { for (size_t p = 0; p < k; p++) gm::BlkDecrypted(make_shared<gm::BlkEncrypted>(make_shared<gm::BlkRaw>(p, p), lazy), lazy).value(); }; }, S, L, 0, 8});
	return l;
}
static void checks() {
	const auto l = loads();
	mon::group("growth", long(l.size()), [&](mon::Rng &, long i) {
		const auto &w = l[size_t(i)];
		mon::note(w.name);
		measure(w.make(w.small));                              // warm up: caches, lazy binding
		const Used a = measure(w.make(w.small)), b = measure(w.make(w.large));
		const std::string ctx = mon::Msg() << w.name << ": " << w.small << " -> " << w.large << " blocks";
		MON_REQUIRE(b.stack <= a.stack + 8192, "stack", ctx << ": stack grew from " << a.stack << " to " << b.stack << " bytes");
		const long data = long((w.large - w.small) * w.unit) * w.copies;
		MON_REQUIRE(b.heap <= a.heap + 65536 + data, "memory", ctx << ": peak live memory grew from " << a.heap << " to " << b.heap << " bytes");
		const double ratio = double(w.large) / double(w.small) * 2.2;
		MON_REQUIRE(double(b.work) <= double(a.work) * ratio + 64, "work", ctx << ": cipher and stream operations grew from " << a.work << " to " << b.work);
		MON_REQUIRE(double(b.allocs) <= double(a.allocs) * ratio + 64, "work", ctx << ": allocations (one per step) grew from " << a.allocs << " to " << b.allocs);
		MON_REQUIRE(double(b.bytes) <= double(a.bytes) * ratio + 65536, "work", ctx << ": bytes allocated along the way grew from " << a.bytes << " to " << b.bytes);
		MON_REQUIRE(double(b.steps) <= double(a.steps) * ratio + 65536, "work", ctx << ": steps executed grew from " << a.steps << " to " << b.steps);
		// no step costs more than a fixed amount (a layer over a block takes 32 key uses, twice that for a MAC's subkeys)
		MON_REQUIRE(b.work <= 400 * w.large + 20000, "work", ctx << ": " << b.work << " cipher and stream operations for " << w.large << " blocks");
		mon::event("workloads compared at two lengths");
		mon::event("bytes allocated, counted", b.bytes);
		mon::event("steps (basic blocks and words moved) counted", b.steps);
		mon::event("blocks processed", 2 * w.small + w.large);
		mon::event("cipher and stream operations counted", b.work);
		mon::sample(mon::Msg() << ctx << ": stack " << a.stack << " -> " << b.stack << ", peak heap " << a.heap << " -> " << b.heap << ", operations " << a.work << " -> " << b.work << ", steps " << a.steps << " -> " << b.steps);
		mon::seen(mon::hash_str(w.name));
	});
	// A read costs by what it gives, not by what it asks for.
	mon::group("read sizes", 64 * 2, [&](mon::Rng &r, long i) {
		const auto c = mref();
		const shared_ptr<const gm::Key> key = make_shared<HKey>(c);
		const size_t ask = i % 64 == 63 ? ~size_t(0) - r.below(9) : (size_t(1) << (i % 64)) + r.below(9);
		const size_t n = r.below(200);
		for (int kind = 0; kind < 3; kind++) {
			if (kind == 2 && ask < 8) continue;
			cfbv::Var v; v.m = kind == 1; v.iv = {r.u(), r.u()}; if (!v.m) v.iv.pop_back();
			const auto under = make_shared<GenSource>(0, kind == 2 ? n / 8 * 8 : n);
			const shared_ptr<const goost::Source> s = kind == 2 ? shared_ptr<const goost::Source>(make_shared<gm::ECBSource>(under, key)) : cfbv::source(v, under, key);
			size_t got = 0;
			const Used u = measure([&] { auto x = s->read(ask); got = x.first.size(); if (r.chance(1, 2)) got += x.second->read(ask).first.size(); });
			const std::string ctx = mon::Msg() << (kind == 2 ? "ECB" : kind ? "34.13 CFB" : "28147 CFB") << " read of " << ask << " bytes from a source of " << n;
			MON_REQUIRE(got <= n, "read", ctx << " gives " << got);
			MON_REQUIRE(u.heap <= (1 << 20) && u.bytes <= (1 << 21), "memory", ctx << " takes " << u.heap << " bytes at its peak, " << u.bytes << " in all");
			MON_REQUIRE(u.work <= 400 * 27 + 4000, "work", ctx << " takes " << u.work << " cipher and source operations");
			MON_REQUIRE(u.steps <= 400 * 27 * 200, "work", ctx << " takes " << u.steps << " steps");
			mon::event("reads larger than what there is, measured");
		}
		mon::seen(ask ^ n << 50);
	});
	// Intermediate lengths: the three measures never jump at some threshold.
	mon::group("lengths", long(l.size()) * 3, [&](mon::Rng &r, long i) {
		const auto &w = l[size_t(i) % l.size()];
		mon::note(w.name);
		measure(w.make(w.small));
		const Used a = measure(w.make(w.small));
		const size_t n = w.small + r.below((w.large - w.small) / 4);
		const Used b = measure(w.make(n));
		const std::string ctx = mon::Msg() << w.name << ": " << w.small << " -> " << n << " blocks";
		MON_REQUIRE(b.stack <= a.stack + 8192, "stack", ctx << ": stack grew from " << a.stack << " to " << b.stack << " bytes");
		MON_REQUIRE(b.heap <= a.heap + 65536 + long((n - w.small) * w.unit) * w.copies, "memory", ctx << ": peak live memory grew from " << a.heap << " to " << b.heap << " bytes");
		MON_REQUIRE(double(b.work) <= double(a.work) * double(n) / double(w.small) * 2.2 + 64, "work", ctx << ": operations grew from " << a.work << " to " << b.work);
		MON_REQUIRE(double(b.bytes) <= double(a.bytes) * double(n) / double(w.small) * 2.2 + 65536, "work", ctx << ": bytes allocated along the way grew from " << a.bytes << " to " << b.bytes);
		MON_REQUIRE(double(b.steps) <= double(a.steps) * double(n) / double(w.small) * 2.2 + 65536, "work", ctx << ": steps executed grew from " << a.steps << " to " << b.steps);
		mon::event("workloads compared at two lengths");
		mon::seen(mon::hash_str(w.name) + n);
	});
}
