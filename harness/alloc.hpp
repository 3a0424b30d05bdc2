// Allocation monitor (plain builds): counts live blocks/bytes, poisons fresh and freed memory,
// and fails chosen allocations. Included by exactly one translation unit per program.
#pragma once
#include <atomic>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <new>

namespace alloc {
constexpr std::size_t magic = 0x5bd1e995a2b3c4d5ull;
inline std::atomic<long> live_bytes{0}, live_count{0}, peak_bytes{0}, total{0}, total_bytes{0};
inline thread_local long countdown = -1;      // < 0: never fail; 0: fail the next one
inline thread_local bool sticky = false;      // keep failing until disarmed
inline thread_local bool fired = false;
inline std::atomic<unsigned char> fill{0xa5};
inline void arm(long k, bool s = false) { countdown = k; sticky = s; fired = false; }
inline void disarm() { countdown = -1; sticky = false; }
// Where allocations come from: while `sites` is set, the place and the size of each are noted in it
struct Sites { std::size_t *key; std::size_t room, n; };
inline thread_local Sites *sites = nullptr;
inline void *get(std::size_t n, const void *from = nullptr) {
	if (sites && sites->n < sites->room) sites->key[sites->n++] = reinterpret_cast<std::size_t>(from) * 1000003 ^ n;
	if (countdown >= 0) {
		if (countdown == 0) { fired = true; if (!sticky) countdown = -1; throw std::bad_alloc(); }
		countdown--;
	}
	unsigned char *p = static_cast<unsigned char *>(std::malloc(n + 32));
	if (!p) throw std::bad_alloc();
	const std::size_t hdr[2] = {n, magic ^ n};
	std::memcpy(p, hdr, 16);
	std::memset(p + 16, fill.load(std::memory_order_relaxed), n);
	std::memset(p + 16 + n, 0xc4, 16);
	const long l = live_bytes.fetch_add(long(n), std::memory_order_relaxed) + long(n);
	long pk = peak_bytes.load(std::memory_order_relaxed);
	while (l > pk && !peak_bytes.compare_exchange_weak(pk, l, std::memory_order_relaxed)) {}
	live_count.fetch_add(1, std::memory_order_relaxed);
	total.fetch_add(1, std::memory_order_relaxed);
	total_bytes.fetch_add(long(n), std::memory_order_relaxed);
	return p + 16;
}
inline void bad(const char *what) noexcept { std::fprintf(stderr, "ALLOC-MONITOR: %s\n", what); std::abort(); }
inline void put(void *q) noexcept {
	if (!q) return;
	unsigned char *p = static_cast<unsigned char *>(q) - 16;
	std::size_t hdr[2];
	std::memcpy(hdr, p, 16);
	if (hdr[1] != (magic ^ hdr[0])) bad("freed block was overwritten at its start, or freed twice");
	for (int i = 0; i < 16; i++) if (p[16 + hdr[0] + i] != 0xc4) bad("heap write past the end of a block");
	live_bytes.fetch_sub(long(hdr[0]), std::memory_order_relaxed);
	live_count.fetch_sub(1, std::memory_order_relaxed);
	std::memset(p, 0xdd, hdr[0] + 32);
	std::free(p);
}
}  // namespace alloc
#ifdef MON_ALLOC
void *operator new(std::size_t n) { return alloc::get(n, __builtin_return_address(0)); }
void *operator new[](std::size_t n) { return alloc::get(n, __builtin_return_address(0)); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { try { return alloc::get(n); } catch (...) { alloc::fired = false; return nullptr; } }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { try { return alloc::get(n); } catch (...) { alloc::fired = false; return nullptr; } }
void operator delete(void *p) noexcept { alloc::put(p); }
void operator delete[](void *p) noexcept { alloc::put(p); }
void operator delete(void *p, std::size_t) noexcept { alloc::put(p); }
void operator delete[](void *p, std::size_t) noexcept { alloc::put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { alloc::put(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { alloc::put(p); }
#endif
