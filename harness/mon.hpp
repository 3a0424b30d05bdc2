// Monitor runtime shared by all harnesses: case loop, violations, evidence counters.
// A case is identified by (seed, group, index) and can be replayed on its own.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mon {

using u8 = uint8_t; using u32 = uint32_t; using u64 = uint64_t;

inline u64 mix64(u64 z) {
	z += 0x9e3779b97f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

inline u64 hash_bytes(const void *p, size_t n, u64 h = 1469598103934665603ull) {
	const u8 *b = static_cast<const u8 *>(p);
	for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
	return mix64(h);
}
inline u64 hash_str(const std::string &s) { return hash_bytes(s.data(), s.size()); }

struct Rng {
	u64 s;
	explicit Rng(u64 seed) : s(seed) {}
	u64 u() { s += 0x9e3779b97f4a7c15ull; u64 z = s;
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31); }
	u64 below(u64 n) { return n ? u() % n : 0; }
	long range(long a, long b) { return a + long(below(u64(b - a + 1))); }
	bool chance(int num, int den) { return below(den) < u64(num); }
};

struct Opts {
	u64 seed = 1;
	std::string tier = "quick", mode = "plain", out, progress, only_group;
	long only_case = -1;
	int shard = 0, nshards = 1;
	double scale = 1.0;
};
inline Opts &opts() { static Opts o; return o; }
inline bool thorough() { return opts().tier == "thorough"; }

struct Violation : std::exception {
	std::string key, msg;
	Violation(std::string k, std::string m) : key(std::move(k)), msg(std::move(m)) {}
	const char *what() const noexcept override { return msg.c_str(); }
};

struct Found { std::string group; long idx; std::string key, msg; };

struct State {
	std::map<std::string, u64> events;
	std::unordered_set<u64> distinct;
	std::vector<std::string> samples;
	std::vector<Found> found;
	std::map<std::string, u64> known_keys;
	u64 cases = 0;
	bool harness_error = false;
	std::string harness_msg;
};
inline State &st() { static State s; return s; }

struct Progress { char group[96]; volatile long idx; volatile long done; volatile char note[256]; };
inline Progress *&prog() { static Progress *p = nullptr; return p; }
inline void note(const std::string &s) {
	if (!prog()) return;
	const size_t n = s.size() < 255 ? s.size() : 255;
	for (size_t i = 0; i < n; i++) prog()->note[i] = s[i];
	prog()->note[n] = 0;
}

[[noreturn]] inline void fail(const std::string &key, const std::string &msg) { throw Violation(key, msg); }
inline void event(const std::string &name, u64 n = 1) { st().events[name] += n; }
inline void seen(u64 h) { if (st().distinct.size() < 400000) st().distinct.insert(h); }
inline void sample(const std::string &s) { if (st().samples.size() < 3) st().samples.push_back(s); }

struct Msg { std::ostringstream o; template <class T> Msg &operator<<(const T &v) { o << v; return *this; }
	operator std::string() const { return o.str(); } };

#define MON_REQUIRE(cond, key, text) do { if (!(cond)) ::mon::fail(key, std::string(::mon::Msg() << text)); } while (0)

inline std::string hex(u64 v, int w = 16) { char b[32]; snprintf(b, sizeof b, "%0*llx", w, (unsigned long long)v); return b; }
inline std::string hexb(const void *p, size_t n, size_t maxn = 48) {
	std::string r; const u8 *b = static_cast<const u8 *>(p);
	for (size_t i = 0; i < n && i < maxn; i++) { char t[4]; snprintf(t, sizeof t, "%02x", b[i]); r += t; }
	if (n > maxn) r += "..";
	return r;
}

inline void parse(int argc, char **argv) {
	auto &o = opts();
	for (int i = 1; i + 1 < argc; i += 2) {
		const std::string k = argv[i], v = argv[i + 1];
		if (k == "--seed") o.seed = strtoull(v.c_str(), nullptr, 10);
		else if (k == "--tier") o.tier = v;
		else if (k == "--mode") o.mode = v;
		else if (k == "--out") o.out = v;
		else if (k == "--progress") o.progress = v;
		else if (k == "--group") o.only_group = v;
		else if (k == "--case") o.only_case = strtol(v.c_str(), nullptr, 10);
		else if (k == "--shard") o.shard = atoi(v.c_str());
		else if (k == "--nshards") o.nshards = atoi(v.c_str());
		else if (k == "--scale") o.scale = atof(v.c_str());
		else { fprintf(stderr, "unknown option %s\n", k.c_str()); exit(2); }
	}
	if (!o.progress.empty()) {
		const int fd = open(o.progress.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
		if (fd < 0 || ftruncate(fd, sizeof(Progress)) != 0) { perror("progress"); exit(2); }
		prog() = static_cast<Progress *>(mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
		close(fd);
	}
}

// Number of cases for this tier/mode: n at scale 1.
inline long count(double n, double thorough_factor = 20) {
	double c = n * opts().scale * (thorough() ? thorough_factor : 1);
	return c < 1 ? 1 : long(c);
}

// Runs f(rng, i) for i in [0, n), this shard's part.
template <class F>
void group(const std::string &name, long n, F f) {
	auto &o = opts();
	if (!o.only_group.empty() && o.only_group != name) return;
	int bad = 0;
	for (long i = 0; i < n; i++) {
		if (o.only_case >= 0) { if (i != o.only_case) continue; }
		else if ((i + long(hash_str(name) % 97)) % o.nshards != o.shard) continue;
		if (prog()) {
			snprintf(prog()->group, sizeof prog()->group, "%s", name.c_str());
			prog()->idx = i; prog()->note[0] = 0;
		}
		st().cases++;
		try {
			Rng r(mix64(o.seed * 0x100000001b3ull ^ hash_str(name)) ^ mix64(u64(i) + 77));
			r.u();
			f(r, i);
		} catch (const Violation &v) {
			if (v.key.compare(0, 8, "harness:") == 0) { st().harness_error = true; st().harness_msg = v.msg; return; }
			st().found.push_back({name, i, v.key, v.msg});
			if (++bad >= 4) break;
		} catch (const std::exception &e) {
			st().found.push_back({name, i, "unexpected-exception", std::string("unexpected exception: ") + e.what()});
			if (++bad >= 4) break;
		} catch (...) {
			st().found.push_back({name, i, "unexpected-exception", "unexpected exception of unknown type"});
			if (++bad >= 4) break;
		}
		if (prog()) prog()->done = prog()->done + 1;
	}
}

inline std::string jstr(const std::string &s) {
	std::string r = "\"";
	for (const unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
		else if (c < 32 || c > 126) { char t[8]; snprintf(t, sizeof t, "\\u%04x", c); r += t; }
		else r += char(c);
	}
	return r + "\"";
}

inline int finish() {
	auto &s = st();
	std::ostringstream j;
	j << "{\"cases\":" << s.cases << ",\"events\":{";
	bool first = true;
	for (const auto &e : s.events) { j << (first ? "" : ",") << jstr(e.first) << ":" << e.second; first = false; }
	j << "},\"samples\":[";
	first = true;
	for (const auto &e : s.samples) { j << (first ? "" : ",") << jstr(e); first = false; }
	j << "],\"found\":[";
	first = true;
	for (const auto &f : s.found) {
		j << (first ? "" : ",") << "{\"group\":" << jstr(f.group) << ",\"case\":" << f.idx << ",\"key\":" << jstr(f.key) << ",\"msg\":" << jstr(f.msg) << "}";
		first = false;
	}
	j << "],\"harness_error\":" << (s.harness_error ? jstr(s.harness_msg) : "null") << ",\"distinct\":" << s.distinct.size() << "}\n";
	if (!opts().out.empty()) {
		FILE *f = fopen(opts().out.c_str(), "w");
		if (!f) { perror("out"); return 2; }
		fputs(j.str().c_str(), f); fclose(f);
		f = fopen((opts().out + ".set").c_str(), "w");
		if (!f) { perror("out"); return 2; }
		for (const auto h : s.distinct) fwrite(&h, 8, 1, f);
		fclose(f);
	} else fputs(j.str().c_str(), stdout);
	if (s.harness_error) return 2;
	return s.found.empty() ? 0 : 1;
}

}  // namespace mon
