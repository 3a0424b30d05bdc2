// C25: results depend on the arguments only; no ambient state, output or history.
#include "scene.hpp"
#include "ambient.hpp"
#include <chrono>
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <csignal>
#include <cstdlib>
#include <dirent.h>
#include <iostream>
#include <locale>
#include <sys/stat.h>
#include <thread>
using namespace sc;

// Process-wide state, as seen from outside the library
static std::string state() {
	std::ostringstream o;
	o << "locale " << setlocale(LC_ALL, nullptr) << " / " << std::locale().name() << "; rounding " << fegetround();
	const mode_t m = umask(0); umask(m);
	o << "; umask " << m;
	char d[4096];
	o << "; cwd " << (getcwd(d, sizeof d) ? d : "?");
	u64 env = 0;
	for (char **e = environ; *e; e++) env = env * 31 + mon::hash_str(*e);
	o << "; environment " << env;
	for (const int s : {SIGSEGV, SIGABRT, SIGFPE, SIGINT, SIGTERM, SIGPIPE, SIGALRM, SIGUSR1, SIGCHLD}) {
		struct sigaction a;
		sigaction(s, nullptr, &a);
		o << "; signal " << s << " " << reinterpret_cast<size_t>(a.sa_handler);
	}
	o << "; cout " << std::cout.flags() << "," << std::cout.precision() << "," << int(std::cout.fill()) << " cerr " << std::cerr.flags() << " cin " << std::cin.flags();
	o << "; cout width " << std::cout.width() << " exceptions " << std::cout.exceptions() << "," << std::cerr.exceptions() << "," << std::cin.exceptions() << " ties " << std::cin.tie() << "," << std::cerr.tie() << "," << std::cout.tie() << " own locale " << std::cout.getloc().name();
	o << "; terminate " << reinterpret_cast<size_t>(std::get_terminate()) << " new " << reinterpret_cast<size_t>(std::get_new_handler());
	size_t fds = 0;
	if (DIR *p = opendir("/proc/self/fd")) { while (readdir(p)) fds++; closedir(p); }
	o << "; open files " << fds;
	return o.str();
}
// A caller's own settings of all that, some of them at a time; put back at the end
struct Own {
	const std::locale loc; const std::string cloc; const int round; const mode_t mask;
	const std::ios::fmtflags f1, f2, f3; const std::streamsize prec, width; const char fill; std::ostream *const tie;
	const std::terminate_handler term; const std::new_handler nh; struct sigaction usr{}, alrm{};
	[[noreturn]] static void dying() { fprintf(stderr, "the caller's own terminate handler\n"); abort(); }
	[[noreturn]] static void no_memory() { throw std::bad_alloc(); }
	static void nothing(int) {}
	explicit Own(mon::Rng &r) : cloc(setlocale(LC_ALL, nullptr)), round(fegetround()), mask(umask(0)), f1(std::cout.flags()), f2(std::cerr.flags()), f3(std::cin.flags()), prec(std::cout.precision()), width(std::cout.width()), fill(std::cout.fill()), tie(std::cin.tie()), term(std::get_terminate()), nh(std::get_new_handler()) {
		umask(mask);
		sigaction(SIGUSR1, nullptr, &usr); sigaction(SIGALRM, nullptr, &alrm);
		if (r.chance(1, 2)) { const int rounds[] = {FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO, FE_TONEAREST}; fesetround(rounds[r.below(4)]); }
		if (r.chance(1, 2)) umask(mode_t(r.below(8) * 8 + r.below(8)));
		if (r.chance(1, 2)) { std::cout << std::hex << std::showbase; std::cerr << std::uppercase; std::cin >> std::hex; }
		if (r.chance(1, 2)) { std::cout.precision(11); std::cout.width(5); std::cout.fill('*'); }
		if (r.chance(1, 2)) std::cin.tie(r.chance(1, 2) ? nullptr : &std::cerr);
		if (r.chance(1, 2)) std::set_terminate(dying);
		if (r.chance(1, 2)) std::set_new_handler(no_memory);
		if (r.chance(1, 2)) { struct sigaction a{}; a.sa_handler = nothing; sigaction(SIGUSR1, &a, nullptr); sigaction(SIGALRM, &a, nullptr); }
		if (r.chance(1, 2)) setlocale(LC_ALL, "C.UTF-8");
		if (r.chance(1, 2)) std::locale::global(std::locale(std::locale::classic(), new std::numpunct<char>));
	}
	~Own() {
		std::locale::global(loc); setlocale(LC_ALL, cloc.c_str()); fesetround(round); umask(mask);
		std::cout.flags(f1); std::cerr.flags(f2); std::cin.flags(f3); std::cout.precision(prec); std::cout.width(width); std::cout.fill(fill); std::cin.tie(tie);
		std::set_terminate(term); std::set_new_handler(nh); sigaction(SIGUSR1, &usr, nullptr); sigaction(SIGALRM, &alrm, nullptr);
	}
	Own(const Own &) = delete;
	Own &operator=(const Own &) = delete;
};
// Standard output and error go to files while a workload runs; both must stay empty.
struct Capture {
	FILE *f; int keep[2];
	Capture() : f(tmpfile()) {
		if (!f) mon::fail("harness:tmpfile", "no temporary file");
		fflush(nullptr);
		for (int i = 0; i < 2; i++) { keep[i] = dup(i + 1); dup2(fileno(f), i + 1); }
	}
	long done() {
		std::cout.flush(); std::cerr.flush(); std::clog.flush(); fflush(nullptr);
		struct stat s;
		fstat(fileno(f), &s);
		for (int i = 0; i < 2; i++) { if (keep[i] >= 0) { dup2(keep[i], i + 1); close(keep[i]); keep[i] = -1; } }
		return long(s.st_size);
	}
	~Capture() { done(); fclose(f); }
};
// A locale with grouping, other digits' separators and odd boolean names
struct Odd : std::numpunct<char> {
	char do_decimal_point() const override { return ','; }
	char do_thousands_sep() const override { return '.'; }
	std::string do_grouping() const override { return "\1\2"; }
	std::string do_truename() const override { return "0"; }
};
struct Upper : std::ctype<char> {
	char do_toupper(char c) const override { return c == 'a' ? 'b' : std::ctype<char>::do_toupper(c); }
	char do_tolower(char c) const override { return c == 'A' ? 'c' : std::ctype<char>::do_tolower(c); }
	char do_widen(char c) const override { return c == '1' ? '2' : c; }
	const char *do_widen(const char *l, const char *h, char *to) const override { for (; l < h; l++, to++) *to = do_widen(*l); return h; }
};
static void run_all(const Scene &s, const std::string &ctx) {
	for (const auto &o : s) { mon::note(o.name); check(o, o.run(), ctx); mon::event("operations"); }
}
// Gives back the memory released last, so that an object made after another was released stands at its
// address - unless somebody still holds the other one.
template <class T> struct Again {
	using value_type = T;
	Again() = default;
	template <class U> Again(const Again<U> &) {}
	static vector<void *> &pool() { static vector<void *> p; return p; }
	T *allocate(size_t n) {
		auto &p = pool();
		if (n == 1 && !p.empty()) { void *q = p.back(); p.pop_back(); return static_cast<T *>(q); }
		return static_cast<T *>(::operator new(n * sizeof(T)));
	}
	void deallocate(T *q, size_t n) { if (n == 1) pool().push_back(q); else ::operator delete(q); }
	template <class U> bool operator==(const Again<U> &) const { return true; }
	template <class U> bool operator!=(const Again<U> &) const { return false; }
};
template <class T, class... A> shared_ptr<const T> again(A &&...a) { return std::allocate_shared<T>(Again<T>(), std::forward<A>(a)...); }

static u64 ecb_word(const Bytes &m) { u64 v = 0; for (size_t i = 8; i-- > 0;) v = v << 8 | m[i]; return v; }
static void same_place(mon::Rng &r, long) {
	// keys of one neighbourhood, and the arguments every operation is given with each of them
	vector<Magma> cs(2 + r.below(4));
	cs[0].k = gen::key(r); cs[0].rows = gen::rows(r);
	for (size_t i = 1; i < cs.size(); i++) {
		cs[i] = cs[i - 1];
		switch (r.below(4)) {
		case 0: case 1: cs[i].k = gen::relative(r, cs[i].k); break;
		case 2: cs[i].rows = gen::rows(r); break;
		default: cs[i].k = gen::key(r);
		}
	}
	const u64 v = gen::word(r), iv = gen::word(r), iv2 = gen::word(r);
	Bytes m = gen::content(r, 8 * (1 + r.below(3)));
	const Bytes m2 = gen::content(r, 1 + r.below(20));
	const auto src = make_shared<HSource>(m);
	const int form = int(r.below(3)), sform = int(r.below(4));
	const bool any = r.chance(1, 3);
	const std::string names[] = {"encryption", "decryption", "encryption base", "ECB write", "ECB read", "28147 CFB write", "34.13 CFB write", "28147 CFB read", "34.13 CFB read", "Magma MAC", "28147 MAC", "16 rounds"};
	const size_t ops = 12;
	vector<size_t> order(ops);
	for (size_t i = 0; i < ops; i++) order[i] = i;
	for (size_t i = ops; i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
	const void *last = nullptr;
	for (const auto op : order) for (int round = 0; round < 2; round++) for (const auto &c : cs) {
		shared_ptr<const gm::Sbox> sb;
		if (sform == 0) sb = again<OwnSbox>(c.rows); else if (sform == 1) sb = again<gm::SboxTwisted>(nibble(c.rows)); else if (sform == 2) sb = again<gm::SboxTwisted>(std::make_unique<gm::SboxByte>(packed_from_rows(c.rows))); else sb = sbox(c.rows, 3);
		shared_ptr<const gm::LazyKey> key;
		if (form == 0) key = again<gm::LazyKey>(gen::key_text(c.k), sb); else if (form == 1) key = again<gm::LazyKey>(vector<u32>(c.k.begin(), c.k.end()), sb); else key = again<gm::LazyKey>(std::make_unique<OwnKeyData>(c.k), sb);
		shared_ptr<const gm::Key> k = key;
		if (any) k = again<OwnKey>(c);
		if (key.get() == last) mon::event("keys at a reused address");
		last = key.get();
		cfbv::Var a, b;
		a.m = 0; a.iv = {iv}; b.m = 1; b.iv = {iv, iv2};
		Bytes got, want;
		mon::note(names[op]);
		switch (op) {
		case 0: got = b64(gm::BlkEncrypted(again<gm::BlkRaw>(v), k).value()); want = b64(c.enc(v)); break;
		case 1: got = b64(gm::BlkDecrypted(again<gm::BlkRaw>(v), k).value()); want = b64(c.dec(v)); break;
		case 2: got = b64(gm::EncryptionBase(k).transform(v)); want = b64(c.enc(v)); break;
		case 3: got = hbytes(again<gm::ECBSink>(make_shared<HSink>(), k)->write(tob(m))->finalize()); want = ecb_enc(c, m); break;
		case 4: got = fromb(again<gm::ECBSource>(src, k)->read(8).first); want = b64(c.dec(ecb_word(m))); break;
		case 5: got = hbytes(again<g89::CFBSink>(make_shared<HSink>(), k, iv)->write(tob(m2))->finalize()); want = cfbv::enc(a, c, m2); break;
		case 6: got = hbytes(again<gm::CFBSink>(make_shared<HSink>(), k, iv, iv2)->write(tob(m2))->finalize()); want = cfbv::enc(b, c, m2); break;
		case 7: got = fromb(again<g89::CFBSource>(again<HSource>(cfbv::enc(a, c, m2)), k, iv)->read(100).first); want = m2; break;
		case 8: got = fromb(again<gm::CFBSource>(again<HSource>(cfbv::enc(b, c, m2)), k, iv, iv2)->read(100).first); want = m2; break;
		case 9: got = b64(again<gm::Imit>(src, key)->value()); want = b64(magma_mac_full(c, m)); break;
		case 10: got = again<g89::DataImit>(m2, key)->value(); want = imit89(c, m2); break;
		default: got = b64(g89::ImitedBlock(gm::BlkRaw(v), key).value().value()); want = b64(c.rounds16(v));
		}
		MON_REQUIRE(got == want, "place:" + names[op], names[op] << " with key " << gen::key_text(c.k) << " made where another key was gives " << mon::hexb(got.data(), got.size()) << " expected " << mon::hexb(want.data(), want.size()));
		mon::event("operations with objects at reused addresses");
	}
	mon::seen(r.u());
}
static void same_place_wide(mon::Rng &r, long) {
	vector<gen::KKey> ks(2 + r.below(3));
	ks[0] = gen::kkey(r);
	for (size_t i = 1; i < ks.size(); i++) {
		ks[i] = ks[i - 1];
		if (r.chance(4, 5)) ks[i] = gen::relative(r, ks[i]); else ks[i] = gen::kkey(r);
	}
	const u128 v = gen::wide(r);
	vector<u128> bl(1 + r.below(2));
	for (auto &x : bl) x = gen::wide(r);
	const u64 iv = gen::word(r);
	const auto st = make_shared<kz::OwnStream>(bl);
	const std::string names[] = {"wide encryption", "wide encrypted block", "CTR walk", "Kuznyechik MAC", "key iteration", "cached block", "memory stream", "S, L"};
	const int form = int(r.below(2));
	const size_t start = r.below(8);
	const void *last = nullptr;
	for (size_t o = 0; o < 8; o++) for (int round = 0; round < 2; round++) for (const auto &k : ks) {
		const size_t op = (o + start) % 8;
		const Kuz c(k.k1, k.k2);
		const auto key = form ? again<gk::Key>(gen::kkey_text(k)) : again<gk::Key>(again<kz::OwnData>(k.k1, k.k2));
		if (key.get() == last) mon::event("keys at a reused address");
		last = key.get();
		Bytes got, want;
		mon::note(names[op]);
		switch (op) {
		case 0: got = b128(key->encrypt(again<gk::BlkRaw>(kz::pr(v)))->value()); want = b128(c.enc(v)); break;
		case 1: got = b128(again<gk::BlkEncrypted>(again<gk::BlkRaw>(kz::pr(v)), key)->value()); want = b128(c.enc(v)); break;
		case 2: got = walk(again<gk::StCTREncrypted>(st, key, iv)->iter()); want = walk_want(bl, 0, 16, [&](size_t i, u128 x) { return x ^ c.enc(ctr_block(iv, i)); }); break;
		case 3: got = b128(again<gk::Imit>(st, key)->value()); want = b128(kuz_mac(c, bl, 16)); break;
		case 4: got = b128(again<gk::BlkIterKey>(again<gk::BlkRaw>(kz::pr(k.k1)), again<gk::BlkRaw>(kz::pr(k.k2)), 1, 8)->value()); want = b128(c.rk[2]); break;
		case 5: got = b128(again<gk::BlkCached>(again<gk::BlkRaw>(kz::pr(k.k2)))->value()); want = b128(k.k2); break;
		case 6: got = walk(again<gk::StMemory>(vector<u64>{lo64(k.k1), hi64(k.k1), lo64(k.k2)})->iter()); want = walk_want({k.k1, u128(lo64(k.k2))}, 0, 8, [](size_t, u128 x) { return x; }); break;
		default: got = b128(gk::BlkL(again<gk::BlkS>(again<gk::BlkRaw>(kz::pr(k.k1)))).value()); want = b128(L(S(k.k1)));
		}
		MON_REQUIRE(got == want, "place:" + names[op], names[op] << " with key " << gen::kkey_text(k) << " made where another key was gives " << mon::hexb(got.data(), got.size()) << " expected " << mon::hexb(want.data(), want.size()));
		mon::event("operations with objects at reused addresses");
	}
	mon::seen(r.u());
}
static void checks() {
	mon::group("same place", mon::count(300), same_place);
	mon::group("same place, wide", mon::count(100), same_place_wide);
	// Keys made and dropped at the same addresses; each result against the reference
	mon::group("key churn", mon::count(600), [](mon::Rng &r, long) {
		Magma c;
		c.k = gen::key(r); c.rows = gen::rows(r);
		auto kk = gen::kkey(r);
		std::set<const void *> addr;
		u64 reuse = 0;
		const u64 v = gen::word(r);
		const u128 w = gen::wide(r);
		auto sb = sbox(c.rows, int(r.below(4)));
		for (int i = 0; i < 40; i++) {
			switch (r.below(5)) {                                   // neighbours: one bit, one word, another table
			case 0: case 1: case 2: c.k = gen::relative(r, c.k); break;
			case 3: c.rows = gen::rows(r); sb.reset(); sb = sbox(c.rows, int(r.below(4))); break;
			default: c.k = gen::key(r);
			}
			const auto key = r.chance(1, 2) ? make_shared<gm::LazyKey>(gen::key_text(c.k), sb) : make_shared<gm::LazyKey>(vector<u32>(c.k.begin(), c.k.end()), sb);
			if (!addr.insert(key.get()).second) reuse++;
			const u64 got = val(gm::BlkEncrypted(make_shared<gm::BlkRaw>(v), key).value());
			MON_REQUIRE(got == c.enc(v), "churn", "key " << gen::key_text(c.k) << " made where another key was: block " << mon::hex(v) << " gives " << mon::hex(got));
			MON_REQUIRE(val(gm::BlkDecrypted(make_shared<gm::BlkRaw>(v), key).value()) == c.dec(v), "churn", "key " << gen::key_text(c.k) << " made where another key was: decryption of " << mon::hex(v));
			if (i % 10 == 0) {
				kk = gen::relative(r, kk);
				const auto q = make_shared<gk::Key>(gen::kkey_text(kk));
				if (!addr.insert(q.get()).second) reuse++;
				const u128 g = kz::val(q->encrypt(make_shared<gk::BlkRaw>(kz::pr(w)))->value());
				MON_REQUIRE(g == Kuz(kk.k1, kk.k2).enc(w), "churn", "key " << gen::kkey_text(kk) << " made where another key was: block " << hex128(w) << " gives " << hex128(g));
			}
			mon::event("keys made");
		}
		mon::event("keys at a reused address", reuse);
		mon::seen(r.u());
	});
	// Many keys and messages alive at once, used in random order
	mon::group("many alive", mon::count(12), [](mon::Rng &r, long) {
		struct One { Magma c; shared_ptr<const gm::LazyKey> k; };
		vector<One> ks(200 + r.below(800));
		Magma base;
		base.k = gen::key(r); base.rows = gen::rows(r);
		for (auto &o : ks) o.c = base;
		for (auto &o : ks) {
			o.c.rows = base.rows;
			o.c.k = r.chance(2, 3) ? gen::relative(r, ks[r.chance(1, 2) ? 0 : r.below(ks.size())].c.k) : gen::key(r);
			o.k = make_shared<gm::LazyKey>(vector<u32>(o.c.k.begin(), o.c.k.end()), sbox(o.c.rows, int(r.below(4))));
		}
		vector<u64> vs(16);
		for (auto &v : vs) v = gen::word(r);
		for (int i = 0; i < 4000; i++) {
			const auto &o = ks[r.below(ks.size())];
			const u64 v = vs[r.below(16)];
			const bool e = r.chance(1, 2);
			const u64 got = e ? val(gm::BlkEncrypted(make_shared<gm::BlkRaw>(v), o.k).value()) : val(gm::BlkDecrypted(make_shared<gm::BlkRaw>(v), o.k).value());
			MON_REQUIRE(got == (e ? o.c.enc(v) : o.c.dec(v)), "many", "one of " << ks.size() << " keys alive, " << gen::key_text(o.c.k) << ": block " << mon::hex(v) << " gives " << mon::hex(got));
			mon::event("uses of one of many keys");
		}
		mon::seen(r.u());
	});
	mon::group("many wide keys alive", mon::count(24), [](mon::Rng &r, long) {
		struct One { gen::KKey k; Kuz c; shared_ptr<const gk::Key> key; };
		vector<One> ks;
		const auto base = gen::kkey(r);
		for (size_t n = 20 + r.below(40); n > 0; n--) {
			auto k = base;
			k = r.chance(1, 3) ? gen::kkey(r) : gen::relative(r, ks.empty() || r.chance(1, 2) ? base : ks[r.below(ks.size())].k);
			ks.push_back({k, Kuz(k.k1, k.k2), make_shared<gk::Key>(gen::kkey_text(k))});
		}
		vector<u128> vs(8);
		for (auto &v : vs) v = gen::wide(r);
		for (int i = 0; i < 150; i++) {
			const auto &o = ks[r.below(ks.size())];
			const u128 v = vs[r.below(8)];
			const u128 got = kz::val(o.key->encrypt(make_shared<gk::BlkRaw>(kz::pr(v)))->value());
			MON_REQUIRE(got == o.c.enc(v), "many", "one of " << ks.size() << " keys alive, " << gen::kkey_text(o.k) << ": block " << hex128(v) << " gives " << hex128(got));
			mon::event("uses of one of many wide keys");
		}
		mon::seen(r.u());
	});
	// One object, used very often
	mon::group("long use", mon::count(8, 10), [](mon::Rng &r, long i) {
		const auto c = mg::cipher(r);
		const auto v = gen::word(r);
		if (i % 2 == 0) {
			const auto b = make_shared<gm::BlkEncrypted>(make_shared<gm::BlkRaw>(v), c.key);
			const u64 want = c.ref.enc(v);
			const long n = mon::thorough() ? 300000 : 70000;
			for (long k = 0; k < n; k++) MON_REQUIRE(val(b->value()) == want, "long", c.what << ": use number " << k << " of an encrypted block gives " << mon::hex(val(b->value())));
			mon::event("repeated uses of one object", u64(n));
		} else {
			const auto k = kz::cipher(r);
			const u128 w = gen::wide(r), want = k.ref.enc(w);
			for (long n = 0; n < (mon::opts().mode == "plain" ? mon::thorough() ? 300000 : 70000 : 1500); n++) MON_REQUIRE(kz::val(k.key->encrypt(make_shared<gk::BlkRaw>(kz::pr(w)))->value()) == want, "long", k.what << ": use number " << n << " of a key gives another block");
			mon::event("long uses of one wide key");
		}
		mon::seen(r.u());
	});
	// Every operation of a scene, very often on the same object: up to 70000 times (or as long as it lasts)
	mon::group("long use of all", mon::count(30, 4), [](mon::Rng &r, long i) {
		const auto s = scene(r, 6, 1);
		const auto &o = s[(size_t(i) + r.below(3) * 29) % s.size()];
		mon::note(o.name);
		const auto until = std::chrono::steady_clock::now() + std::chrono::milliseconds(mon::thorough() ? 8000 : 1200);
		long n = 0;
		while (n < (mon::thorough() ? 300000 : 70000) && (n % 64 || std::chrono::steady_clock::now() < until)) { check(o, o.run(), "the same operation very often"); n++; }
		mon::event("repeated uses of one object", u64(n));
		mon::seen(mon::hash_str(o.name) ^ r.u());
	});
	// Parts that use the library themselves: while one operation runs, calls of its caller-supplied parts
	// run operations of another scene, mostly of the same kind
	mon::group("inside one another", mon::count(400), [](mon::Rng &r, long i) {
		static const Scene *inner; static mon::Rng *dice; static size_t same; static const Op *wrong; static Bytes bad; static int odds; static u64 ran;
		const Scene a = scene(r, 40, 2), b = scene(r, 24, 1);
		mon::Rng q(r.u());
		inner = &b; dice = &q; wrong = nullptr; ran = 0;
		for (size_t k = 0; k < 12; k++) {
			const size_t x = (size_t(i) + k * 7) % a.size();
			same = x % b.size();
			for (size_t j = 0; j < b.size(); j++) if (b[(same + j) % b.size()].name == a[x].name) { same = (same + j) % b.size(); break; }
			odds = int(1 + q.below(6));
			mon::note(a[x].name + " with " + b[same].name + " inside");
			long left = 12;
			static long *budget; budget = &left;
			hk::hook = [](int) {
				if (*budget <= 0 || !dice->chance(1, u64(odds))) return;
				--*budget;
				const auto keep = hk::hook;
				hk::hook = nullptr;
				struct Back { void (*h)(int); ~Back() { hk::hook = h; } } back{keep};
				const Op &o = (*inner)[dice->chance(2, 3) ? same : dice->below(inner->size())];
				const Bytes got = o.run();
				ran++;
				if (got != o.want && !wrong) { wrong = &o; bad = got; }
			};
			Bytes got;
			try { got = a[x].run(); } catch (...) { hk::hook = nullptr; throw; }
			hk::hook = nullptr;
			check(a[x], got, "with " + b[same].name + " run by its parts");
			if (wrong) check(*wrong, bad, "run by the parts of " + a[x].name);
			mon::seen(mon::hash_str(a[x].name + b[same].name) ^ q.u());
		}
		mon::event("operations run by parts of others", ran);
	});
	// Scenes interleaved in random order, with refused calls in between
	mon::group("history", mon::count(120), [](mon::Rng &r, long i) {
		vector<Scene> ss;
		for (int k = 0; k < 3; k++) ss.push_back(scene(r, 40, 2));
		std::string hist;
		for (int k = 0; k < 60; k++) {
			const auto &s = ss[r.below(3)];
			const auto &o = s[r.below(s.size())];
			if (r.chance(1, 8)) {
				try { gm::LazyKey(std::string(r.below(63), 'x')).transform(1, 1); } catch (const std::exception &) {}
				try { gk::Key(std::string(r.below(63), 'q')).encrypt(make_shared<gk::BlkRaw>())->value(); } catch (const std::exception &) {}
				mon::event("refused calls in between");
			}
			mon::note(o.name);
			check(o, o.run(), "after " + hist.substr(hist.size() > 120 ? hist.size() - 120 : 0));
			hist += o.name + "; ";
			mon::event("operations");
		}
		mon::seen(mon::hash_str(hist));
		if (i < 3) mon::sample("history: " + hist.substr(0, 300));
	});
	// Other locales, C and C++; other environment
	mon::group("locale", mon::count(80), [](mon::Rng &r, long i) {
		const std::locale old;
		const std::string cold = setlocale(LC_ALL, nullptr);
		struct Back { const std::locale &l; const std::string &c; ~Back() { std::locale::global(l); setlocale(LC_ALL, c.c_str()); } } back{old, cold};
		std::locale odd(std::locale::classic(), new Odd);
		if (i % 2) odd = std::locale(odd, new Upper);
		Scene s;
		std::string what = i % 2 ? "a locale with grouping and odd letters" : "a locale with grouping";
		const u64 seed = r.u();
		if (r.chance(1, 2)) { mon::Rng q(seed); s = scene(q, 40, 2); std::locale::global(odd); }
		else {
			// the reference side formats with snprintf only, so objects may be built under the locale as well
			std::locale::global(odd);
			mon::Rng q(seed);
			s = scene(q, 40, 2);
			what += " (objects built under it)";
		}
		// the C library's: of the machine, and eight-bit and multibyte ones made for this check
		const char *tries[] = {"C.UTF-8", "de_DE.ISO-8859-1", "ru_RU.KOI8-R", "tr_TR.ISO-8859-9", "ja_JP.EUC-JP", "zh_CN.GB18030", "hi_IN.UTF-8", "fr_FR.UTF-8"};
		const std::string name = tries[i / 2 % 8];
		if (setlocale(LC_ALL, name.c_str())) { mon::event("C locale " + name); what += ", C locale " + name; }
		if (r.chance(1, 3)) try { std::locale::global(std::locale(name)); mon::event("C++ locale " + name); } catch (const std::runtime_error &) {}
		for (const auto &o : s) { mon::note(o.name); const Bytes got = o.run(); MON_REQUIRE(got == o.want, "locale:" + o.name, "under " + what + ": " + o.name + " gives another result"); mon::event("operations under another locale"); }
		mon::seen(seed);
	});
	// Another thread than the one that built the objects, one after the other
	mon::group("threads", mon::count(80), [](mon::Rng &r, long) {
		const u64 seed = r.u();
		Scene s;
		if (r.chance(1, 2)) { std::thread t([&] { mon::Rng q(seed); s = scene(q, 30, 2); for (size_t k = 0; k < s.size(); k += 2) s[k].run(); }); t.join(); }
		else { mon::Rng q(seed); s = scene(q, 30, 2); }
		for (int k = 0; k < 3; k++) {
			vector<Bytes> got(s.size());
			std::string err;
			std::thread t([&] { try { for (size_t j = 0; j < s.size(); j++) got[j] = s[j].run(); } catch (const std::exception &e) { err = e.what(); } });
			t.join();
			MON_REQUIRE(err.empty(), "thread", "on another thread: " << err);
			for (size_t j = 0; j < s.size(); j++) check(s[j], got[j], "on another thread");
			mon::event("operations on another thread", s.size());
		}
		run_all(s, "back on the main thread");
		mon::seen(seed);
	});
	// What surrounds the call: errno, rounding, a pending exception, environment variables
	mon::group("surroundings", mon::count(120), [](mon::Rng &r, long) {
		const u64 seed = r.u();
		mon::Rng q(seed);
		const auto s = scene(q, 40, 2);
		struct Back { int round = fegetround(); ~Back() { fesetround(round); feclearexcept(FE_ALL_EXCEPT); unsetenv("GOOST_KEY"); unsetenv("POSIXLY_CORRECT"); unsetenv("TZ"); errno = 0; } } back;
		const int rounds[] = {FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO, FE_TONEAREST};
		const int errs[] = {ERANGE, EINVAL, EDOM, EILSEQ, ENOMEM, EINTR, EAGAIN, EOVERFLOW};
		fesetround(rounds[r.below(4)]);
		feraiseexcept(r.chance(1, 2) ? FE_OVERFLOW | FE_INEXACT : FE_INVALID);
		setenv("POSIXLY_CORRECT", "1", 1); setenv("TZ", "Asia/Kathmandu", 1);
		for (const auto &o : s) {
			mon::note(o.name);
			const int e = errs[r.below(8)];
			const auto ctx = "with errno " + std::to_string(e) + ", another rounding mode";
			const auto run = [&] { errno = e; return o.run(); };
			check(o, run(), ctx);
			// while an exception is handled, and while one is in flight
			try { throw std::runtime_error("unrelated"); } catch (const std::exception &) { check(o, run(), ctx + ", in a handler"); }
			Bytes got;
			std::string err;
			try {
				struct Last { std::function<void()> f; ~Last() { f(); } } last{[&] { try { got = run(); } catch (const std::exception &x) { err = x.what(); } }};
				throw std::runtime_error("unrelated");
			} catch (const std::runtime_error &) {}
			MON_REQUIRE(err.empty(), "unwinding", o.name << " while the stack is unwound throws " << err);
			check(o, got, ctx + ", while the stack is unwound");
			mon::event("operations in odd surroundings", 3);
		}
		mon::seen(seed);
	});
	// Environment, clocks, process and machine answer whatever they like
	mon::group("odd answers", mon::count(160), [](mon::Rng &r, long i) {
		const u64 seed = r.u();
		mon::Rng q(seed);
		const auto built = [&] { return i % 8 == 7 ? scene(q, 5000, 24) : scene(q, 40, 2); };
		Scene s;
		Capture cap;
		if (i % 2) { ambient::Odd o(r.u()); s = built(); } else s = built();
		const int times = i % 8 == 7 ? 1 : 3;
		for (int k = 0; k < times; k++) for (const auto &o : s) {
			mon::note(o.name);
			Bytes got;
			{ ambient::Odd odd(r.u()); got = o.run(); }
			check(o, got, "with odd answers from environment, clock and machine");
			mon::event("operations with odd answers of the system");
		}
		const long wrote = cap.done();
		MON_REQUIRE(wrote == 0, "output", wrote << " bytes were written to standard output or error with odd answers from the environment");
		mon::seen(seed);
	});
	// Silence and process-wide state
	mon::group("ambient", mon::count(120), [](mon::Rng &r, long i) {
		const u64 seed = r.u();
		const unsigned rs = unsigned(r.below(1u << 30));
		srand(rs); srand48(long(rs));
		int want[3]; long w48 = 0;
		for (auto &x : want) x = rand();
		w48 = lrand48();
		const Own own(r);
		const std::string before = state();
		long wrote;
		{
			Capture cap;
			srand(rs); srand48(long(rs));
			std::string refusal;
			{
				mon::Rng q(seed);
				const bool big = i % 10 == 9;
				const auto s = scene(q, big ? 5000 : 40, big ? 24 : 2);
				for (const auto &o : s) { mon::note(o.name); check(o, o.run(), "ambient"); mon::event("operations"); }
				for (const auto &bad : {std::string("zz"), std::string(63, '1'), std::string(64, 'g')}) {
					try { gm::LazyKey(bad).transform(1, 2); } catch (const std::exception &) { mon::event("refused calls"); }
					try { gk::Key(bad).encrypt(make_shared<gk::BlkRaw>())->value(); } catch (const std::exception &) { mon::event("refused calls"); }
				}
			}
			wrote = cap.done();
		}
		MON_REQUIRE(wrote == 0, "output", wrote << " bytes were written to standard output or error");
		int got[3];
		for (auto &x : got) x = rand();
		MON_REQUIRE(got[0] == want[0] && got[1] == want[1] && got[2] == want[2] && lrand48() == w48, "random", "the process-wide random sequence was advanced");
		const std::string after = state();
		MON_REQUIRE(before == after, "state", "process-wide state changed from [" << before << "] to [" << after << "]");
		mon::event("state snapshots compared");
		mon::seen(seed);
	});
	// Equal arguments, separately built
	mon::group("arguments", mon::count(60), [](mon::Rng &r, long) {
		// equal arguments in separately built objects give equal results; unequal IVs do not interfere
		const u64 seed = r.u();
		mon::Rng a(seed), b(seed);
		const auto x = scene(a, 60, 3), y = scene(b, 60, 3);
		vector<size_t> o(x.size());
		for (size_t k = 0; k < o.size(); k++) o[k] = k;
		for (size_t k = o.size(); k > 1; k--) std::swap(o[k - 1], o[r.below(k)]);
		for (const auto k : o) { mon::note(x[k].name); check(x[k], x[k].run(), "first build"); check(y[k], y[k].run(), "second build"); mon::event("operations", 2); }
		mon::seen(seed);
	});
}
#include "main.hpp"
