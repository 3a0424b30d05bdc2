// C19: every form of the same key, and any implementation of the abstract types, is equivalent.
#include "scene.hpp"
using namespace sc;

// A table the caller composes from library pieces, a counting key over another key, and so on.
class WrapKey final : public gm::Key {
	const shared_ptr<const gm::Key> k;
public:
	explicit WrapKey(shared_ptr<const gm::Key> k) : k(std::move(k)) {}
	uint32_t transform(uint32_t v, int i) const override { return k->transform(v, i); }
};
// Key material the caller derives on the fly, e.g. unmasking
class MaskedData final : public gm::KeyData {
	const std::array<u32, 8> m, k;
	static std::array<u32, 8> mix(const std::array<u32, 8> &a, const std::array<u32, 8> &b) { auto r = a; for (size_t i = 0; i < 8; i++) r[i] ^= b[i]; return r; }
public:
	MaskedData(const std::array<u32, 8> &key, const std::array<u32, 8> &mask) : m(mask), k(mix(key, mask)) {}
	uint32_t key(int i) const override { return k.at(size_t(i)) ^ m.at(size_t(i)); }
};
// A table that rotates itself
class RotSbox final : public gm::Sbox {
	const std::unique_ptr<const gm::Sbox> s;
public:
	explicit RotSbox(std::unique_ptr<const gm::Sbox> s) : s(std::move(s)) {}
	uint32_t transform(uint32_t v) const override { const u32 t = s->transform(v); return (t << 11) | (t >> 21); }
};
// A sink collecting into a shared log, one copy of the log per sink value
class ListSink final : public goost::Sink {
	const vector<vector<byte>> w; const bool fin;
public:
	explicit ListSink(vector<vector<byte>> w = {}, bool f = false) : w(std::move(w)), fin(f) {}
	shared_ptr<const goost::Sink> write(const vector<byte> &d) const override { auto n = w; n.push_back(d); return make_shared<ListSink>(n, fin); }
	shared_ptr<const goost::Sink> finalize() const override { return make_shared<ListSink>(w, true); }
	Bytes all() const { Bytes r; for (const auto &c : w) { const auto b = fromb(c); r.insert(r.end(), b.begin(), b.end()); } return r; }
};
// A source that makes its bytes up as it goes
class FnSource final : public goost::Source {
	const u64 seed; const size_t pos, n;
public:
	FnSource(u64 s, size_t p, size_t n) : seed(s), pos(p), n(n) {}
	static u8 at(u64 s, size_t i) { return u8(mon::mix64(s + i)); }
	pair<vector<byte>, shared_ptr<const goost::Source>> read(size_t size) const override {
		const size_t c = std::min(size, n - pos);
		vector<byte> r;
		for (size_t i = 0; i < c; i++) r.push_back(byte(at(seed, pos + i)));
		return {std::move(r), make_shared<FnSource>(seed, pos + c, n)};
	}
};
class FnContainer final : public gm::Container {
	const Bytes k, t;
	const vector<byte> msk;
public:
	FnContainer(Bytes k, Bytes t, vector<byte> m) : k(std::move(k)), t(std::move(t)), msk(std::move(m)) {}
	vector<byte> key() const override { return tob(k); }
	vector<byte> mask() const override { return msk; }
	vector<byte> sbox() const override { return tob(t); }
};
struct Form { std::string name; shared_ptr<const gm::Key> key; shared_ptr<const gm::LazyKey> lazy; };

static vector<Form> forms(mon::Rng &r, const Magma &c) {
	vector<Form> f;
	auto add = [&](const std::string &n, shared_ptr<const gm::LazyKey> k) { f.push_back({n, k, k}); };
	const auto low = gen::key_text(c.k), up = gen::key_text(c.k, true), mix = gen::mixed_case(r, low);
	const vector<u32> nat(c.k.begin(), c.k.end());
	auto sb = [&] { return sbox(c.rows, int(r.below(4))); };
	add("lower-case text", make_shared<gm::LazyKey>(low, sb()));
	add("upper-case text", make_shared<gm::LazyKey>(up, sb()));
	add("mixed-case text", make_shared<gm::LazyKey>(mix, sb()));
	if (c.rows == rows3412()) {
		add("lower-case text, default table", make_shared<gm::LazyKey>(low));
		add("mixed-case text, default table", make_shared<gm::LazyKey>(mix));
	}
	add("native words", make_shared<gm::LazyKey>(nat, sb()));
	add("text key data", make_shared<gm::LazyKey>(std::make_unique<gm::KeyDataString>(mix), sb()));
	add("cached text key data", make_shared<gm::LazyKey>(std::make_unique<gm::KeyCachedData>(std::make_unique<gm::KeyDataString>(mix)), sb()));
	add("native key data", make_shared<gm::LazyKey>(std::make_unique<gm::KeyDataNative>(nat), sb()));
	add("cached native key data", make_shared<gm::LazyKey>(std::make_unique<gm::KeyCachedData>(std::make_unique<gm::KeyDataNative>(nat)), sb()));
	add("own key data", make_shared<gm::LazyKey>(std::make_unique<OwnKeyData>(c.k), sb()));
	std::array<u32, 8> mask;
	for (auto &m : mask) m = gen::word32(r);
	add("masked own key data", make_shared<gm::LazyKey>(std::make_unique<MaskedData>(c.k, mask), sb()));
	add("cached own key data", make_shared<gm::LazyKey>(std::make_unique<gm::KeyCachedData>(std::make_unique<MaskedData>(c.k, mask)), sb()));
	add("twice cached key data", make_shared<gm::LazyKey>(std::make_unique<gm::KeyCachedData>(std::make_unique<gm::KeyCachedData>(std::make_unique<OwnKeyData>(c.k))), sb()));
	add("own rotating table", make_shared<gm::LazyKey>(nat, make_shared<RotSbox>(nibble(c.rows))));
	add("own table tabs", make_shared<gm::LazyKey>(nat, make_shared<gm::SboxTwisted>(own_tabs(c.rows))));
	f.push_back({"own key class", make_shared<OwnKey>(c), {}});
	f.push_back({"own key class around a library key", make_shared<WrapKey>(f[r.below(f.size() - 1)].key), {}});
	return f;
}
static void same(const Form &f, const std::string &mode, const Bytes &got, const Bytes &want, const Magma &c) {
	mon::event("compared: " + mode);
	MON_REQUIRE(got == want, "form", "key " << gen::key_text(c.k) << " given as " << f.name << ": " << mode << " gives " << mon::hexb(got.data(), got.size()) << " expected " << mon::hexb(want.data(), want.size()));
}
static Bytes listed(const shared_ptr<const goost::Sink> &s) {
	const auto *p = dynamic_cast<const ListSink *>(s.get());
	MON_REQUIRE(p, "own-sink", "a mode did not give back the caller's own sink");
	return p->all();
}
static void checks() {
	mon::group("magma key forms", mon::count(1500), [](mon::Rng &r, long) {
		Magma c;
		c.k = gen::key(r);
		if (r.chance(1, 3)) { const char *d[] = {"abcdef00", "0a0b0c0d", "00000001", "fedcba98", "deadbeef", "80000000", "0000000f", "e0000000"}; for (auto &w : c.k) w = u32(strtoul(d[r.below(8)], nullptr, 16)); }
		c.rows = gen::rows(r);
		const auto fs = forms(r, c);
		const u64 seed = r.u();
		const size_t n = r.chance(1, 32) ? gen::about(r, int(4 + r.below(8))) : r.below(50), n8 = n / 8 * 8;
		Bytes msg(n), al;
		for (size_t i = 0; i < n; i++) msg[i] = FnSource::at(seed, i);
		al.assign(msg.begin(), msg.begin() + long(n8));
		const u64 v = gen::word(r);
		cfbv::Var va, vb;
		va.m = false; va.iv = {gen::word(r)}; vb.m = true; vb.iv = {gen::word(r), gen::word(r)};
		for (const auto &f : fs) {
			mon::note(f.name);
			mon::seen(mon::hash_str(f.name + gen::key_text(c.k)));
			if (r.chance(1, 2)) for (int i = 7; i >= 0; i--) {
				const u32 x = gen::word32(r);
				same(f, "key transform", b64(f.key->transform(x, i)), b64(c.g(x, c.k[size_t(i)])), c);
			}
			same(f, "block encryption", b64(gm::BlkEncrypted(make_shared<OwnBlock>(v), f.key).value()), b64(c.enc(v)), c);
			same(f, "block decryption", b64(gm::BlkDecrypted(make_shared<OwnBlock>(v), f.key).value()), b64(c.dec(v)), c);
			same(f, "encryption base", b64(gm::EncryptionBase(f.key).transform(v)), b64(c.enc(v)), c);
			for (const auto &var : {va, vb}) {
				same(f, var.m ? "34.13 CFB sink" : "28147 CFB sink", listed(cfbv::sink(var, make_shared<ListSink>(), f.key)->write(tob(msg))->finalize()), cfbv::enc(var, c, msg), c);
				same(f, var.m ? "34.13 CFB source" : "28147 CFB source", read_to_end(cfbv::source(var, make_shared<FnSource>(seed, 0, n), f.key), 1 + r.below(30)), cfbv::dec(var, c, msg), c);
			}
			same(f, "ECB sink", listed(gm::ECBSink(make_shared<ListSink>(), f.key).write(tob(al))->finalize()), ecb_enc(c, al), c);
			same(f, "ECB source", read_to_end(make_shared<gm::ECBSource>(make_shared<FnSource>(seed, 0, n8), f.key), 8 + r.below(40)), ecb_dec(c, al), c);
			if (f.lazy) {
				if (n8) same(f, "Magma MAC", b64(gm::Imit(make_shared<FnSource>(seed, 0, n8), f.lazy).value()), b64(magma_mac_full(c, al)), c);
				same(f, "28147 MAC", g89::DataImit(msg, f.lazy).value(), imit89(c, msg), c);
				same(f, "16 rounds", b64(g89::ImitedBlock(gm::BlkRaw(v), f.lazy).value().value()), b64(c.rounds16(v)), c);
			}
		}
		{	// a container, whatever its mask says
			const Form f{"container", {}, {}};
			Bytes kb;
			for (const auto w : c.k) for (int i = 3; i >= 0; i--) kb.push_back(u8(w >> (8 * i)));
			const auto cont = make_shared<FnContainer>(kb, packed_from_rows(c.rows), vector<byte>(32));
			same(f, "ECB source by container", read_to_end(make_shared<gm::ECBSource>(make_shared<FnSource>(seed, 0, n8), cont), 8 + r.below(40)), ecb_dec(c, al), c);
		}
		mon::sample("key " + gen::key_text(c.k) + " in " + std::to_string(fs.size()) + " forms, message of " + std::to_string(n) + " bytes: all modes agree");
	});
	// Different texts that are alike to the usual cheap checksums are still different keys
	mon::group("texts alike", mon::count(600), [](mon::Rng &r, long i) {
		const auto digit = [](int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); };
		const bool k = i % 4 == 3;
		vector<std::string> ts{k ? gen::mixed_case(r, gen::kkey_text(gen::kkey(r))) : gen::mixed_case(r, gen::key_text(gen::key(r)))};
		for (int t = 0; t < 400 && ts.size() < 6; t++) {
			// x[a] grows by d and x[b] shrinks by d * m: one sum (m = 1), one polynomial of base m
			static const int ms[] = {1, 1, 31, 33, 37, 17, 3, 5, 7, 13, 16, 2, 4, 8};
			std::string x = ts[r.below(ts.size())];
			const int m = ms[r.below(14)], d = int(r.range(1, 8)) * (r.chance(1, 2) ? 1 : -1);
			size_t a = r.below(x.size() - 1), b = a + 1;
			if (m == 1) b = r.below(x.size());
			if (a == b || !digit(x[a] + d) || !digit(x[b] - d * m)) continue;
			x[a] = char(x[a] + d); x[b] = char(x[b] - d * m);
			ts.push_back(x);
		}
		for (int t = 0; t < 8; t++) {
			const auto &x = ts[size_t(t) < ts.size() ? size_t(t) : r.below(ts.size())];
			mon::note(x);
			if (k) {
				const auto w = [&x](size_t p) { return u64(std::stoull(x.substr(p, 16), nullptr, 16)); };
				const Kuz ref(u128(w(0)) << 64 | w(16), u128(w(32)) << 64 | w(48));
				const u128 v = u128(gen::word(r)) << 64 | gen::word(r);
				const auto got = gk::BlkEncrypted(make_shared<gk::BlkRaw>(u64(v), u64(v >> 64)), make_shared<gk::Key>(x)).value();
				const u128 want = ref.enc(v);
				MON_REQUIRE(got.first == u64(want) && got.second == u64(want >> 64), "text-alike", "Kuznyechik key text " << x << " after others like it encrypts wrongly");
			} else {
				Magma c;
				for (size_t j = 0; j < 8; j++) c.k[j] = u32(std::stoul(x.substr(8 * j, 8), nullptr, 16));
				c.rows = rows3412();
				const u64 v = gen::word(r);
				const auto got = gm::BlkEncrypted(make_shared<gm::BlkRaw>(v), make_shared<gm::LazyKey>(x)).value();
				MON_REQUIRE(b64(got) == b64(c.enc(v)), "text-alike", "Magma key text " << x << " after others like it encrypts wrongly");
			}
			mon::event("key texts alike to cheap checksums");
			mon::seen(mon::hash_str(x));
		}
	});
	// Key data seen directly: every index, any order, repeatedly
	mon::group("key data", mon::count(3000), [](mon::Rng &r, long) {
		const auto k = gen::key(r);
		const auto t = gen::mixed_case(r, gen::key_text(k));
		const vector<u32> nat(k.begin(), k.end());
		vector<std::pair<std::string, std::unique_ptr<const gm::KeyData>>> d;
		d.emplace_back("text", std::make_unique<gm::KeyDataString>(t));
		d.emplace_back("native", std::make_unique<gm::KeyDataNative>(nat));
		d.emplace_back("cached text", std::make_unique<gm::KeyCachedData>(std::make_unique<gm::KeyDataString>(t)));
		d.emplace_back("cached native", std::make_unique<gm::KeyCachedData>(std::make_unique<gm::KeyDataNative>(nat)));
		d.emplace_back("cached own", std::make_unique<gm::KeyCachedData>(std::make_unique<OwnKeyData>(k)));
		for (int i = 0; i < 20; i++) {
			const int x = int(r.below(8));
			for (const auto &p : d) {
				mon::event("key words compared");
				const u32 got = p.second->key(x);
				MON_REQUIRE(got == k[size_t(x)], "key-data", p.first << " key data of " << t << ": word " << x << " is " << mon::hex(got, 8));
			}
		}
		mon::seen(mon::hash_str(t));
	});
	mon::group("kuznyechik key forms", mon::count(250), [](mon::Rng &r, long) {
		const auto kk = gen::kkey(r);
		const Kuz c(kk.k1, kk.k2);
		const auto t = gen::kkey_text(kk);
		auto up = t;
		for (auto &x : up) x = char(toupper(x));
		class WrapData final : public gk::Key::Data {
			const gk::KeyDataString d;
		public:
			explicit WrapData(const std::string &s) : d(s) {}
			shared_ptr<const gk::Block> low() const override { return make_shared<gk::BlkCached>(d.low()); }
			shared_ptr<const gk::Block> high() const override { return make_shared<gk::BlkXored>(d.high(), make_shared<gk::BlkRaw>()); }
		};
		const vector<std::pair<std::string, shared_ptr<const gk::Key>>> fs = {
			{"lower-case text", make_shared<gk::Key>(t)},
			{"upper-case text", make_shared<gk::Key>(up)},
			{"mixed-case text", make_shared<gk::Key>(gen::mixed_case(r, t))},
			{"text key data", make_shared<gk::Key>(make_shared<gk::KeyDataString>(gen::mixed_case(r, t)))},
			{"own key data", make_shared<gk::Key>(make_shared<kz::OwnData>(kk.k1, kk.k2))},
			{"own key data around text", make_shared<gk::Key>(make_shared<WrapData>(t))},
		};
		vector<u128> bl(1 + r.below(3));
		for (auto &b : bl) b = gen::wide(r);
		const u64 iv = gen::word(r);
		const auto w = kz::words(bl);
		for (const auto &f : fs) {
			const shared_ptr<const gk::Stream> st = r.chance(1, 2) ? shared_ptr<const gk::Stream>(make_shared<kz::OwnStream>(bl)) : shared_ptr<const gk::Stream>(make_shared<gk::StMemory>(w));
			auto same = [&](const std::string &mode, const Bytes &got, const Bytes &want) {
				mon::event("compared: " + mode);
				MON_REQUIRE(got == want, "kuz-form", "key " << t << " given as " << f.first << ": " << mode << " gives " << mon::hexb(got.data(), got.size()) << " expected " << mon::hexb(want.data(), want.size()));
			};
			mon::seen(mon::hash_str(f.first + t));
			same("wide block", b128(f.second->encrypt(make_shared<kz::OwnBlock>(bl[0]))->value()), b128(c.enc(bl[0])));
			same("wide block object", b128(gk::BlkEncrypted(make_shared<kz::OwnBlock>(bl[0]), f.second).value()), b128(c.enc(bl[0])));
			same("Kuznyechik MAC", b128(gk::Imit(st, f.second).value()), b128(kuz_mac(c, bl, 16)));
			same("CTR", walk(gk::StCTREncrypted(st, f.second, iv).iter()), walk_want(bl, 0, 16, [&](size_t i, u128 x) { return x ^ c.enc(ctr_block(iv, i)); }));
		}
	});
	mon::group("kuznyechik key data", mon::count(2000), [](mon::Rng &r, long) {
		const auto kk = gen::kkey(r);
		const auto t = gen::mixed_case(r, gen::kkey_text(kk));
		const gk::KeyDataString d(t);
		for (int i = 0; i < 2; i++) {
			mon::event("wide key halves compared", 2);
			MON_REQUIRE(kz::val(d.high()->value()) == kk.k1 && kz::val(d.low()->value()) == kk.k2, "kuz-key-data", "key " << t << ": halves " << hex128(kz::val(d.high()->value())) << " " << hex128(kz::val(d.low()->value())));
		}
		mon::seen(mon::hash_str(t));
	});
}
#include "main.hpp"
