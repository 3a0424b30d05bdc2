// C15: malformed keys, tables, containers and block texts are refused, never used.
#include "scene.hpp"
#include "main.hpp"
#include <climits>

using namespace sc;

// The operation must throw, and must throw again when tried again.
static void refused(const std::string &what, const std::function<void()> &f) {
	mon::note(what);
	for (int k = 0; k < 2; k++) {
		bool threw = false;
		try { f(); } catch (const std::exception &) { threw = true; }
		MON_REQUIRE(threw, "accepted", what << " was accepted" << (k ? " when tried again" : ""));
		mon::event("refusals");
	}
	mon::seen(mon::hash_str(what));
}
static std::string show(const std::string &s) { return mon::hexb(s.data(), s.size(), 80); }
static const char *digits = "0123456789abcdefABCDEF";
static char bad_char(mon::Rng &r) {
	static const char special[] = {' ', '\t', '\n', '-', '+', 'x', 'X', 'g', 'G', '.', ',', '/', ':', '@', '`', '_', 0, 'h', 'o', char(0xff), char(0x80), 'z', '\''};
	char c;
	do c = r.chance(2, 3) ? special[r.below(sizeof special)] : char(r.below(256)); while (c && strchr(digits, c));
	return c;
}
static void magma_text_refused(const std::string &t, const std::string &what) {
	const auto whole = [](const gm::Key &k) { for (int i = 0; i < 8; i++) k.transform(1, i); };
	refused("28147 key text " + what + " in LazyKey", [&] { whole(gm::LazyKey(t)); });
	refused("28147 key text " + what + " in LazyKey with a table", [&] { whole(gm::LazyKey(t, sbox(rows3412(), 0))); });
	refused("28147 key text " + what + " when encrypting", [&] { gm::BlkEncrypted(make_shared<gm::BlkRaw>(1, 2), make_shared<gm::LazyKey>(t)).value(); });
	refused("28147 key text " + what + " in KeyDataString", [&] { const gm::KeyDataString k(t); for (int i = 0; i < 8; i++) k.key(i); });
	// one cached key object: refused on every use, nothing kept of the failed one
	std::unique_ptr<const gm::LazyKey> k;
	try { k = std::make_unique<const gm::LazyKey>(t); } catch (const std::exception &) { mon::event("refusals"); }
	if (k) refused("28147 key text " + what + " in one key object", [&] { whole(*k); });
	// never used: not even for a word that could be read
	for (int i = 0; i < 8; i++) {
		refused(mon::Msg() << "word " << i << " of 28147 key text " << what, [&] { gm::KeyDataString(t).key(i); });
		if (i == 0 || i == 7) refused(mon::Msg() << "step " << i << " of 28147 key text " << what, [&] { gm::LazyKey(t).transform(1, i); });
	}
	refused("28147 key text " + what + " in CFB", [&] { const auto s = make_shared<g89::CFBSink>(make_shared<RecSink>(), make_shared<gm::LazyKey>(t), 1); s->write(vector<byte>(8)); });
}
static void kuz_text_refused(const std::string &t, const std::string &what) {
	refused("34.12 key text " + what, [&] { gk::Key(t).encrypt(make_shared<gk::BlkRaw>(1))->value(); });
	refused("34.12 key text " + what + " in KeyDataString", [&] { const gk::KeyDataString k(t); k.high()->value(); k.low()->value(); });
}
class OddContainer final : public gm::Container {
	const vector<byte> k, s;
public:
	OddContainer(size_t k, size_t s) : k(k, byte(0x11)), s(s, byte(0x22)) {}
	vector<byte> key() const override { return k; }
	vector<byte> mask() const override { return vector<byte>(32); }
	vector<byte> sbox() const override { return s; }
};
static void checks() {
	mon::group("key-length", 140, [](mon::Rng &r, long i) {
		if (i == 64) return;
		std::string t;
		while (long(t.size()) < i) t += digits[r.below(22)];
		magma_text_refused(t, "of " + std::to_string(i) + " digits");
		kuz_text_refused(t, "of " + std::to_string(i) + " digits");
	});
	mon::group("key-length-far", mon::count(40), [](mon::Rng &r, long) {
		static const size_t far[] = {128, 192, 256, 320, 64 + 256, 64 + 65536, 1024, 4096, 63 * 2, 65 * 2};
		const size_t n = r.chance(1, 2) ? far[r.below(10)] : 141 + r.below(2000);
		std::string t;
		while (t.size() < n) t += digits[r.below(22)];
		magma_text_refused(t, "of " + std::to_string(n) + " digits");
		kuz_text_refused(t, "of " + std::to_string(n) + " digits");
	});
	mon::group("key-digit", mon::count(700), [](mon::Rng &r, long i) {
		std::string t;
		while (t.size() < 64) t += digits[r.below(22)];
		const size_t p = size_t(i % 64);
		const char c = bad_char(r);
		t[p] = c;
		const std::string what = mon::Msg() << show(t) << " (character " << int(u8(c)) << " at " << p << ")";
		if (i < 2) mon::sample(what);
		magma_text_refused(t, what);
		kuz_text_refused(t, what);
		refused("word with character " + std::to_string(int(u8(c))) + " at " + std::to_string(p), [&] { gm::KeyDataString(t).key(int(p / 8)); });
	});
	mon::group("key-all-characters", 256, [](mon::Rng &r, long i) {
		const char c = char(i);
		if (c && strchr(digits, c)) return;
		std::string t;
		while (t.size() < 64) t += digits[r.below(22)];
		for (const size_t p : {size_t(0), size_t(7), size_t(8), size_t(31), size_t(32), size_t(63), size_t(r.below(64))}) {
			auto x = t; x[p] = c;
			magma_text_refused(x, mon::Msg() << "with character " << i << " at " << p);
			kuz_text_refused(x, mon::Msg() << "with character " << i << " at " << p);
		}
	});
	mon::group("key-shapes", 1, [](mon::Rng &, long) {
		const std::string h(32, 'a');
		const std::string z(64, 'a');
		for (const auto &t : {"0x" + std::string(62, '1'), "0x" + std::string(64, '1'), " " + std::string(63, '1'), std::string(63, '1') + " ", std::string(63, '1') + "\n", std::string(32, '1') + std::string(32, ' '), std::string(64, ' '), "-" + std::string(63, '1'),
				"{" + std::string(62, '1') + "}", std::string(31, '1') + "-" + std::string(32, '1'), std::string(32, '1') + "-" + std::string(32, '1'), z + " ", " " + z, z + std::string(1, '\0'), z + "\n", z + "\r", z + "\r\n", "\n" + z, z + "\t", z + ";", "x" + z, "+" + z, "-" + z, "0" + z, z + "0", z + "00", "\"" + z + "\"", h + " " + h, h + "\n" + h, h + h.substr(0, 31), h + h.substr(0, 30) + "\n", std::string(64, '\0'), h + std::string(1, '\0') + std::string(31, 'b')}) {
			magma_text_refused(t, show(t));
			kuz_text_refused(t, show(t));
		}
	});
	mon::group("native-size", 41, [](mon::Rng &r, long i) {
		if (i == 8) return;
		const vector<u32> k(static_cast<size_t>(i), u32(r.u()));
		const auto what = "native key of " + std::to_string(i) + " words";
		refused(what, [&] { gm::BlkEncrypted(make_shared<gm::BlkRaw>(1, 2), make_shared<gm::LazyKey>(k, sbox(rows3412(), 3))).value(); });
		refused(what + " cached", [&] { gm::BlkEncrypted(make_shared<gm::BlkRaw>(1, 2), make_shared<gm::LazyKey>(std::make_unique<gm::KeyCachedData>(std::make_unique<gm::KeyDataNative>(k)), sbox(rows3412(), 3))).value(); });
		refused(what + " decrypting", [&] { gm::BlkDecrypted(make_shared<gm::BlkRaw>(1, 2), make_shared<gm::LazyKey>(k, sbox(rows3412(), 3))).value(); });
		refused(what + " in KeyDataNative", [&] { const gm::KeyDataNative d(k); for (int n = 0; n < 8; n++) d.key(n); });
		for (int n = 0; n < 8; n++) {
			refused(what + ", word " + std::to_string(n), [&] { gm::KeyDataNative(k).key(n); });
			refused(what + ", step " + std::to_string(n), [&] { gm::LazyKey(k, sbox(rows3412(), 3)).transform(1, n); });
			refused(what + ", cached word " + std::to_string(n), [&] { gm::KeyCachedData(std::make_unique<gm::KeyDataNative>(k)).key(n); });
		}
	});
	mon::group("key-index", mon::count(400), [](mon::Rng &r, long i) {
		static const int fixed[] = {-1, 8, 9, INT_MIN, INT_MAX, -8, 16, 255, 256, -256, 0x10000, 0x10000000, 0x20000000, 0x40000000, -2, 31, 63, 64, 1000};
		int x = i < 19 ? fixed[i] : int(u32(r.u()));
		if (x >= 0 && x < 8) x = 8 + x;
		Magma c;
		c.k = gen::key(r); c.rows = gen::rows(r);
		const vector<u32> nat(c.k.begin(), c.k.end());
		const auto what = "key index " + std::to_string(x);
		refused(what + " of KeyDataString", [&] { gm::KeyDataString(gen::key_text(c.k)).key(x); });
		refused(what + " of KeyDataNative", [&] { gm::KeyDataNative(nat).key(x); });
		const gm::KeyCachedData cached(std::make_unique<OwnKeyData>(c.k));
		refused(what + " of a fresh KeyCachedData", [&] { gm::KeyCachedData(std::make_unique<OwnKeyData>(c.k)).key(x); });
		MON_REQUIRE(cached.key(3) == c.k[3], "cached", "cached key word differs");
		refused(what + " of a used KeyCachedData", [&] { cached.key(x); });
		refused(what + " of LazyKey (text)", [&] { gm::LazyKey(gen::key_text(c.k)).transform(1, x); });
		refused(what + " of LazyKey (native)", [&] { gm::LazyKey(nat, sbox(c.rows, 0)).transform(1, x); });
	});
	mon::group("container", 160, [](mon::Rng &r, long i) {
		size_t k = 32, s = 64;
		if (i < 80) k = size_t(i); else s = size_t(i - 80);
		if (i >= 150) { k = 33 + r.below(300); s = r.chance(1, 2) ? 64 : 65 + r.below(300); }
		if (i < 80 && k == 32) return;
		if (i >= 80 && i < 150 && s == 64) return;
		refused(mon::Msg() << "container with a key of " << k << " and a table of " << s << " bytes", [&] {
			gm::ECBSource(make_shared<MemSource>(Bytes(16, 3)), make_shared<OddContainer>(k, s)).read(8);
		});
	});
	mon::group("container-multiples", 40, [](mon::Rng &, long i) {
		static const size_t table[] = {16, 32, 65, 68, 96, 127, 128, 129, 192, 256, 320, 512, 576, 1024, 4096, 4160, 65536, 65600, 0, 63};
		static const size_t key[] = {8, 16, 24, 31, 33, 40, 48, 64, 96, 128, 256, 288, 512, 1024, 4096, 65536, 65568, 0, 1, 34};
		const size_t k = i < 20 ? 32 : key[i - 20], s = i < 20 ? table[i] : 64;
		refused(mon::Msg() << "container with a key of " << k << " and a table of " << s << " bytes", [&] {
			gm::ECBSource(make_shared<MemSource>(Bytes(16, 3)), make_shared<OddContainer>(k, s)).read(8);
		});
	});
	mon::group("container-far", 16, [](mon::Rng &r, long i) {
		const size_t n = i % 2 ? 64 : 32;
		refused("container with swapped or multiple sizes", [&] {
			gm::ECBSource(make_shared<MemSource>(Bytes(16, 3)), make_shared<OddContainer>(i < 4 ? 64 : 32 * (2 + r.below(9)), n)).read(8);
		});
	});
	mon::group("nibble-rows", mon::count(600), [](mon::Rng &r, long i) {
		vector<vector<int>> v(8);
		const auto rows = gen::rows(r);
		for (size_t k = 0; k < 8; k++) v[k].assign(rows[k].begin(), rows[k].end());
		const size_t row = size_t(i % 8), len = r.below(16);
		v[row].resize(len);
		const u32 idx = u32(len + r.below(16 - len));                        // a missing entry
		const u32 w = (u32(r.u()) & ~(15u << (4 * row))) | idx << (4 * row);
		const auto make = [&] { return std::make_unique<gm::SboxNibble>(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]); };
		refused(mon::Msg() << "row " << row << " of " << len << " entries at " << idx, [&] { make()->transform(w); });
		refused(mon::Msg() << "twisted row " << row << " of " << len << " entries at " << idx, [&] { gm::SboxTwisted(make()).transform(w); });
		refused(mon::Msg() << "key over row " << row << " of " << len << " entries at " << idx, [&] { gm::LazyKey(vector<u32>(8), make_shared<gm::SboxTwisted>(make())).transform(w, 0); });
	});
	mon::group("packed-table", mon::count(600), [](mon::Rng &r, long i) {
		const size_t len = i < 64 ? size_t(i) : r.below(64);
		const Bytes t = gen::content(r, len);
		// a word whose byte j looks up entry n with 4n+j >= len
		const size_t j = r.below(4);
		size_t n = len > j ? (len - j + 3) / 4 : 0;
		if (n > 15) return;
		n += r.below(16 - n);
		const u32 nib = u32(n) << (r.chance(1, 2) ? 4 : 0);
		const u32 w = (u32(r.u()) & ~(0xffu << (8 * j))) | nib << (8 * j);
		// the other nibble of that byte is 0; it may be missing too
		refused(mon::Msg() << "packed table of " << len << " bytes, byte " << j << " entry " << n, [&] { gm::SboxByte(t).transform(w); });
		refused(mon::Msg() << "table part of " << len << " bytes, offset " << j << " entry " << n, [&] { gm::SboxByte64Tab(t, int(j)).translate(int(nib)); });
	});
	mon::group("block-length", 140, [](mon::Rng &r, long i) {
		std::string t;
		while (long(t.size()) < i) t += digits[r.below(22)];
		if (i > 16) refused("64-bit block text of " + std::to_string(i) + " digits", [&] { gm::BlkString(t).value(); });
		if (i > 32) refused("128-bit block text of " + std::to_string(i) + " digits", [&] { gk::BlkString(t).value(); });
		if (i > 16) refused("64-bit block text of " + std::to_string(i) + " zeros", [&] { gm::BlkString(std::string(size_t(i), '0')).value(); });
		if (i > 32) refused("128-bit block text of " + std::to_string(i) + " zeros", [&] { gk::BlkString(std::string(size_t(i), '0')).value(); });
	});
	mon::group("block-digit", mon::count(1200), [](mon::Rng &r, long) {
		for (const bool wide : {false, true}) {
			const size_t n = 1 + r.below(wide ? 32 : 16);
			std::string t;
			while (t.size() < n) t += digits[r.below(22)];
			const size_t p = r.below(n);
			const char c = bad_char(r);
			t[p] = c;
			if (wide) refused("128-bit block text " + show(t), [&] { gk::BlkString(t).value(); });
			else refused("64-bit block text " + show(t), [&] { gm::BlkString(t).value(); });
		}
	});
	mon::group("block-shapes", 1, [](mon::Rng &, long) {
		for (const std::string t : {"0x1", "0X1", "-1", "+1", " 1", "1 ", "x", "1.", "0x", "1\n", "0x12345678", "12345678 9abcdef", "12345678-9abcde", "\t1"}) {
			refused("64-bit block text " + show(t), [&] { gm::BlkString(t).value(); });
			refused("128-bit block text " + show(t), [&] { gk::BlkString(t).value(); });
		}
		refused("128-bit text with a space between halves", [&] { gk::BlkString("0123456789abcde 0123456789abcdef").value(); });
	});
	mon::group("short-bytes", 8, [](mon::Rng &, long i) {
		refused("block of " + std::to_string(i) + " bytes", [&] { gm::BlkRaw(Bytes(size_t(i), 7)).value(); });
	});
	// well-formed neighbours are still accepted
	mon::group("accepted", mon::count(300), [](mon::Rng &r, long) {
		const auto c = mg::cipher(r);
		const u64 v = gen::word(r);
		MON_REQUIRE(val(gm::BlkEncrypted(make_shared<gm::BlkRaw>(v), c.key).value()) == c.ref.enc(v), "well-formed", c.what << " gives a wrong block");
		Bytes p; put64(p, v);
		MON_REQUIRE(fromb(gm::ECBSource(make_shared<MemSource>(p), make_shared<HContainer>(c.ref)).read(8).first) == ecb_dec(c.ref, p), "well-formed", c.what << " as a container gives a wrong block");
		const std::string t = mon::hex(v);
		MON_REQUIRE(val(gm::BlkString(t).value()) == v, "well-formed", t << " is not read as a block");
		mon::event("well-formed accepted");
	});
}
