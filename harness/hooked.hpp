// Caller-side implementations whose every call passes a hook first: delays, faults, counters.
#pragma once
#include "cfb.hpp"
#include "kz.hpp"
#include <ios>
#include <new>
#include <stdexcept>
#include <goost/magma/Container.h>
#include <goost/magma/KeyCachedData.h>

namespace hk {
using namespace mg;
enum Point { P_SBOX, P_KEYDATA, P_KEY, P_BLOCK, P_SOURCE, P_SINK_WRITE, P_SINK_FINAL, P_KBLOCK, P_KDATA, P_ITER, P_NEXT, P_IVALUE, P_IMETA, P_CONTAINER, P_TAB, P_COUNT };
inline const char *point_name(int p) {
	static const char *n[] = {"sbox", "key data", "key", "block", "source read", "sink write", "sink finalize", "wide block", "wide key data", "stream iter", "iterator next", "iterator value", "iterator last/size", "container", "table"};
	return n[p];
}
// Injected faults
struct Injected { long n; explicit Injected(long n) : n(n) {} };
struct Bare : Injected { using Injected::Injected; };              // not a std::exception
template <class E> struct As : E, Injected { explicit As(long n) : E("injected"), Injected(n) {} };
using Boom = As<std::runtime_error>;
struct Mem : std::bad_alloc, Injected { using Injected::Injected; };
constexpr int fault_kinds = 8;
[[noreturn]] inline void fail(int kind, long n) {
	switch (kind) {
	case 0: throw Bare(n);
	case 1: throw Mem(n);
	case 2: throw As<std::invalid_argument>(n);
	case 3: throw As<std::out_of_range>(n);
	case 4: throw As<std::logic_error>(n);
	case 5: throw As<std::ios_base::failure>(n);
	case 6: throw As<std::length_error>(n);
	default: throw Boom(n);
	}
}
// Set before the workload starts, cleared after it ends.
inline void (*hook)(int) = nullptr;
inline void at(int p) { if (hook) hook(p); }

class HSbox final : public gm::Sbox {
	const OwnSbox s;
public:
	explicit HSbox(const Rows &r) : s(r) {}
	uint32_t transform(uint32_t v) const override { at(P_SBOX); return s.transform(v); }
};
// A plain (not rotated) table of the caller's, for the library to rotate
class HPlain final : public gm::Sbox {
	const Rows rows;
public:
	explicit HPlain(const Rows &r) : rows(r) {}
	uint32_t transform(uint32_t v) const override { at(P_SBOX); u32 t = 0; for (int i = 0; i < 8; i++) t |= u32(rows[size_t(i)][(v >> (4 * i)) & 15]) << (4 * i); return t; }
};
class HTab final : public gm::SboxByte::Tab {
	const std::array<u8, 16> lo, hi;
public:
	HTab(const std::array<u8, 16> &lo, const std::array<u8, 16> &hi) : lo(lo), hi(hi) {}
	uint32_t translate(int i) const override { at(P_TAB); return u32(lo[size_t(i) & 15]) | u32(hi[(size_t(i) >> 4) & 15]) << 4; }
};
inline std::unique_ptr<gm::SboxByte> own_tabs(const Rows &r) {
	return std::make_unique<gm::SboxByte>(std::make_unique<HTab>(r[0], r[1]), std::make_unique<HTab>(r[2], r[3]), std::make_unique<HTab>(r[4], r[5]), std::make_unique<HTab>(r[6], r[7]));
}
class HKeyData final : public gm::KeyData {
	const std::array<u32, 8> k;
public:
	explicit HKeyData(const std::array<u32, 8> &k) : k(k) {}
	uint32_t key(int i) const override { at(P_KEYDATA); return k.at(size_t(i)); }
};
class HKey final : public gm::Key {
	const Magma c;
public:
	explicit HKey(const Magma &c) : c(c) {}
	uint32_t transform(uint32_t v, int i) const override { at(P_KEY); return c.g(v, c.k.at(size_t(i))); }
};
class HBlock final : public gm::Block {
	const u64 v;
public:
	explicit HBlock(u64 v) : v(v) {}
	mg::Pair value() const override { at(P_BLOCK); return {u32(v), u32(v >> 32)}; }
};
class HSource final : public goost::Source {
	const shared_ptr<const Bytes> d; const size_t pos;
public:
	HSource(shared_ptr<const Bytes> d, size_t p) : d(std::move(d)), pos(p) {}
	explicit HSource(const Bytes &b) : HSource(make_shared<const Bytes>(b), 0) {}
	pair<vector<byte>, shared_ptr<const goost::Source>> read(size_t size) const override {
		at(P_SOURCE);
		const size_t n = std::min(size, d->size() - pos);
		vector<byte> r(n);
		for (size_t i = 0; i < n; i++) r[i] = byte((*d)[pos + i]);
		return {r, make_shared<HSource>(d, pos + n)};
	}
};
class HSink final : public goost::Sink {
	const shared_ptr<const goost::Sink> s;
public:
	explicit HSink(shared_ptr<const goost::Sink> s) : s(std::move(s)) {}
	HSink() : s(make_shared<RecSink>()) {}
	shared_ptr<const goost::Sink> write(const vector<byte> &d) const override { at(P_SINK_WRITE); return make_shared<HSink>(s->write(d)); }
	shared_ptr<const goost::Sink> finalize() const override { at(P_SINK_FINAL); return s; }
	Bytes bytes() const { return recorded(s); }
};
inline Bytes hbytes(const shared_ptr<const goost::Sink> &s) {
	const auto *p = dynamic_cast<const HSink *>(s.get());
	if (!p) mon::fail("finalize-type", "finalize did not return the underlying sink");
	return p->bytes();
}
class HContainer final : public gm::Container {
	const Magma c;
public:
	explicit HContainer(const Magma &c) : c(c) {}
	vector<byte> key() const override { at(P_CONTAINER); vector<byte> r; for (const auto w : c.k) for (int i = 3; i >= 0; i--) r.push_back(byte(w >> (8 * i))); return r; }
	vector<byte> mask() const override { at(P_CONTAINER); return vector<byte>(32); }
	vector<byte> sbox() const override { at(P_CONTAINER); return tob(packed_from_rows(c.rows)); }
};

class KBlock final : public kz::gk::Block {
	const u128 v;
public:
	explicit KBlock(u128 v) : v(v) {}
	kz::Pair value() const override { at(P_KBLOCK); return kz::pr(v); }
};
class KData final : public kz::gk::Key::Data {
	const u128 k1, k2;
public:
	KData(u128 a, u128 b) : k1(a), k2(b) {}
	shared_ptr<const kz::gk::Block> low() const override { at(P_KDATA); return make_shared<KBlock>(k2); }
	shared_ptr<const kz::gk::Block> high() const override { at(P_KDATA); return make_shared<KBlock>(k1); }
};
class KIter final : public kz::gk::Iterator {
	const shared_ptr<const vector<u128>> d; const size_t i, tail;
public:
	KIter(shared_ptr<const vector<u128>> d, size_t i, size_t tail) : d(std::move(d)), i(i), tail(tail) {}
	kz::Pair value() const override { at(P_IVALUE); return kz::pr((*d)[i]); }
	bool last() const override { at(P_IMETA); return i + 1 == d->size(); }
	size_t size() const override { at(P_IMETA); return i + 1 == d->size() ? tail : 16; }
	shared_ptr<const kz::gk::Iterator> next() const override { at(P_NEXT); if (i + 1 == d->size()) return {}; return make_shared<KIter>(d, i + 1, tail); }
};
class KStream final : public kz::gk::Stream {
	const shared_ptr<const vector<u128>> d; const size_t tail;
public:
	explicit KStream(const vector<u128> &v, size_t tail = 16) : d(make_shared<const vector<u128>>(v)), tail(tail) {}
	shared_ptr<const kz::gk::Iterator> iter() const override { at(P_ITER); if (d->empty()) return {}; return make_shared<KIter>(d, 0, tail); }
};
}  // namespace hk
