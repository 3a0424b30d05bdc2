// Caller-side implementations of goost's abstract interfaces, all persistent (immutable) values.
#pragma once
#include <functional>
#include <memory>
#include <vector>
#include <goost/Sink.h>
#include <goost/Source.h>
#include "gen.hpp"

namespace parts {
using namespace ref;
using std::byte; using std::shared_ptr; using std::make_shared; using std::vector; using std::pair;

inline vector<byte> tob(const Bytes &b, size_t from = 0, size_t n = ~size_t(0)) {
	if (from > b.size()) from = b.size();
	if (n > b.size() - from) n = b.size() - from;
	vector<byte> r(n);
	for (size_t i = 0; i < n; i++) r[i] = byte(b[from + i]);
	return r;
}
inline Bytes fromb(const vector<byte> &b) { Bytes r(b.size()); for (size_t i = 0; i < b.size(); i++) r[i] = std::to_integer<u8>(b[i]); return r; }

// Recording sink: a persistent list of chunks, so that forks share their prefix.
class RecSink final : public goost::Sink {
	struct Node { shared_ptr<Node> prev; vector<byte> chunk; size_t total;
		Node(shared_ptr<Node> p, const vector<byte> &c) : prev(std::move(p)), chunk(c), total((prev ? prev->total : 0) + c.size()) {}
		~Node() { auto p = std::move(prev); while (p && p.use_count() == 1) { auto q = std::move(p->prev); p = std::move(q); } } };
	const shared_ptr<Node> tail;
public:
	explicit RecSink(shared_ptr<Node> t = {}) : tail(std::move(t)) {}
	shared_ptr<const goost::Sink> write(const vector<byte> &data) const override { return make_shared<RecSink>(make_shared<Node>(tail, data)); }
	shared_ptr<const goost::Sink> finalize() const override { return make_shared<RecSink>(tail); }
	size_t size() const { return tail ? tail->total : 0; }
	Bytes bytes() const {
		Bytes r(size());
		size_t e = r.size();
		for (const Node *n = tail.get(); n; n = n->prev.get()) {
			e -= n->chunk.size();
			for (size_t i = 0; i < n->chunk.size(); i++) r[e + i] = std::to_integer<u8>(n->chunk[i]);
		}
		return r;
	}
	size_t writes() const { size_t c = 0; for (const Node *n = tail.get(); n; n = n->prev.get()) c++; return c; }
};
inline const RecSink &rec(const shared_ptr<const goost::Sink> &s) {
	const auto *p = dynamic_cast<const RecSink *>(s.get());
	if (!p) mon::fail("finalize-type", "finalize did not return the underlying sink");
	return *p;
}
inline Bytes recorded(const shared_ptr<const goost::Sink> &s) { return rec(s).bytes(); }

// Memory source: returns min(size, remaining) bytes.
class MemSource final : public goost::Source {
	const shared_ptr<const Bytes> data; const size_t pos;
public:
	MemSource(shared_ptr<const Bytes> d, size_t p) : data(std::move(d)), pos(p) {}
	explicit MemSource(const Bytes &b) : MemSource(make_shared<const Bytes>(b), 0) {}
	pair<vector<byte>, shared_ptr<const goost::Source>> read(size_t size) const override {
		const size_t n = std::min(size, data->size() - pos);
		vector<byte> r(n);
		for (size_t i = 0; i < n; i++) r[i] = byte((*data)[pos + i]);
		return {r, make_shared<MemSource>(data, pos + n)};
	}
};

template <class S>
shared_ptr<const goost::Sink> write_split(shared_ptr<const S> first, const Bytes &m, const vector<size_t> &sizes) {
	shared_ptr<const goost::Sink> s = first;
	size_t p = 0;
	for (const auto n : sizes) { s = s->write(tob(m, p, n)); p += n; }
	return s;
}

}  // namespace parts
