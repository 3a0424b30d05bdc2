// The two CFB variants behind one face.
#pragma once
#include "mg.hpp"
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
namespace cfbv {
using namespace mg;
struct Var {
	bool m;            // true: GOST R 34.13 with a register of two blocks
	vector<u64> iv;
	std::string what;
};
inline Var var(mon::Rng &r) {
	Var v;
	v.m = r.chance(1, 2);
	v.iv.push_back(gen::word(r));
	if (v.m) v.iv.push_back(r.chance(1, 8) ? v.iv[0] : gen::word(r));
	v.what = (v.m ? "34.13 CFB iv " : "28147-89 CFB iv ") + mon::hex(v.iv[0]) + (v.m ? "," + mon::hex(v.iv[1]) : "");
	return v;
}
inline shared_ptr<const goost::Sink> sink(const Var &v, const shared_ptr<const goost::Sink> &under, const shared_ptr<const gm::Key> &k) {
	if (v.m) return make_shared<gm::CFBSink>(under, k, v.iv[0], v.iv[1]);
	return make_shared<goost::gost89::CFBSink>(under, k, v.iv[0]);
}
inline shared_ptr<const goost::Source> source(const Var &v, const shared_ptr<const goost::Source> &under, const shared_ptr<const gm::Key> &k) {
	if (v.m) return make_shared<gm::CFBSource>(under, k, v.iv[0], v.iv[1]);
	return make_shared<goost::gost89::CFBSource>(under, k, v.iv[0]);
}
inline Bytes enc(const Var &v, const Magma &c, const Bytes &m) { return cfb(c, v.iv, m, false); }
inline Bytes dec(const Var &v, const Magma &c, const Bytes &m) { return cfb(c, v.iv, m, true); }
// A plaintext whose ciphertext is t (CFB is invertible in that direction too)
inline size_t first_diff(const Bytes &a, const Bytes &b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; return i; }
}  // namespace cfbv
