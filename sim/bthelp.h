// Structure and content of block tensors without a model of them.
#pragma once
#include "btmodel.h"
namespace bt
{
struct SpecLeg
{
	IL sz;
	std::vector<any_quantity> q;
};
inline SpecLeg leg_of(const btensor &b, size_t i)
{
	SpecLeg l;
	auto [s0, s1, q0, q1] = b.section_sizes_cqtts(i);
	for (; s0 != s1; ++s0, ++q0)
	{
		l.sz.push_back(*s0);
		l.q.emplace_back(*q0);
	}
	return l;
}
// dense content of a block tensor whose structure was found sound (no model needed)
inline at::Tensor assemble(const btensor &b, at::ScalarType dt)
{
	Quiet quiet;
	std::vector<SpecLeg> L;
	IL dims;
	for (int64_t i = 0; i < b.dim(); ++i)
	{
		L.push_back(leg_of(b, i));
		dims.push_back(std::accumulate(L[i].sz.begin(), L[i].sz.end(), int64_t(0)));
	}
	auto o = torch::zeros(dims, dt);
	for (auto &kv : b.blocks())
	{
		auto v = o;
		for (size_t i = 0; i < kv.first.size(); ++i)
		{
			auto off = std::accumulate(L[i].sz.begin(), L[i].sz.begin() + kv.first[i], int64_t(0));
			v = v.narrow(i, off, L[i].sz[kv.first[i]]);
		}
		v.copy_(kv.second);
	}
	return o;
}
// structural soundness without a model
inline std::string sound(const btensor &b)
{
	Quiet quiet;
	std::vector<SpecLeg> L;
	for (int64_t i = 0; i < b.dim(); ++i) L.push_back(leg_of(b, i));
	const IL *prev = nullptr;
	any_quantity rule(static_cast<const quantit::vquantity &>(b.selection_rule));
	for (auto &kv : b.blocks())
	{
		if ((int64_t)kv.first.size() != b.dim()) return "block index of wrong length " + str(kv.first);
		if (prev && !(*prev < kv.first)) return "block list not strictly ordered at " + str(kv.first);
		prev = &kv.first;
		any_quantity t = rule.neutral();
		IL want;
		for (size_t i = 0; i < kv.first.size(); ++i)
		{
			if (kv.first[i] < 0 || kv.first[i] >= (int64_t)L[i].sz.size()) return "block index outside of the section grid " + str(kv.first);
			t = t * L[i].q[kv.first[i]];
			want.push_back(L[i].sz[kv.first[i]]);
		}
		if (!kv.second.defined()) return "block " + str(kv.first) + " is an undefined tensor";
		if (kv.second.sizes() != want) return "block " + str(kv.first) + " has sizes " + str(kv.second.sizes().vec()) + " instead of " + str(want);
		if (t != rule) return "block " + str(kv.first) + " is forbidden by the selection rule";
	}
	auto s = btensor::check_tensor(b);
	return s.empty() ? "" : "check_tensor: " + s;
}
inline std::string same_leg(const SpecLeg &a, const SpecLeg &b, bool inv)
{
	if (a.sz != b.sz) return "section sizes " + str(a.sz) + " instead of " + str(b.sz);
	for (size_t i = 0; i < a.q.size(); ++i)
		if (a.q[i] != (inv ? any_quantity(b.q[i].inverse()) : b.q[i])) return "wrong conserved quantity on section " + std::to_string(i);
	return "";
}
inline double eps_of(at::ScalarType t) { return t == at::kFloat || t == at::kComplexFloat ? 3e-5 : 1e-11; }
inline at::ScalarType type_of(const btensor &t) { return c10::typeMetaToScalarType(t.options().dtype()); }
inline at::ScalarType real_of(at::ScalarType t) { return t == at::kComplexFloat ? at::kFloat : t == at::kComplexDouble ? at::kDouble : t; }
inline at::ScalarType wide(at::ScalarType t) { return at::isComplexType(t) ? at::kComplexDouble : at::kDouble; }
} // namespace bt
