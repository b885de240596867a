// Reference model of block tensors: structure kept as plain vectors, content as one dense torch tensor.
#pragma once
#include "blockTensor/btensor.h"
#include "core.h"
#include "torchseam.h"
#include <algorithm>
#include <numeric>

namespace bt
{
using namespace sim;
using quantit::any_quantity;
using quantit::any_quantity_cref;
using quantit::btensor;
namespace conserved = quantit::conserved;
using IL = std::vector<int64_t>;
using Charge = std::vector<int>;

// ---- groups: moduli of each component, 0 = integers
struct Group
{
	int kind = 0;
	std::vector<int> mod() const
	{
		switch (kind)
		{
		case 0: return {0};
		case 1: return {2};
		case 2: return {5};
		case 3: return {2, 0};
		case 4: return {0, 0};
		default: return {3, 0, 2};
		}
	}
	Charge norm(Charge c) const
	{
		auto m = mod();
		for (size_t i = 0; i < c.size(); ++i)
			if (m[i]) c[i] = ((c[i] % m[i]) + m[i]) % m[i];
		return c;
	}
	Charge zero() const { return Charge(mod().size(), 0); }
	Charge add(const Charge &a, const Charge &b) const
	{
		Charge c = a;
		for (size_t i = 0; i < c.size(); ++i) c[i] += b[i];
		return norm(c);
	}
	Charge neg(const Charge &a) const
	{
		Charge c = a;
		for (auto &x : c) x = -x;
		return norm(c);
	}
	Charge sub(const Charge &a, const Charge &b) const { return add(a, neg(b)); }
	Charge random(Rng &r, int span = 1) const
	{
		Charge c;
		for (int m : mod()) c.push_back(m ? (int)r.below(m) : (int)r.range(-span, span));
		return c;
	}
	any_quantity lib(const Charge &c0) const
	{
		using namespace conserved;
		Charge c = norm(c0);
		switch (kind)
		{
		case 0: return any_quantity(Z(c[0]));
		case 1: return any_quantity(C<2>(c[0]));
		case 2: return any_quantity(C<5>(c[0]));
		case 3: return any_quantity(C<2>(c[0]), Z(c[1]));
		case 4: return any_quantity(Z(c[0]), Z(c[1]));
		default: return any_quantity(C<3>(c[0]), Z(c[1]), C<2>(c[2]));
		}
	}
};
inline std::string str(const Charge &c)
{
	std::string s = "(";
	for (int x : c) s += std::to_string(x) + ",";
	s.back() = ')';
	return s;
}
inline std::string str(const IL &c)
{
	std::string s = "[";
	for (auto x : c) s += std::to_string(x) + ",";
	if (c.empty()) s += "]";
	else s.back() = ']';
	return s;
}

struct MT
{
	Group g;
	std::vector<IL> sz;
	std::vector<std::vector<Charge>> q;
	Charge rule;
	at::Tensor d; // dense content
	int64_t rank() const { return (int64_t)sz.size(); }
	at::ScalarType dtype() const { return d.scalar_type(); }
	int64_t dim(size_t i) const { return std::accumulate(sz[i].begin(), sz[i].end(), int64_t(0)); }
	IL dims() const
	{
		IL o;
		for (size_t i = 0; i < sz.size(); ++i) o.push_back(dim(i));
		return o;
	}
	int64_t numel() const
	{
		int64_t n = 1;
		for (size_t i = 0; i < sz.size(); ++i) n *= dim(i);
		return n;
	}
	int64_t nsec(size_t i) const { return (int64_t)sz[i].size(); }
	int64_t nblocks() const
	{
		int64_t n = 1;
		for (auto &s : sz) n *= (int64_t)s.size();
		return n;
	}
	bool singleton(size_t i) const { return sz[i].size() == 1 && sz[i][0] == 1; }
	int64_t off(size_t i, int64_t s) const { return std::accumulate(sz[i].begin(), sz[i].begin() + s, int64_t(0)); }
	IL unflat(int64_t f) const // row major block index
	{
		IL o(sz.size());
		for (size_t i = sz.size(); i-- > 0;)
		{
			o[i] = f % nsec(i);
			f /= nsec(i);
		}
		return o;
	}
	Charge qsum(const IL &b) const
	{
		Charge c = g.zero();
		for (size_t i = 0; i < b.size(); ++i) c = g.add(c, q[i][b[i]]);
		return c;
	}
	bool allowed(const IL &b) const { return qsum(b) == g.norm(rule); }
	IL bsize(const IL &b) const
	{
		IL o;
		for (size_t i = 0; i < b.size(); ++i) o.push_back(sz[i][b[i]]);
		return o;
	}
	at::Tensor view(const at::Tensor &t, const IL &b) const
	{
		at::Tensor v = t;
		for (size_t i = 0; i < b.size(); ++i) v = v.narrow(i, off(i, b[i]), sz[i][b[i]]);
		return v;
	}
	at::Tensor mask() const
	{
		auto m = torch::zeros(dims(), torch::kDouble);
		for (int64_t f = 0, n = nblocks(); f < n; ++f)
		{
			auto b = unflat(f);
			if (allowed(b)) view(m, b).fill_(1);
		}
		return m;
	}
	std::vector<IL> allowed_blocks() const
	{
		std::vector<IL> o;
		for (int64_t f = 0, n = nblocks(); f < n; ++f)
		{
			auto b = unflat(f);
			if (allowed(b)) o.push_back(b);
		}
		return o;
	}
	btensor::vec_list_t spec() const
	{
		btensor::vec_list_t l;
		for (size_t i = 0; i < sz.size(); ++i)
		{
			std::vector<std::tuple<size_t, any_quantity>> v;
			for (size_t s = 0; s < sz[i].size(); ++s) v.emplace_back(size_t(sz[i][s]), g.lib(q[i][s]));
			l.push_back(std::move(v));
		}
		return l;
	}
	bool same_structure(const MT &o) const { return g.kind == o.g.kind && sz == o.sz && q == o.q && g.norm(rule) == g.norm(o.rule); }
	std::string desc() const
	{
		std::string s;
		for (size_t i = 0; i < sz.size(); ++i)
		{
			s += "{";
			for (size_t k = 0; k < sz[i].size(); ++k) s += std::to_string(sz[i][k]) + str(q[i][k]);
			s += "}";
		}
		return s + " rule" + str(rule);
	}
};

// structural soundness of a real tensor against the model; empty string: sound
inline std::string structure(const btensor &b, const MT &m, bool libcheck = true)
{
	Quiet quiet;
	if (b.dim() != m.rank()) return "rank " + std::to_string(b.dim()) + " instead of " + std::to_string(m.rank());
	if ((int64_t)b.section_numbers().size() != m.rank()) return "section_numbers() has the wrong length";
	size_t nq = 0;
	for (size_t i = 0; i < m.sz.size(); ++i)
	{
		if ((int64_t)b.section_number(i) != m.nsec(i)) return "dimension " + std::to_string(i) + " has " + std::to_string(b.section_number(i)) + " sections instead of " + std::to_string(m.nsec(i));
		nq += m.sz[i].size();
	}
	if (b.get_cvals().size() != nq) return "number of conserved quantities is " + std::to_string(b.get_cvals().size()) + " instead of " + std::to_string(nq);
	for (size_t i = 0; i < m.sz.size(); ++i)
	{
		auto [s0, s1, q0, q1] = b.section_sizes_cqtts(i);
		if (std::distance(s0, s1) != m.nsec(i)) return "section_sizes_cqtts length";
		for (size_t k = 0; k < m.sz[i].size(); ++k, ++s0, ++q0)
		{
			if (*s0 != m.sz[i][k]) return "dimension " + std::to_string(i) + " section " + std::to_string(k) + " has size " + std::to_string(*s0) + " instead of " + std::to_string(m.sz[i][k]);
			if (!(any_quantity(*q0) == m.g.lib(m.q[i][k]))) return "dimension " + std::to_string(i) + " section " + std::to_string(k) + " does not carry the quantity " + str(m.q[i][k]);
		}
	}
	if (!(any_quantity(static_cast<const quantit::vquantity &>(b.selection_rule)) == m.g.lib(m.rule))) return "selection rule is not " + str(m.rule);
	const IL *prev = nullptr;
	for (auto &kv : b.blocks())
	{
		auto &ix = kv.first;
		if ((int64_t)ix.size() != m.rank()) return "block index of wrong length " + str(ix);
		for (size_t i = 0; i < ix.size(); ++i)
			if (ix[i] < 0 || ix[i] >= m.nsec(i)) return "block index outside of the section grid " + str(ix);
		if (prev && !(*prev < ix)) return "block list not strictly ordered at " + str(ix);
		prev = &ix;
		if (!m.allowed(ix)) return "block " + str(ix) + " is forbidden by the selection rule";
		if (!kv.second.defined()) return "block " + str(ix) + " is an undefined tensor";
		if (kv.second.sizes() != m.bsize(ix)) return "block " + str(ix) + " has sizes " + str(kv.second.sizes().vec()) + " instead of " + str(m.bsize(ix));
	}
	if (libcheck)
	{
		auto s = btensor::check_tensor(b);
		if (!s.empty()) return "check_tensor: " + s;
	}
	return "";
}
// dense content assembled by the harness (requires a sound structure)
inline at::Tensor dense(const btensor &b, const MT &m, at::ScalarType dt)
{
	Quiet quiet;
	auto o = torch::zeros(m.dims(), dt);
	for (auto &kv : b.blocks()) m.view(o, kv.first).copy_(kv.second);
	return o;
}
inline btensor deep(const btensor &b)
{
	Quiet quiet;
	btensor o = b;
	for (auto &kv : o) kv.second = kv.second.clone();
	return o;
}
inline double maxabs(const at::Tensor &t)
{
	if (t.numel() == 0) return 0;
	return t.abs().to(torch::kDouble).max().item().toDouble();
}
// do two dense tensors agree up to rounding?
inline bool close(const at::Tensor &a, const at::Tensor &b, double rtol)
{
	Quiet quiet;
	if (a.sizes() != b.sizes()) return false;
	if (a.numel() == 0) return true;
	auto x = a.to(torch::kComplexDouble), y = b.to(torch::kComplexDouble);
	double s = std::max(maxabs(x), maxabs(y));
	double e = maxabs(x - y);
	return e <= rtol * std::max(1e-3, s) || (e != e && torch::equal(torch::isnan(torch::real(x)), torch::isnan(torch::real(y))));
}
inline double tol_of(at::ScalarType t) { return t == at::kFloat || t == at::kComplexFloat ? 2e-4 : 1e-9; }
inline std::string show(const at::Tensor &t)
{
	Quiet quiet;
	auto f = t.to(torch::kComplexDouble).flatten();
	std::string s = "[";
	for (int64_t i = 0; i < std::min<int64_t>(f.numel(), 12); ++i)
	{
		auto z = c10::complex<double>(torch::real(f[i]).item().toDouble(), torch::imag(f[i]).item().toDouble());
		s += fmtd(z.real()) + (z.imag() != 0 ? "+" + fmtd(z.imag()) + "i" : "") + " ";
	}
	return s + (f.numel() > 12 ? "...]" : "]");
}
// bit pattern of every block, to see whether a tensor changed
inline u64 bits(const btensor &b)
{
	Quiet quiet;
	u64 h = 7;
	for (auto &kv : b.blocks())
	{
		for (auto x : kv.first) h = mix64(h ^ u64(x));
		if (!kv.second.defined()) { h = mix64(h ^ 0xABCDEF); continue; }
		auto c = kv.second.is_conj() ? kv.second.resolve_conj().contiguous() : kv.second.contiguous();
		h = mix64(h ^ u64(c.scalar_type()) ^ (u64(c.numel()) << 8));
		auto *p = (const unsigned char *)c.data_ptr();
		size_t n = c.nbytes();
		for (size_t i = 0; i < n; ++i) h = (h ^ p[i]) * 1099511628211ull;
	}
	return mix64(h);
}
// everything a caller can observe of a tensor: structure, element type, content
inline u64 observe(const btensor &b, bool values = true)
{
	Quiet quiet;
	u64 h = 11;
	for (int64_t i = 0; i < b.dim(); ++i)
	{
		auto [s0, s1, q0, q1] = b.section_sizes_cqtts(i);
		for (; s0 != s1; ++s0) h = mix64(h ^ u64(*s0));
		h = mix64(h ^ 0x55);
	}
	h = mix64(h ^ u64(c10::typeMetaToScalarType(b.options().dtype())));
	if (values) return mix64(h ^ bits(b));
	for (auto &kv : b.blocks())
	{
		for (auto x : kv.first) h = mix64(h ^ u64(x));
		h = mix64(h ^ (kv.second.defined() ? u64(kv.second.scalar_type()) : 77));
	}
	return h;
}
inline u64 observe(const at::Tensor &t)
{
	Quiet quiet;
	if (!t.defined()) return 3;
	auto c = t.resolve_conj().contiguous();
	u64 h = mix64(u64(c.scalar_type()));
	for (auto x : c.sizes()) h = mix64(h ^ u64(x));
	auto *p = (const unsigned char *)c.data_ptr();
	for (size_t i = 0, n = c.nbytes(); i < n; ++i) h = (h ^ p[i]) * 1099511628211ull;
	return mix64(h);
}
inline u64 observe(long x) { return mix64(u64(x)); }
inline bool shares(const btensor &a, const btensor &b)
{
	for (auto &x : a.blocks())
		for (auto &y : b.blocks())
			if (x.second.defined() && y.second.defined() && x.second.numel() && y.second.numel() && x.second.storage().data() == y.second.storage().data()) return true;
	return false;
}
inline at::Tensor random_dense(Rng &r, const IL &dims, at::ScalarType dt, int span = 3, double pzero = 0.1)
{
	Quiet quiet;
	int64_t n = 1;
	for (auto x : dims) n *= x;
	auto t = torch::zeros({n, 2}, torch::kDouble);
	auto *p = t.data_ptr<double>();
	bool cplx = at::isComplexType(dt);
	for (int64_t i = 0; i < n; ++i)
	{
		if (r.chance(pzero)) continue;
		p[2 * i] = double(r.range(-span, span));
		if (cplx) p[2 * i + 1] = double(r.range(-span, span));
	}
	auto c = torch::view_as_complex(t);
	return (cplx ? c : torch::real(c)).to(dt).reshape(dims).clone();
}
// random structure
inline MT random_structure(Rng &r, Group g, int rank, int maxsec, int maxsize)
{
	MT m;
	m.g = g;
	for (int i = 0; i < rank; ++i)
	{
		int ns = r.chance(0.12) ? 1 : (int)r.range(1, maxsec);
		IL s;
		std::vector<Charge> q;
		bool single = ns == 1 && r.chance(0.5);
		for (int k = 0; k < ns; ++k)
		{
			s.push_back(single ? 1 : r.range(1, maxsize));
			q.push_back(g.random(r));
		}
		m.sz.push_back(s);
		m.q.push_back(q);
	}
	if (m.nblocks() > 0 && r.chance(0.9)) m.rule = m.qsum(m.unflat(r.below(m.nblocks())));
	else m.rule = g.random(r);
	if (r.chance(0.4)) m.rule = g.zero();
	return m;
}
// fill a structure with random blocks; both the model's content and the real tensor
inline btensor random_fill(Rng &r, MT &m, at::ScalarType dt, double pstore, int span = 3, double pzero = 0.1)
{
	Quiet quiet;
	m.d = torch::zeros(m.dims(), dt);
	btensor b(m.spec(), m.g.lib(m.rule), torch::TensorOptions().dtype(dt));
	auto bl = m.allowed_blocks();
	for (size_t i = bl.size(); i > 1; --i) std::swap(bl[i - 1], bl[r.below(i)]);
	for (auto &ix : bl)
	{
		if (!r.chance(pstore)) continue;
		auto t = random_dense(r, m.bsize(ix), dt, span, r.chance(0.05) ? 1.0 : pzero);
		m.view(m.d, ix).copy_(t);
		if (ix.size() >= 2 && r.chance(0.25)) t = t.transpose(0, ix.size() - 1).contiguous().transpose(0, ix.size() - 1); // non contiguous storage
		b.block(ix) = t;
	}
	return b;
}
} // namespace bt
