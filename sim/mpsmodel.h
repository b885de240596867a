// Dense reference of tensor trains, used by the workloads about states and operators.
#pragma once
#include "MPT.h"
#include "bthelp.h"
namespace bt
{
using quantit::bMPO;
using quantit::bMPS;
using quantit::bMPT;
using quantit::MPO;
using quantit::MPS;
using quantit::MPT;

inline at::Tensor wide_site(const at::Tensor &t) { return t.to(wide(t.scalar_type())); }
inline at::ScalarType site_type(const at::Tensor &t) { return t.scalar_type(); }
inline at::ScalarType site_type(const btensor &t) { return c10::typeMetaToScalarType(t.options().dtype()); }
inline at::Tensor wide_site(const btensor &t)
{
	auto dt = site_type(t);
	return assemble(t, wide(dt));
}
// complex double contraction of a train of rank 3 tensors: [left edge, d1..dL, right edge]
inline at::Tensor contract_sites(const std::vector<at::Tensor> &s)
{
	Quiet q;
	at::Tensor o;
	for (auto &t : s)
	{
		auto w = t.to(torch::kComplexDouble);
		o = o.defined() ? torch::tensordot(o, w, {o.dim() - 1}, {0}) : w;
	}
	return o;
}
template <class S>
std::vector<at::Tensor> sites_of(const S &s)
{
	Quiet q;
	std::vector<at::Tensor> o;
	for (auto &t : s) o.push_back(wide_site(t));
	return o;
}
template <class S>
at::Tensor full_state(const S &s)
{
	return contract_sites(sites_of(s));
}
template <class S>
double abs_scale(const S &s)
{
	Quiet q;
	// the decompositions mix the values of a bond: their rounding is relative to the norms of the sites, not to the
	// sum of the absolute values of the products.
	double x = 1;
	for (auto &t : sites_of(s)) x *= std::sqrt(t.to(torch::kComplexDouble).abs().pow(2).sum().item().toDouble());
	return std::max(x, 1e-280);
}
// operator as [left edge, out1, in1, ..., outL, inL, right edge] (complex double)
inline at::Tensor contract_op(const std::vector<at::Tensor> &s)
{
	Quiet q;
	at::Tensor o;
	for (auto &t : s)
	{
		auto w = t.to(torch::kComplexDouble).permute({0, 1, 3, 2});
		o = o.defined() ? torch::tensordot(o, w, {o.dim() - 1}, {0}) : w;
	}
	return o;
}
template <class O>
at::Tensor full_op(const O &o)
{
	return contract_op(sites_of(o));
}
inline u64 site_bits(const btensor &b) { return bits(b); }
inline u64 site_bits(const at::Tensor &t)
{
	Quiet quiet;
	if (!t.defined()) return 3;
	auto c = t.resolve_conj().contiguous();
	u64 h = mix64(u64(c.scalar_type()));
	for (auto x : c.sizes()) h = mix64(h ^ u64(x));
	auto *p = (const unsigned char *)c.data_ptr();
	for (size_t i = 0, n = c.nbytes(); i < n; ++i) h = (h ^ p[i]) * 1099511628211ull;
	return mix64(h);
}
template <class S>
u64 train_bits(const S &s)
{
	u64 h = s.size();
	for (auto &t : s) h = mix64(h ^ site_bits(t));
	return h;
}
inline std::string site_sound(const at::Tensor &t) { return t.defined() ? "" : "undefined tensor"; }
inline std::string site_sound(const btensor &t) { return sound(t); }
inline std::string same_site_leg(const at::Tensor &a, size_t i, const at::Tensor &b, size_t j, bool) { return a.size(i) == b.size(j) ? "" : "sizes " + std::to_string(a.size(i)) + " and " + std::to_string(b.size(j)); }
inline std::string same_site_leg(const btensor &a, size_t i, const btensor &b, size_t j, bool inverse) { return same_leg(leg_of(a, i), leg_of(b, j), inverse); }
// neighbours fit and every tensor is sound
template <class S>
std::string train_sound(const S &s, int64_t rank)
{
	Quiet q;
	for (size_t i = 0; i < s.size(); ++i)
	{
		auto e = site_sound(s[i]);
		if (!e.empty()) return "site " + std::to_string(i) + ": " + e;
		if (s[i].dim() != rank) return "site " + std::to_string(i) + " has rank " + std::to_string(s[i].dim());
		if (i)
		{
			e = same_site_leg(s[i - 1], 2, s[i], 0, true);
			if (!e.empty()) return "bond " + std::to_string(i - 1) + ": " + e;
		}
	}
	return "";
}
inline any_quantity total_of(const bMPS &s)
{
	Quiet q;
	any_quantity t(static_cast<const quantit::vquantity &>(s[0].selection_rule));
	for (size_t i = 1; i < s.size(); ++i) t = t * any_quantity(static_cast<const quantit::vquantity &>(s[i].selection_rule));
	return t;
}
// isometry defect: left: sum over legs 0,1; right: sum over legs 1,2
template <class T>
double iso_defect(const T &site, bool left)
{
	Quiet q;
	auto w = wide_site(site).to(torch::kComplexDouble);
	auto m = left ? w.reshape({w.size(0) * w.size(1), w.size(2)}).t() : w.reshape({w.size(0), w.size(1) * w.size(2)});
	if (m.size(0) == 0) return 0;
	auto g = torch::matmul(m, m.conj().t());
	return maxabs(g - torch::eye(g.size(0), g.options()));
}
// ---- random chains. legs of the chain shared by several states
struct ChainSpec
{
	Group g;
	at::ScalarType dt = at::kDouble;
	bool block = false;
	std::vector<IL> psz; // physical dimension of each site: section sizes (one entry when dense)
	std::vector<std::vector<Charge>> pq;
	IL lsz, rsz; // edges
	std::vector<Charge> lq, rq;
	size_t L() const { return psz.size(); }
};
inline ChainSpec random_chain(Rng &r, Group g, at::ScalarType dt, bool block, int L, bool uniform, bool wide_edges)
{
	ChainSpec c;
	c.g = g;
	c.dt = dt;
	c.block = block;
	for (int i = 0; i < L; ++i)
	{
		if (uniform && i)
		{
			c.psz.push_back(c.psz[0]);
			c.pq.push_back(c.pq[0]);
			continue;
		}
		int ns = block ? (int)r.range(1, 3) : 1;
		IL s;
		std::vector<Charge> q;
		for (int k = 0; k < ns; ++k)
		{
			s.push_back(block ? r.range(1, ns > 2 ? 1 : 2) : r.range(r.chance(0.8) ? 2 : 1, 3));
			q.push_back(g.random(r));
		}
		c.psz.push_back(s);
		c.pq.push_back(q);
	}
	auto edge = [&](IL &s, std::vector<Charge> &q) {
		if (!wide_edges) { s = {1}; q = {r.chance(0.7) ? g.zero() : g.random(r)}; return; }
		int ns = block ? (int)r.range(1, 2) : 1;
		for (int k = 0; k < ns; ++k) s.push_back(r.range(1, 2)), q.push_back(g.random(r));
	};
	edge(c.lsz, c.lq);
	edge(c.rsz, c.rq);
	return c;
}
inline at::Tensor random_site(Rng &r, const IL &dims, at::ScalarType dt) { return random_dense(r, dims, dt, 3, 0.1); }
inline MPS random_dense_state(Rng &r, const ChainSpec &c, int maxbond, size_t oc)
{
	Quiet q;
	std::vector<at::Tensor> v;
	int64_t l = c.lsz[0];
	for (size_t i = 0; i < c.L(); ++i)
	{
		int64_t rr = i + 1 == c.L() ? c.rsz[0] : r.range(1, maxbond);
		v.push_back(random_site(r, {l, c.psz[i][0], rr}, c.dt));
		if (r.chance(0.15) && v.back().size(0) > 1) v.back().select(0, 0).copy_(v.back().select(0, 1)); // rank deficient
		l = rr;
	}
	return MPS(v, oc);
}
// block state; total: sum of the selection rules (random splitting over the sites)
inline bMPS random_block_state(Rng &r, const ChainSpec &c, int maxsec, int maxsize, double pstore, const Charge &total, size_t oc)
{
	Quiet quiet;
	std::vector<btensor> v;
	const Group &g = c.g;
	IL ls = c.lsz;
	std::vector<Charge> lq = c.lq;
	Charge left = total;
	for (size_t i = 0; i < c.L(); ++i)
	{
		MT m;
		m.g = g;
		bool last = i + 1 == c.L();
		Charge rule = last ? left : r.chance(0.6) ? g.zero() : r.chance(0.5) ? left : g.random(r);
		left = g.sub(left, rule);
		m.rule = rule;
		m.sz = {ls, c.psz[i]};
		m.q = {lq, c.pq[i]};
		if (last) m.sz.push_back(c.rsz), m.q.push_back(c.rq);
		else
		{
			IL s;
			std::vector<Charge> q;
			int ns = (int)r.range(1, maxsec);
			for (int k = 0; k < ns; ++k)
			{
				s.push_back(r.range(1, maxsize));
				q.push_back(r.chance(0.05) ? g.random(r) : g.sub(rule, g.add(lq[r.below((i64)lq.size())], c.pq[i][r.below((i64)c.pq[i].size())])));
			}
			m.sz.push_back(s);
			m.q.push_back(q);
		}
		v.push_back(random_fill(r, m, c.dt, pstore));
		ls = m.sz[2];
		lq.clear();
		for (auto &x : m.q[2]) lq.push_back(g.neg(x));
	}
	return bMPS(v, oc);
}
inline MPO random_dense_op(Rng &r, const ChainSpec &c, int maxbond)
{
	Quiet q;
	std::vector<at::Tensor> v;
	int64_t l = r.chance(0.7) ? 1 : 2;
	for (size_t i = 0; i < c.L(); ++i)
	{
		int64_t rr = i + 1 == c.L() ? (r.chance(0.7) ? 1 : 2) : r.range(1, maxbond);
		v.push_back(random_site(r, {l, c.psz[i][0], rr, c.psz[i][0]}, c.dt));
		l = rr;
	}
	return MPO(v);
}
inline bMPO random_block_op(Rng &r, const ChainSpec &c, int maxsec, int maxsize, double pstore)
{
	Quiet quiet;
	std::vector<btensor> v;
	const Group &g = c.g;
	IL ls = {1};
	std::vector<Charge> lq = {g.zero()};
	for (size_t i = 0; i < c.L(); ++i)
	{
		MT m;
		m.g = g;
		m.rule = g.zero();
		bool last = i + 1 == c.L();
		std::vector<Charge> pin;
		for (auto &x : c.pq[i]) pin.push_back(g.neg(x));
		m.sz = {ls, c.psz[i]};
		m.q = {lq, c.pq[i]};
		IL s;
		std::vector<Charge> q;
		int ns = last ? 1 : (int)r.range(1, maxsec);
		for (int k = 0; k < ns; ++k)
		{
			s.push_back(last ? 1 : r.range(1, maxsize));
			q.push_back(last ? g.zero() : g.neg(g.add(g.add(lq[r.below((i64)lq.size())], c.pq[i][r.below((i64)c.pq[i].size())]), pin[r.below((i64)pin.size())])));
		}
		m.sz.push_back(s), m.q.push_back(q);
		m.sz.push_back(c.psz[i]), m.q.push_back(pin);
		v.push_back(random_fill(r, m, c.dt, pstore, 2));
		ls = s;
		lq.clear();
		for (auto &x : q) lq.push_back(g.neg(x));
	}
	return bMPO(v);
}
} // namespace bt
