// Random hermitian operators as tensor trains.
#pragma once
#include "mpsmodel.h"
namespace bt
{
// ---- hermitian operators as trains
inline MT adjoint(const MT &m)
{
	MT o = m;
	for (int l : {0, 2})
		for (auto &x : o.q[l]) x = m.g.neg(x);
	o.d = m.d.conj().permute({0, 3, 2, 1}).resolve_conj().contiguous();
	return o;
}
inline std::vector<MT> random_op_model(Rng &r, const ChainSpec &c, int maxsec, int maxsize, double pstore, bool diagonal)
{
	Quiet quiet;
	std::vector<MT> v;
	const Group &g = c.g;
	IL ls = {1};
	std::vector<Charge> lq = {g.zero()};
	for (size_t i = 0; i < c.L(); ++i)
	{
		MT m;
		m.g = g;
		m.rule = g.zero();
		bool last = i + 1 == c.L();
		std::vector<Charge> pin;
		for (auto &x : c.pq[i]) pin.push_back(g.neg(x));
		IL s;
		std::vector<Charge> q;
		int ns = last ? 1 : (int)r.range(1, c.block ? maxsec : 1);
		for (int k = 0; k < ns; ++k)
		{
			s.push_back(last ? 1 : r.range(1, maxsize));
			q.push_back(last ? g.zero() : g.neg(g.add(g.add(lq[r.below((i64)lq.size())], c.pq[i][r.below((i64)c.pq[i].size())]), pin[r.below((i64)pin.size())])));
		}
		m.sz = {ls, c.psz[i], s, c.psz[i]};
		m.q = {lq, c.pq[i], q, pin};
		random_fill(r, m, c.dt, pstore, 2);
		if (diagonal)
		{
			auto mask = torch::eye(m.dim(1), torch::kDouble).reshape({1, m.dim(1), 1, m.dim(1)});
			m.d = (m.d * mask).to(c.dt);
		}
		v.push_back(m);
		ls = s;
		lq.clear();
		for (auto &x : q) lq.push_back(g.neg(x));
	}
	return v;
}
inline std::vector<MT> direct_sum(const std::vector<MT> &A, const std::vector<MT> &B)
{
	Quiet quiet;
	std::vector<MT> o;
	size_t L = A.size();
	for (size_t i = 0; i < L; ++i)
	{
		MT m = A[i];
		auto join = [&](int leg) {
			m.sz[leg].insert(m.sz[leg].end(), B[i].sz[leg].begin(), B[i].sz[leg].end());
			m.q[leg].insert(m.q[leg].end(), B[i].q[leg].begin(), B[i].q[leg].end());
		};
		if (i > 0) join(0);
		if (i + 1 < L) join(2);
		m.d = torch::zeros(m.dims(), A[i].d.options());
		int64_t l0 = A[i].dim(0), r0 = A[i].dim(2);
		m.d.narrow(0, 0, l0).narrow(2, 0, r0).add_(A[i].d);
		m.d.narrow(0, i > 0 ? l0 : 0, B[i].dim(0)).narrow(2, i + 1 < L ? r0 : 0, B[i].dim(2)).add_(B[i].d);
		o.push_back(m);
	}
	return o;
}
inline btensor realise(Rng &r, const MT &m, at::ScalarType dt)
{
	Quiet quiet;
	btensor b(m.spec(), m.g.lib(m.rule), torch::TensorOptions().dtype(dt));
	for (auto &ix : m.allowed_blocks())
	{
		at::Tensor t = m.view(m.d, ix).clone();
		if (maxabs(t) == 0 && r.chance(0.7)) continue;
		b.block(ix) = t;
	}
	return b;
}
} // namespace bt
