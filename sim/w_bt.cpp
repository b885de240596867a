// Workload for C01-C04: histories of block tensor operations over a pool of tensors.
#include "btmodel.h"
#include "tensorgdot.h"
#include <cmath>

using namespace bt;
namespace sim
{
void warmup()
{
	auto t = torch::rand({3, 3}, torch::kDouble);
	auto s = torch::mm(t, t) + t.sum();
	(void)s.sum().item().toDouble();
	auto u = torch::linalg::svd(t, false);
	(void)u;
	auto v = torch::view_as_complex(torch::zeros({2, 2}, torch::kDouble));
	(void)v;
}
} // namespace sim
namespace
{
// what an in-place operation hands back: building it is not part of the operation, so nothing may fail in it
btensor none()
{
	sim::disarm();
	return btensor();
}
struct Ent
{
	btensor b;
	MT m;
};
struct Op
{
	std::string name;
	char kind = 'o'; // o: independent result, v: result may be a view, i: in place on the first operand, q: query
	std::vector<int> in;
	std::function<btensor(std::vector<btensor *> &)> f;
	std::function<std::string(std::vector<btensor *> &)> query;
	MT m; // expected result
	bool values = true;
	bool must_throw = false;
	bool expiring = false; // the second operand is consumed by the call
	double tol = 0;
	at::ScalarType dt = at::kDouble;
};
struct World
{
	const Plan &p;
	Ctx &c;
	std::string prop;
	Group g;
	at::ScalarType dt;
	double pstore;
	bool typed = false; // keep to operations whose element type the operands determine
	bool norandom = false; // keep away from the process-wide random generator
	std::vector<Ent> pool;
	bool own(const char *cls) const { return prop == cls; }

	World(const Plan &pl, Ctx &cx) : p(pl), c(cx), prop(pl.prop)
	{
		g.kind = (int)pl.get("group");
		dt = pl.get("dtype") == 1 ? at::kComplexDouble : pl.get("dtype") == 2 ? at::kFloat : at::kDouble;
		pstore = pl.get("store", 70) / 100.0;
		typed = pl.get("typed");
		norandom = pl.get("norandom");
	}
	// report a violation of another property only when this run is about it; otherwise tell the caller to resynchronise
	bool hit(const char *cls, const std::string &what, const std::string &msg)
	{
		if (own(cls)) c.fail(std::string(cls) + ":" + what, msg);
		c.probe("foreign." + std::string(cls) + "." + what);
		return true;
	}
	bool tracing = false; // the values of the model are leaves of a graph
	int add(Ent e, const std::vector<int> &keep)
	{
		if (tracing) e.m.d = e.m.d.detach().clone().requires_grad_(true);
		if ((int)pool.size() < 6)
		{
			pool.push_back(std::move(e));
			return (int)pool.size() - 1;
		}
		for (int k = 0; k < (int)pool.size(); ++k)
			if (std::find(keep.begin(), keep.end(), k) == keep.end())
			{
				// rotate so that the oldest goes first
				static_assert(true, "");
				pool[k] = std::move(e);
				return k;
			}
		pool.push_back(std::move(e));
		return (int)pool.size() - 1;
	}
	Ent make(Rng &r, MT m)
	{
		Ent e;
		double ps = r.chance(0.15) ? 0.0 : r.chance(0.25) ? 1.0 : pstore;
		btensor b = random_fill(r, m, dt, ps);
		e.b = b;
		e.m = m;
		return e;
	}
	MT fresh_structure(Rng &r, int minrank = 0)
	{
		int rank = (int)r.range(std::max<int64_t>(minrank, r.chance(0.06) ? 0 : 1), 4);
		return random_structure(r, g, rank, rank >= 4 ? 2 : 3, rank >= 3 ? 2 : 3);
	}
	int pick(i64 a) const { return int(u64(a) % pool.size()); }
	// another pool entry of the same structure, or a new one
	int mate(int i, i64 sel, Rng &r)
	{
		std::vector<int> c;
		for (int k = 0; k < (int)pool.size(); ++k)
			if (k != i && pool[k].m.same_structure(pool[i].m) && pool[k].m.dtype() == pool[i].m.dtype()) c.push_back(k);
		if (!c.empty() && r.chance(0.6)) return c[u64(sel) % c.size()];
		MT m = pool[i].m;
		Ent e = make(r, m);
		return add(std::move(e), {i});
	}
};

// a structure of few charges, so that the rule allows many blocks
MT busy_structure(Rng &r, Group g, int rank, int maxsec)
{
	std::vector<Charge> pal = {g.zero(), g.random(r), g.random(r)};
	pal.push_back(g.neg(pal[1]));
	MT m;
	m.g = g;
	for (int i = 0; i < rank; ++i)
	{
		int ns = (int)r.range(1, rank >= 4 && i < rank - 2 ? 2 : maxsec);
		IL s;
		std::vector<Charge> q;
		for (int k = 0; k < ns; ++k)
		{
			s.push_back(r.range(1, 2));
			q.push_back(pal[r.below(pal.size())]);
		}
		m.sz.push_back(s);
		m.q.push_back(q);
	}
	m.rule = m.qsum(m.unflat(r.below(m.nblocks())));
	return m;
}
// ------------------------------------------------------------------ model operations
MT m_permute(const MT &a, const IL &p)
{
	MT o;
	o.g = a.g;
	o.rule = a.rule;
	for (auto i : p)
	{
		o.sz.push_back(a.sz[i]);
		o.q.push_back(a.q[i]);
	}
	o.d = a.d.permute(p).contiguous();
	return o;
}
bool m_broadcast_shape(const MT &a, const MT &b, MT &o)
{
	o.g = a.g;
	int64_t R = std::max(a.rank(), b.rank());
	o.sz.assign(R, {});
	o.q.assign(R, {});
	o.rule = a.g.add(a.rule, b.rule);
	for (int64_t n = 1; n <= R; ++n)
	{
		int64_t ia = a.rank() - n, ib = b.rank() - n, io = R - n;
		if (ia < 0) o.sz[io] = b.sz[ib], o.q[io] = b.q[ib];
		else if (ib < 0) o.sz[io] = a.sz[ia], o.q[io] = a.q[ia];
		else
		{
			bool sa = a.singleton(ia), sb = b.singleton(ib);
			if (!sa && !sb && a.sz[ia] != b.sz[ib]) return false;
			const MT &big = sa ? b : a;
			size_t ibig = size_t(sa ? ib : ia);
			o.sz[io] = big.sz[ibig];
			for (size_t k = 0; k < big.sz[ibig].size(); ++k)
				o.q[io].push_back(a.g.add(a.q[ia][sa ? 0 : k], b.q[ib][sb ? 0 : k]));
		}
	}
	return true;
}
MT m_tensordot(const MT &a, const MT &b, const IL &da, const IL &db)
{
	MT o;
	o.g = a.g;
	o.rule = a.g.add(a.rule, b.rule);
	for (int64_t i = 0; i < a.rank(); ++i)
		if (std::find(da.begin(), da.end(), i) == da.end()) o.sz.push_back(a.sz[i]), o.q.push_back(a.q[i]);
	for (int64_t i = 0; i < b.rank(); ++i)
		if (std::find(db.begin(), db.end(), i) == db.end()) o.sz.push_back(b.sz[i]), o.q.push_back(b.q[i]);
	auto t = at::promote_types(a.dtype(), b.dtype());
	o.d = torch::tensordot(a.d.to(t), b.d.to(t), da, db);
	return o;
}
MT m_reshape(const MT &a, const IL &groups)
{
	IL g{0};
	g.insert(g.end(), groups.begin(), groups.end());
	g.push_back(a.rank());
	MT o;
	o.g = a.g;
	o.rule = a.rule;
	for (size_t k = 0; k + 1 < g.size(); ++k)
	{
		IL s{1};
		std::vector<Charge> q{a.g.zero()};
		for (int64_t i = g[k]; i < g[k + 1]; ++i)
		{
			IL s2;
			std::vector<Charge> q2;
			for (size_t x = 0; x < s.size(); ++x)
				for (size_t y = 0; y < a.sz[i].size(); ++y)
				{
					s2.push_back(s[x] * a.sz[i][y]);
					q2.push_back(a.g.add(q[x], a.q[i][y]));
				}
			s = s2;
			q = q2;
		}
		o.sz.push_back(s);
		o.q.push_back(q);
	}
	o.d = torch::zeros(o.dims(), a.dtype());
	for (int64_t f = 0, n = a.nblocks(); f < n; ++f)
	{
		auto bi = a.unflat(f), bo = o.unflat(f); // row major block numbers coincide
		o.view(o.d, bo).copy_(a.view(a.d, bi).reshape(o.bsize(bo)));
	}
	return o;
}
MT m_conj(const MT &a, bool values = true)
{
	MT o = a;
	o.rule = a.g.neg(a.rule);
	for (auto &d : o.q)
		for (auto &x : d) x = a.g.neg(x);
	o.d = values ? a.d.conj().resolve_conj().clone() : a.d.clone();
	return o;
}
MT m_select(const MT &a, const IL &dims) // -1 keep, otherwise element
{
	MT o;
	o.g = a.g;
	o.rule = a.rule;
	at::Tensor d = a.d;
	int64_t drop = 0;
	for (int64_t i = 0; i < a.rank(); ++i)
	{
		if (dims[i] < 0)
		{
			o.sz.push_back(a.sz[i]);
			o.q.push_back(a.q[i]);
			continue;
		}
		int64_t e = dims[i], s = 0;
		while (e >= a.sz[i][s]) e -= a.sz[i][s++];
		o.rule = a.g.sub(o.rule, a.q[i][s]);
		d = d.select(i - drop, dims[i]);
		++drop;
	}
	o.d = d.contiguous().clone();
	return o;
}
MT m_select_keep(const MT &a, const IL &dims)
{
	MT o;
	o.g = a.g;
	o.rule = a.rule;
	at::Tensor d = a.d;
	for (int64_t i = 0; i < a.rank(); ++i)
	{
		if (dims[i] < 0)
		{
			o.sz.push_back(a.sz[i]);
			o.q.push_back(a.q[i]);
			continue;
		}
		int64_t e = dims[i], s = 0;
		while (e >= a.sz[i][s]) e -= a.sz[i][s++];
		o.sz.push_back({1});
		o.q.push_back({a.q[i][s]});
		d = d.narrow(i, dims[i], 1);
	}
	o.d = d.contiguous().clone();
	return o;
}
MT m_product(const MT &a, const MT &b)
{
	MT o = a;
	o.sz.insert(o.sz.end(), b.sz.begin(), b.sz.end());
	o.q.insert(o.q.end(), b.q.begin(), b.q.end());
	o.rule = a.g.add(a.rule, b.rule);
	o.d = torch::zeros(o.dims(), a.dtype());
	return o;
}
bool fully_stored(const btensor &b, const MT &m) { return b.blocks().size() == m.allowed_blocks().size(); }

// ------------------------------------------------------------------ operations
using R = btensor;
using V = std::vector<btensor *>;
double scalar_of(i64 a)
{
	static const double s[] = {2, -1, 3, 0.5, 1, -2, 0.25, -3};
	return s[u64(a) % 8];
}
// builds the operation of a step; false: does not apply to the current pool
bool make_op(World &w, const Step &st, Op &o)
{
	Quiet quiet;
	Rng r(u64(st.arg(2)) * 7919 + u64(st.arg(1)) * 31 + u64(st.arg(0)) + 17);
	o.name = st.op;
	const std::string &n = st.op;
	o.dt = w.dt;
	o.tol = tol_of(w.dt);
	bool cplx = at::isComplexType(w.dt);
	if (n == "new")
	{
		MT m = w.fresh_structure(r);
		Ent e = w.make(r, m);
		w.add(std::move(e), {w.pick(st.arg(0))});
		return false; // nothing to run: creation is part of the harness
	}
	int i = w.pick(st.arg(0));
	auto A = [&]() -> Ent & { return w.pool[i]; };
	if (n == "add" || n == "sub" || n == "add_" || n == "sub_" || n == "addrv" || n == "addrv_" || n == "opadd" || n == "opsub" || n == "opadd_" || n == "opsub_")
	{
		int j = r.chance(0.08) ? i : w.mate(i, st.arg(1), r);
		if (n == "addrv" || n == "addrv_")
			if (j == i) return false;
		o.in = {i, j};
		o.m = A().m;
		bool op = n.substr(0, 2) == "op";
		double al = op ? 1 : r.chance(0.4) ? 1 : scalar_of(st.arg(3));
		bool sub = n.find("sub") != std::string::npos;
		o.m.d = A().m.d + w.pool[j].m.d * (sub ? -al : al);
		torch::Scalar alpha = al;
		if (n == "add") o.f = [=](V &x) { return x[0]->add(*x[1], alpha); };
		if (n == "sub") o.f = [=](V &x) { return x[0]->sub(*x[1], alpha); };
		if (n == "opadd") o.f = [=](V &x) { return *x[0] + *x[1]; };
		if (n == "opsub") o.f = [=](V &x) { return *x[0] - *x[1]; };
		if (n == "addrv" || n == "addrv_")
		{ // an expiring tensor; it might also be a view of one that stays
			bool in_place = n == "addrv_";
			if (in_place) o.kind = 'i';
			int view = int(u64(st.arg(4)) % 6);
			std::vector<int64_t> same(w.pool[j].m.rank()), every(w.pool[j].m.rank(), -1);
			for (size_t k = 0; k < same.size(); ++k) same[k] = int64_t(k);
			o.expiring = view < 2;
			std::function<btensor(btensor &)> get;
			if (view == 2) get = [=](btensor &b) { return b.permute(same); };
			if (view == 3) get = [=](btensor &b) { return b.basic_create_view(every); };
			if (view == 4) get = [=](btensor &b) { return btensor(b); };
			if (view == 5) get = [=](btensor &b) { return b.reshape_as(b); };
			o.f = [=](V &x) {
				if (in_place)
				{
					if (get)
						x[0]->add_(get(*x[1]), alpha);
					else
						x[0]->add_(std::move(*x[1]), alpha);
					return none();
				}
				return get ? x[0]->add(get(*x[1]), alpha) : x[0]->add(std::move(*x[1]), alpha);
			};
		}
		if (n == "add_") o.kind = 'i', o.f = [=](V &x) { x[0]->add_(*x[1], alpha); return none(); };
		if (n == "sub_") o.kind = 'i', o.f = [=](V &x) { x[0]->sub_(*x[1], alpha); return none(); };
		if (n == "opadd_") o.kind = 'i', o.f = [=](V &x) { *x[0] += *x[1]; return none(); };
		if (n == "opsub_") o.kind = 'i', o.f = [=](V &x) { *x[0] -= *x[1]; return none(); };
		return true;
	}
	if (n == "mixed")
	{ // the second operand has another element type: the result has the type that dense tensors give
		o.in = {i};
		o.m = A().m;
		MT m = A().m;
		auto dt2 = w.dt == at::kDouble ? (r.chance(0.6) ? at::kComplexDouble : at::kFloat) : w.dt == at::kFloat ? (r.chance(0.5) ? at::kComplexDouble : at::kDouble) : at::kDouble;
		auto B = std::make_shared<btensor>(random_fill(r, m, dt2, r.chance(0.3) ? 1.0 : w.pstore));
		auto pt = at::promote_types(w.dt, dt2);
		int k = int(u64(st.arg(1)) % 15);
		if (k >= 10)
		{ // a complex or an integer number
			if (w.typed && w.dt == at::kFloat && k < 14) return false; // the dense library itself asks the default type here
			auto z = c10::complex<double>(scalar_of(st.arg(3)), scalar_of(st.arg(4)));
			torch::Scalar Z = z;
			auto ct = at::result_type(A().m.d, Z);
			auto a = A().m.d.to(ct);
			o.dt = ct;
			o.tol = 3e-5;
			auto zt = torch::full({}, Z, torch::TensorOptions().dtype(at::kComplexDouble));
			if (k == 10) o.m.d = a * zt.to(ct), o.f = [=](V &x) { return x[0]->mul(Z); };
			if (k == 11) o.m.d = a + A().m.mask().to(ct) * zt.to(ct), o.f = [=](V &x) { return x[0]->add(Z); };
			if (k == 12) o.m.d = a / zt.to(ct), o.f = [=](V &x) { return x[0]->div(Z); };
			if (k == 13)
			{ // the target can't hold it, unless it is complex
				o.kind = 'i';
				o.dt = w.dt;
				if (!cplx)
				{
					if (A().b.blocks().size() == 0) return false;
					o.must_throw = true;
				}
				o.m.d = a * zt.to(ct);
				o.f = [=](V &x) { x[0]->mul_(Z); return none(); };
			}
			if (k == 14)
			{
				o.dt = w.dt;
				int64_t q = r.range(-2, 3);
				o.m.d = A().m.d * q;
				o.f = [=](V &x) { return x[0]->mul(torch::Scalar(q)); };
			}
			return true;
		}
		double al = r.chance(0.4) ? 1 : scalar_of(st.arg(3));
		torch::Scalar alpha = al;
		auto a = A().m.d.to(pt), b = m.d.to(pt);
		o.dt = k < 6 ? pt : w.dt;
		if (k == 0) o.m.d = a + b * al, o.f = [=](V &x) { return x[0]->add(*B, alpha); };
		if (k == 1) o.m.d = a - b * al, o.f = [=](V &x) { return x[0]->sub(*B, alpha); };
		if (k == 2) o.m.d = b + a * al, o.f = [=](V &x) { return B->add(*x[0], alpha); };
		if (k == 3) o.m.d = a + b * al, o.f = [=](V &x) { return x[0]->add(btensor(*B), alpha); };
		MT prod;
		bool can = m_broadcast_shape(A().m, m, prod);
		if ((k == 4 || k == 9) && !can) return false;
		if (k == 4) o.m = prod, o.m.d = a * b, o.f = [=](V &x) { return x[0]->mul(*B); };
		if (k == 5) o.m.d = a + b, o.f = [=](V &x) { return *x[0] + *B; };
		if (k >= 6)
		{ // in place: the target keeps its type, and must be able to
			o.kind = 'i';
			if (!at::canCast(pt, w.dt)) o.must_throw = true;
			o.m.d = (k == 9 ? a * b : k == 8 ? a - b * al : a + b * al).to(w.dt);
			if (k == 6) o.f = [=](V &x) { x[0]->add_(*B, alpha); return none(); };
			if (k == 7) o.f = [=](V &x) { x[0]->add_(btensor(*B), alpha); return none(); };
			if (k == 8) o.f = [=](V &x) { x[0]->sub_(*B, alpha); return none(); };
			if (k == 9)
			{
				if (o.must_throw) return false; // whether anything is multiplied depends on what is stored
				auto d = o.m.d;
				o.m = prod;
				o.m.d = d;
				o.f = [=](V &x) { x[0]->mul_(*B); return none(); };
			}
		}
		o.tol = 3e-5; // single precision may be involved
		return true;
	}
	if (n == "typed")
	{ // operands of any element type: the values, the type of the result and the one it reports are those of dense tensors
		const at::ScalarType T[] = {at::kLong, at::kInt, at::kFloat, at::kDouble, at::kComplexDouble, at::kComplexFloat, at::kLong, at::kComplexDouble};
		auto t1 = T[u64(st.arg(1)) % 8], t2 = r.chance(0.5) ? t1 : T[r.below(8)];
		if (w.typed && (at::isIntegralType(t1, true) || at::isIntegralType(t2, true))) return false; // the dense library asks the default type
		bool z1 = at::isComplexType(t1), z2 = at::isComplexType(t2);
		int k = int(u64(st.arg(3)) % 18);
		if (k == 13 && at::isIntegralType(t1, true)) return false; // the dense library refuses
		bool full = r.chance(0.3) || k == 8 || k == 9 || k == 11 || k == 13;
		MT a = A().m, b = A().m;
		btensor ab = random_fill(r, a, t1, full ? 1.0 : r.chance(0.25) ? 0.0 : 0.6), bb = random_fill(r, b, t2, full ? 1.0 : r.chance(0.25) ? 0.0 : 0.6);
		auto live = [&](btensor &x, MT &m, bool nonneg, bool nonzero)
		{
			for (auto &kv : x)
			{
				auto v = kv.second;
				if (nonneg) v = v.abs().to(v.scalar_type());
				if (nonzero) v = torch::where(v == 0, torch::full_like(v, 2), v);
				kv.second = v.contiguous();
				m.view(m.d, kv.first).copy_(v);
			}
		};
		if (k == 1) live(ab, a, true, false);
		if (k == 13) live(ab, a, false, true);
		if (k == 8) live(bb, b, false, true);
		if (k == 9) live(ab, a, false, true), live(bb, b, true, true);
		auto X = std::make_shared<btensor>(ab), Y = std::make_shared<btensor>(bb);
		auto d = a.d, e = b.d;
		auto mask = a.mask() != 0;
		auto only = [&](const at::Tensor &t) { return torch::where(mask, t, torch::zeros_like(t)); };
		o.in = {i};
		o.m = a;
		o.tol = 3e-5;
		torch::Scalar N = (int64_t)(1 + u64(st.arg(4)) % 3), F = 0.5 * double(1 + u64(st.arg(4)) % 4);
		MT prod;
		if ((k == 8 || k == 9 || k == 10 || k == 11) && !m_broadcast_shape(a, b, prod)) return false;
		if (k == 0) o.m.d = d.abs(), o.f = [=](V &) { return X->abs(); };
		if (k == 1) o.m.d = d.sqrt(), o.f = [=](V &) { return X->sqrt(); };
		if (k == 2) o.m.d = d.pow(N), o.f = [=](V &) { return X->pow(N); };
		if (k == 3)
		{
			torch::Scalar G = z1 ? N : torch::Scalar(2.0);
			o.m.d = d.pow(G), o.f = [=](V &) { return X->pow(G); };
		}
		if (k == 4) o.m.d = d.div(N), o.f = [=](V &) { return X->div(N); };
		if (k == 5) o.m.d = d.mul(F), o.f = [=](V &) { return X->mul(F); };
		if (k == 6) o.m.d = only(d.add(F)), o.f = [=](V &) { return X->add(F); };
		if (k == 7) o.m = MT(), o.m.g = w.g, o.m.rule = w.g.zero(), o.m.d = d.sum(), o.f = [=](V &) { return X->sum(); };
		if (k == 8)
		{
			auto one = torch::where(mask, e, torch::ones_like(e));
			o.m = prod, o.m.d = only(d.div(one)), o.f = [=](V &) { return X->div(*Y); };
		}
		if (k == 9)
		{
			auto one = torch::where(mask, e, torch::ones_like(e));
			o.m = prod, o.m.d = only(d.pow(one)), o.f = [=](V &) { return X->pow(*Y); };
		}
		if (k == 10) o.m = prod, o.m.d = d.mul(e), o.f = [=](V &) { return X->mul(*Y); };
		if (k == 11)
		{
			bool ge = !z1 && !z2 && r.chance(0.5);
			o.m = prod, o.m.d = only(ge ? d.ge(e) : d.eq(e)), o.f = [=](V &) { return ge ? X->ge(*Y) : X->eq(*Y); };
		}
		if (k == 12) o.m = m_conj(a), o.m.d = d.conj().resolve_conj(), o.f = [=](V &) { return X->conj(); };
		if (k == 13)
		{
			auto one = torch::where(mask, d, torch::ones_like(d));
			o.m.d = only(F * one.reciprocal()); // as torch's operator/
			o.f = [=](V &) { return F / *X; };
		}
		if (k == 14) o.m.d = -d, o.f = [=](V &) { return -*X; };
		if (k == 15) o.m.d = d.isnan(), o.f = [=](V &) { return X->isnan(); };
		if (k == 16)
		{
			o.m.d = d + e, o.f = [=](V &) { return X->add(*Y); };
		}
		if (k == 17)
		{
			IL p(a.rank());
			std::iota(p.begin(), p.end(), 0);
			MT c = m_conj(a);
			o.m = MT();
			o.m.g = w.g;
			o.m.rule = w.g.zero();
			o.m.d = (d * d.conj()).sum().to(t1);
			o.f = [=](V &) { return X->tensordot(X->conj(), p, p); };
		}
		o.dt = o.m.d.scalar_type();
		return true;
	}
	if (n == "addS" || n == "addS_" || n == "mulS" || n == "mulS_" || n == "divS" || n == "divS_" || n == "Sdiv" || n == "neg")
	{
		o.in = {i};
		o.m = A().m;
		double s = scalar_of(st.arg(1)), al = r.chance(0.5) ? 1 : scalar_of(st.arg(3));
		torch::Scalar S = s, AL = al;
		if (n == "addS") o.m.d = A().m.d + A().m.mask().to(w.dt) * (s * al), o.f = [=](V &x) { return x[0]->add(S, AL); };
		if (n == "addS_") o.kind = 'i', o.m.d = A().m.d + A().m.mask().to(w.dt) * (s * al), o.f = [=](V &x) { x[0]->add_(S, AL); return none(); };
		if (n == "mulS") o.m.d = A().m.d * s, o.f = [=](V &x) { return x[0]->mul(S); };
		if (n == "mulS_") o.kind = 'i', o.m.d = A().m.d * s, o.f = [=](V &x) { x[0]->mul_(S); return none(); };
		if (n == "neg") o.m.d = -A().m.d, o.f = [=](V &x) { return -(*x[0]); };
		if (n == "divS") o.m.d = A().m.d / s, o.f = [=](V &x) { return x[0]->div(S); };
		if (n == "divS_") o.kind = 'i', o.m.d = A().m.d / s, o.f = [=](V &x) { x[0]->div_(S); return none(); };
		if (n == "Sdiv")
		{
			if (!fully_stored(A().b, A().m)) return false;
			auto mask = A().m.mask();
			if (torch::any((A().m.d == 0).logical_and(mask != 0)).item().toBool()) return false;
			o.m.d = torch::where(mask != 0, s / torch::where(mask != 0, A().m.d, torch::ones_like(A().m.d)), torch::zeros_like(A().m.d));
			o.f = [=](V &x) { return S / *x[0]; };
		}
		return true;
	}
	if (n == "mul" || n == "mul_" || n == "div" || n == "div_" || n == "pow" || n == "pow_" || n == "cmp")
	{
		// second operand: same structure sizes, or with singleton dimensions and/or smaller rank; own charges
		Ent e;
		MT m;
		m.g = w.g;
		const MT &a = A().m;
		bool inpl = n.back() == '_';
		int64_t drop = r.chance(0.3) ? r.range(0, a.rank()) : 0;
		bool bigger = !inpl && drop == 0 && a.rank() < 4 && r.chance(0.15);
		if (bigger)
		{
			m.sz.push_back(r.chance(0.5) ? IL{1} : IL{1, 2});
			m.q.push_back({});
			for (size_t k = 0; k < m.sz[0].size(); ++k) m.q[0].push_back(w.g.random(r));
		}
		for (int64_t k = drop; k < a.rank(); ++k)
		{
			bool one = r.chance(0.2);
			IL s = one ? IL{1} : a.sz[k];
			if (a.singleton(k) && r.chance(0.5)) s = r.chance(0.5) ? IL{2} : IL{1, 2};
			m.sz.push_back(s);
			std::vector<Charge> q;
			for (size_t x = 0; x < s.size(); ++x) q.push_back(r.chance(0.5) ? w.g.zero() : w.g.random(r));
			m.q.push_back(q);
		}
		m.rule = m.nblocks() && r.chance(0.9) ? m.qsum(m.unflat(r.below(m.nblocks()))) : w.g.random(r);
		MT res;
		if (!m_broadcast_shape(a, m, res)) return false;
		if (res.numel() > 600 || res.rank() > 4) return false;
		bool needfull = n != "mul" && n != "mul_";
		if (needfull)
		{
			if (!fully_stored(A().b, a)) return false;
			btensor b = random_fill(r, m, w.dt, 1.0, 3, 0.0);
			// no zeros: replace by 2; exponents: positive integers
			for (auto &kv : b)
			{
				if (n.substr(0, 3) == "pow") kv.second = (torch::abs(kv.second).remainder(3) + 1).to(w.dt);
				else kv.second = torch::where(kv.second == 0, torch::full_like(kv.second, 2), kv.second);
				m.view(m.d, kv.first).copy_(kv.second);
			}
			e.b = b;
			e.m = m;
			if (n.substr(0, 3) == "pow" && (cplx || maxabs(a.d) > 50)) return false;
			if (n == "cmp" && cplx) return false;
		}
		else e = w.make(r, m);
		int j = w.add(std::move(e), {i});
		auto &B = w.pool[j];
		o.in = {i, j};
		o.m = res;
		auto bz = (B.m.mask() == 0), az = (A().m.mask() == 0);
		auto dead = az.logical_or(bz); // broadcast
		auto one = torch::ones_like(B.m.d);
		auto safe = torch::where(bz, one, B.m.d);
		if (n == "mul") o.m.d = A().m.d * B.m.d, o.f = [](V &x) { return x[0]->mul(*x[1]); };
		if (n == "mul_") o.kind = 'i', o.m.d = A().m.d * B.m.d, o.f = [](V &x) { x[0]->mul_(*x[1]); return none(); };
		if (n.substr(0, 3) == "div")
		{
			auto q = A().m.d / safe;
			o.m.d = torch::where(dead, torch::zeros_like(q), q);
			if (inpl) o.kind = 'i', o.f = [](V &x) { x[0]->div_(*x[1]); return none(); };
			else o.f = [](V &x) { return x[0]->div(*x[1]); };
		}
		if (n.substr(0, 3) == "pow")
		{
			auto q = A().m.d.pow(safe);
			o.m.d = torch::where(dead, torch::zeros_like(q), q);
			if (inpl) o.kind = 'i', o.f = [](V &x) { x[0]->pow_(*x[1]); return none(); };
			else o.f = [](V &x) { return x[0]->pow(*x[1]); };
		}
		if (n == "cmp")
		{
			int k = int(u64(st.arg(3)) % 6);
			at::Tensor q = k == 0 ? A().m.d.ge(B.m.d) : k == 1 ? A().m.d.le(B.m.d) : k == 2 ? A().m.d.less(B.m.d) : k == 3 ? A().m.d.greater(B.m.d) : k == 4 ? A().m.d.eq(B.m.d) : A().m.d.ne(B.m.d);
			o.m.d = q.logical_and(dead.logical_not());
			o.dt = at::kBool;
			o.f = [k](V &x) { return k == 0 ? x[0]->ge(*x[1]) : k == 1 ? x[0]->le(*x[1]) : k == 2 ? *x[0] < *x[1] : k == 3 ? *x[0] > *x[1] : k == 4 ? x[0]->eq(*x[1]) : x[0]->not_equal(*x[1]); };
		}
		if (inpl && (res.rank() != A().m.rank())) return false;
		// in place on dimensions that must grow is allowed only through broadcasting of singletons
		return true;
	}
	if (n == "cmpS" || n == "powS" || n == "powS_" || n == "sqrt" || n == "sqrt_" || n == "abs" || n == "abs_" || n == "isnan")
	{
		o.in = {i};
		o.m = A().m;
		auto &d = A().m.d;
		if (n == "cmpS")
		{
			if (cplx) return false;
			int k = int(u64(st.arg(3)) % 6);
			torch::Scalar S = double(1 + u64(st.arg(1)) % 3), N = -double(1 + u64(st.arg(1)) % 3), Z0 = 0.0;
			o.dt = at::kBool;
			at::Tensor q = k == 0 ? d.ge(S) : k == 1 ? d.le(N) : k == 2 ? d.less(N) : k == 3 ? d.greater(S) : k == 4 ? d.eq(S) : d.ne(Z0);
			o.m.d = q;
			o.f = [=](V &x) { return k == 0 ? x[0]->ge(S) : k == 1 ? x[0]->le(N) : k == 2 ? x[0]->less(N) : k == 3 ? x[0]->greater(S) : k == 4 ? x[0]->eq(S) : x[0]->not_equal(Z0); };
			return true;
		}
		if (n == "isnan")
		{
			o.dt = at::kBool;
			o.m.d = d.isnan();
			o.f = [](V &x) { return x[0]->isnan(); };
			return true;
		}
		if (cplx && n != "powS" && n != "powS_") return false;
		if (n == "powS" || n == "powS_")
		{
			if (maxabs(d) > 2000) return false;
			torch::Scalar S = (int64_t)(1 + u64(st.arg(1)) % 3);
			o.m.d = d.pow(S);
			o.tol = std::max(o.tol, 1e-9);
			if (n == "powS") o.f = [=](V &x) { return x[0]->pow(S); };
			else o.kind = 'i', o.f = [=](V &x) { x[0]->pow_(S); return none(); };
		}
		if (n == "sqrt" || n == "sqrt_")
		{
			if (d.numel() && d.min().item().toDouble() < 0) return false;
			o.m.d = d.sqrt();
			if (n == "sqrt") o.f = [](V &x) { return x[0]->sqrt(); };
			else o.kind = 'i', o.f = [](V &x) { x[0]->sqrt_(); return none(); };
		}
		if (n == "abs" || n == "abs_")
		{
			o.m.d = d.abs();
			if (n == "abs") o.f = [](V &x) { return x[0]->abs(); };
			else o.kind = 'i', o.f = [](V &x) { x[0]->abs_(); return none(); };
		}
		return true;
	}
	if (n == "tensordot")
	{
		// contract a random subset of dimensions with a matching operand
		const MT a = A().m;
		IL dims(a.rank());
		std::iota(dims.begin(), dims.end(), 0);
		for (size_t k = dims.size(); k > 1; --k) std::swap(dims[k - 1], dims[r.below(k)]);
		int64_t nc = r.range(0, a.rank());
		IL da(dims.begin(), dims.begin() + nc);
		int64_t nfree = r.range(0, std::max<int64_t>(0, std::min<int64_t>(2, 4 - (a.rank() - nc))));
		MT m;
		m.g = w.g;
		std::vector<int64_t> where; // slot -> contracted index or -1
		for (int64_t k = 0; k < nc; ++k) where.push_back(k);
		for (int64_t k = 0; k < nfree; ++k) where.push_back(-1);
		for (size_t k = where.size(); k > 1; --k) std::swap(where[k - 1], where[r.below(k)]);
		IL db(nc);
		MT fr = random_structure(r, w.g, (int)nfree, 3, 2);
		int64_t f = 0;
		for (size_t s = 0; s < where.size(); ++s)
		{
			if (where[s] < 0) m.sz.push_back(fr.sz[f]), m.q.push_back(fr.q[f]), ++f;
			else
			{
				db[where[s]] = (int64_t)s;
				auto q = a.q[da[where[s]]];
				for (auto &x : q) x = w.g.neg(x);
				m.sz.push_back(a.sz[da[where[s]]]);
				m.q.push_back(q);
			}
		}
		m.rule = m.nblocks() ? m.qsum(m.unflat(r.below(m.nblocks()))) : w.g.zero();
		if (r.chance(0.25))
		{ // the conjugate of a itself
			m = m_conj(a);
			db = da;
		}
		Ent e = w.make(r, m);
		int j = w.add(std::move(e), {i});
		o.in = {i, j};
		o.m = m_tensordot(A().m, w.pool[j].m, da, db);
		if (o.m.numel() > 1500 || o.m.rank() > 5) return false;
		IL na = da, nb = db;
		for (size_t y = 0; y < na.size(); ++y)
		{
			if (r.chance(0.06)) na[y] -= a.rank();
			if (r.chance(0.06)) nb[y] -= m.rank();
		}
		o.f = [=](V &x) { return x[0]->tensordot(*x[1], na, nb); };
		return true;
	}
	if (n == "bmm")
	{
		// batch dims shared, contraction of the last of the first with the second to last of the second
		if (r.chance(0.5))
		{ // a first operand with many stored blocks: several sections per dimension, few different charges
			Ent e0 = w.make(r, busy_structure(r, w.g, (int)r.range(2, 4), (int)r.range(2, 4)));
			o.in = {i = w.add(std::move(e0), {})};
		}
		if (A().m.rank() < 2 || A().m.dtype() != w.dt) return false;
		const MT a = A().m;
		bool busy = r.chance(0.6);
		MT m;
		m.g = w.g;
		int64_t R_ = a.rank();
		for (int64_t k = 0; k < R_ - 2; ++k)
		{
			std::vector<Charge> q;
			for (size_t x = 0; x < a.sz[k].size(); ++x) q.push_back(busy || r.chance(0.4) ? w.g.zero() : w.g.random(r));
			m.sz.push_back(a.sz[k]);
			m.q.push_back(q);
		}
		auto q = a.q[R_ - 1];
		for (auto &x : q) x = w.g.neg(x);
		m.sz.push_back(a.sz[R_ - 1]);
		m.q.push_back(q);
		MT fr = random_structure(r, w.g, 1, 3, 2);
		if (busy)
		{ // columns that reach the sections of the contracted dimension
			int64_t ns = r.range(1, 4);
			fr.sz[0].clear();
			fr.q[0].clear();
			for (int64_t x = 0; x < ns; ++x)
			{
				fr.sz[0].push_back(r.range(1, 2));
				fr.q[0].push_back(r.chance(0.8) ? a.q[R_ - 1][r.below(a.q[R_ - 1].size())] : w.g.random(r));
			}
		}
		m.sz.push_back(fr.sz[0]);
		m.q.push_back(fr.q[0]);
		m.rule = m.qsum(m.unflat(r.below(m.nblocks())));
		Ent e = w.make(r, m);
		int j = w.add(std::move(e), {i});
		auto &B = w.pool[j];
		o.in = {i, j};
		o.m.g = w.g;
		o.m.rule = w.g.add(a.rule, B.m.rule);
		for (int64_t k = 0; k < R_ - 2; ++k)
		{
			std::vector<Charge> qq;
			for (size_t x = 0; x < a.sz[k].size(); ++x) qq.push_back(w.g.add(a.q[k][x], B.m.q[k][x]));
			o.m.sz.push_back(a.sz[k]);
			o.m.q.push_back(qq);
		}
		o.m.sz.push_back(a.sz[R_ - 2]);
		o.m.q.push_back(a.q[R_ - 2]);
		o.m.sz.push_back(B.m.sz[R_ - 1]);
		o.m.q.push_back(B.m.q[R_ - 1]);
		o.m.d = torch::matmul(A().m.d, B.m.d);
		if (o.m.numel() > 1500) return false;
		o.f = [](V &x) { return x[0]->bmm(*x[1]); };
		return true;
	}
	if (n == "permute" || n == "permute_" || n == "transpose" || n == "transpose_" || n == "t")
	{
		o.in = {i};
		int64_t k = A().m.rank();
		IL pr(k);
		std::iota(pr.begin(), pr.end(), 0);
		if (n[0] == 'p')
		{
			for (size_t x = pr.size(); x > 1; --x) std::swap(pr[x - 1], pr[r.below(x)]);
			IL pn = pr;
			for (auto &y : pn)
				if (r.chance(0.1)) y -= k;
			if (n == "permute") o.kind = 'v', o.f = [=](V &x) { return x[0]->permute(pn); };
			else o.kind = 'i', o.f = [=](V &x) { x[0]->permute_(pn); return none(); };
		}
		else if (n == "t")
		{
			if (k < 2) return false;
			std::swap(pr[k - 1], pr[k - 2]);
			o.kind = 'v';
			o.f = [](V &x) { return x[0]->t(); };
		}
		else
		{
			if (k < 1) return false;
			int64_t x0 = r.below(k), x1 = r.below(k);
			std::swap(pr[x0], pr[x1]);
			if (r.chance(0.2)) x0 -= k;
			if (r.chance(0.2)) x1 -= k;
			if (n == "transpose") o.kind = 'v', o.f = [=](V &x) { return x[0]->transpose(x0, x1); };
			else o.kind = 'i', o.f = [=](V &x) { x[0]->transpose_(x0, x1); return none(); };
		}
		o.m = m_permute(A().m, pr);
		return true;
	}
	if (n == "reshape" || n == "reshape_rt")
	{
		o.in = {i};
		o.kind = 'v';
		IL gr;
		for (int64_t k = 1; k < A().m.rank(); ++k)
			if (r.chance(0.5)) gr.push_back(k);
		if (r.chance(0.2) && gr.size() < 3)
		{ // a group of no dimension at all: one element of neutral charge
			gr.push_back(r.below(A().m.rank() + 1));
			std::sort(gr.begin(), gr.end());
		}
		if (n == "reshape")
		{
			o.m = m_reshape(A().m, gr);
			o.f = [=](V &x) { return x[0]->reshape(gr); };
		}
		else
		{ // fuse, then split again: the original tensor
			o.m = A().m;
			o.m.d = A().m.d.clone();
			o.f = [=](V &x) { return x[0]->reshape(gr).reshape_as(*x[0]); };
		}
		return true;
	}
	if (n == "reshape_as")
	{ // dimensions of the target with charges redistributed, total unchanged; or with rule overwritten by an equivalent one
		o.in = {i};
		o.kind = 'v';
		MT t = A().m;
		if (t.rank() < 2) return false;
		int64_t x = r.below(t.rank()), y = (x + 1) % t.rank();
		Charge s = w.g.random(r);
		for (auto &q : t.q[x]) q = w.g.add(q, s);
		bool over = r.chance(0.5);
		if (over) t.rule = w.g.add(t.rule, s); // shifted along with the dimension
		else
			for (auto &q : t.q[y]) q = w.g.sub(q, s);
		o.m = t;
		o.m.d = A().m.d.clone();
		btensor shape(t.spec(), w.g.lib(t.rule), torch::TensorOptions().dtype(w.dt));
		o.f = [=](V &z) { return over ? z[0]->template reshape_as<quantit::reshape_mode::overwrite_c_vals>(shape) : z[0]->reshape_as(shape); };
		return true;
	}
	if (n == "squeeze" || n == "squeeze_" || n == "squeezeD" || n == "squeezeD_")
	{
		o.in = {i};
		MT a = A().m;
		IL sel(a.rank(), -1);
		bool all = n.substr(0, 8) != "squeezeD";
		if (all)
		{
			bool any = false;
			for (int64_t k = 0; k < a.rank(); ++k)
				if (a.singleton(k)) sel[k] = 0, any = true;
			if (!any && r.chance(0.8)) return false;
			o.m = m_select(a, sel);
			// documented as a reshape: the charges of the squeezed dimensions go to the selection rule
			if (n == "squeeze") o.kind = 'v', o.f = [](V &x) { return x[0]->squeeze(); };
			else o.kind = 'i', o.f = [](V &x) { x[0]->squeeze_(); return none(); };
			return true;
		}
		if (a.rank() < 1) return false;
		int64_t k = r.below(a.rank());
		for (int64_t z = 0; z < a.rank(); ++z)
			if (a.singleton(z) && r.chance(0.7)) k = z;
		if (a.singleton(k)) sel[k] = 0;
		o.m = m_select(a, sel);
		if (r.chance(0.2)) k -= a.rank();
		if (n == "squeezeD") o.kind = 'v', o.f = [=](V &x) { return x[0]->squeeze(k); };
		else o.kind = 'i', o.f = [=](V &x) { x[0]->squeeze_(k); return none(); };
		return true;
	}
	if (n == "conj" || n == "conj_only" || n == "inverse" || n == "inverse_" || n == "shift" || n == "shift_" || n == "copy" || n == "assign" || n == "move" || n == "swap" || n == "to")
	{
		o.in = {i};
		o.kind = 'v';
		if (n == "conj") o.m = m_conj(A().m), o.f = [](V &x) { return x[0]->conj(); };
		if (n == "conj_only") o.m = A().m, o.m.d = A().m.d.conj().resolve_conj().clone(), o.f = [](V &x) { return x[0]->conj_only(); };
		if (n == "inverse") o.m = m_conj(A().m, false), o.f = [](V &x) { return x[0]->inverse_cvals(); };
		if (n == "inverse_") o.kind = 'i', o.m = m_conj(A().m, false), o.f = [](V &x) { x[0]->inverse_cvals_(); return none(); };
		if (n.substr(0, 5) == "shift")
		{
			if (A().m.rank() < 1) return false;
			int64_t k = r.below(A().m.rank());
			Charge s = w.g.random(r);
			o.m = A().m;
			o.m.d = A().m.d.clone();
			for (auto &q : o.m.q[k]) q = w.g.add(q, s);
			o.m.rule = w.g.add(o.m.rule, s);
			auto S = w.g.lib(s);
			if (n == "shift") o.f = [=](V &x) { return x[0]->cval_shift(S, k); };
			else o.kind = 'i', o.f = [=](V &x) { x[0]->cval_shift_(S, k); return none(); };
		}
		if (n == "copy") o.m = A().m, o.m.d = A().m.d.clone(), o.f = [](V &x) { return R(*x[0]); };
		if (n == "move") o.m = A().m, o.m.d = A().m.d.clone(), o.f = [](V &x) { R a(*x[0]); R b(std::move(a)); R c; c = std::move(b); return c; };
		if (n == "to")
		{
			o.dt = cplx ? at::kComplexDouble : r.chance(0.5) ? at::kDouble : at::kComplexDouble;
			o.m = A().m;
			o.m.d = A().m.d.to(o.dt).clone();
			auto t = o.dt;
			o.f = [=](V &x) { return x[0]->to(t); };
			o.values = true;
		}
		if (n == "assign" || n == "swap")
		{ // in place: target takes the other's value; assignment makes a handle to the same blocks, so deep copies are used
			int j = w.pick(st.arg(1));
			if (j == i) return false;
			o.in = {i, j};
			o.kind = 'i';
			o.m = w.pool[j].m;
			o.m.d = w.pool[j].m.d.clone();
			if (n == "assign") o.f = [](V &x) { *x[0] = *x[1]; return none(); };
			else o.f = [](V &x) { R t(*x[1]); x[0]->swap(t); return none(); };
		}
		return true;
	}
	if (n == "view" || n == "viewkeep" || n == "put" || n == "putT")
	{
		o.in = {i};
		const MT a = A().m;
		if (a.rank() < 1) return false;
		IL sel(a.rank(), -1);
		for (int64_t k = 0; k < a.rank(); ++k)
			if (r.chance(0.5)) sel[k] = r.below(a.dim(k));
		if (n == "view") o.kind = 'v', o.m = m_select(a, sel), o.f = [=](V &x) { return x[0]->basic_create_view(sel); };
		if (n == "viewkeep") o.kind = 'v', o.m = m_select_keep(a, sel), o.f = [=](V &x) { return x[0]->basic_create_view(sel, true); };
		if (n == "put" || n == "putT")
		{
			o.kind = 'i';
			MT v = m_select(a, sel);
			btensor vb = random_fill(r, v, w.dt, r.chance(0.5) ? 1.0 : 0.6);
			o.m = a;
			o.m.d = a.d.clone();
			auto dst = o.m.d;
			int64_t drop = 0;
			for (int64_t k = 0; k < a.rank(); ++k)
				if (sel[k] >= 0) dst = dst.select(k - drop++, sel[k]);
			if (n == "put")
			{ // blocks that are not stored in the value are zeros
				Ent e{vb, v};
				int j = w.add(std::move(e), {i});
				dst.copy_(w.pool[j].m.d);
				o.in = {i, j};
				o.f = [=](V &x) { x[0]->basic_index_put_(sel, *x[1]); return none(); };
			}
			else
			{
				auto full = random_dense(r, v.dims(), w.dt, 3, 0.0);
				if (r.chance(0.5)) full = torch::where(full == 0, torch::ones_like(full), full);
				auto mask = v.mask();
				dst.copy_(torch::where(mask != 0, full, dst));
				o.f = [=](V &x) { x[0]->basic_index_put_(sel, full); return none(); };
			}
		}
		return true;
	}
	if (n == "like")
	{
		o.in = {i};
		o.m = A().m;
		int k = int(u64(st.arg(1)) % 10);
		if (w.norandom && (k == 4 || k == 7)) k = 5;
		double s = scalar_of(st.arg(3));
		auto msk = A().m.mask().to(w.dt);
		torch::Scalar S = s;
		if (k == 7) o.values = false, o.f = [](V &x) { return quantit::randn_like(*x[0]); };
		if (k == 8)
		{
			if (cplx) return false;
			// one possible value only: the content is known
			int64_t v = r.range(-2, 3);
			bool swapped = r.chance(0.5);
			o.m.d = msk * v;
			o.f = [=](V &x) { return swapped ? quantit::randint_like(*x[0], v, v + 1) : quantit::randint_like(v, v + 1, *x[0]); };
		}
		if (k == 9)
		{ // another element type asked for
			o.dt = r.chance(0.5) ? at::kComplexDouble : r.chance(0.5) ? at::kDouble : at::kFloat;
			auto dt = o.dt;
			o.m.d = A().m.mask().to(dt);
			bool zero = r.chance(0.5);
			if (zero) o.m.d = o.m.d * 0, o.f = [=](V &x) { return quantit::zeros_like(*x[0], torch::TensorOptions().dtype(dt)); };
			else o.f = [=](V &x) { return quantit::ones_like(*x[0], torch::TensorOptions().dtype(dt)); };
		}
		if (k == 0) o.m.d = msk * 0, o.f = [](V &x) { return quantit::zeros_like(*x[0]); };
		if (k == 1) o.m.d = msk, o.f = [](V &x) { return quantit::ones_like(*x[0]); };
		if (k == 2) o.m.d = msk * s, o.f = [=](V &x) { return quantit::full_like(*x[0], S); };
		if (k == 3) o.m.d = msk * 0, o.f = [](V &x) { return quantit::sparse_zeros_like(*x[0]); };
		if (k == 4) o.values = false, o.f = [](V &x) { return quantit::rand_like(*x[0]); };
		if (k == 5) o.values = false, o.f = [](V &x) { return quantit::empty_like(*x[0]); };
		if (k == 6)
		{
			if (A().m.rank() != 2) return false;
			o.m.d = torch::zeros(o.m.dims(), w.dt);
			for (int64_t x = 0; x < std::min(o.m.nsec(0), o.m.nsec(1)); ++x)
				if (o.m.allowed({x, x})) o.m.view(o.m.d, {x, x}).copy_(torch::eye(o.m.sz[0][x], o.m.sz[1][x], w.dt));
			o.f = [](V &x) { return quantit::eye_like(*x[0]); };
		}
		return true;
	}
	if (n == "factory")
	{
		o.in = {i};
		o.m = A().m;
		auto sp = A().m.spec();
		auto q = w.g.lib(A().m.rule);
		auto opt = torch::TensorOptions().dtype(w.dt);
		int k = int(u64(st.arg(1)) % 13);
		if (w.norandom && (k == 3 || k == 6)) k = 0;
		auto msk = A().m.mask().to(w.dt);
		if (k == 6) o.values = false, o.f = [=](V &) { return quantit::randn(sp, q, opt); };
		if (k == 7)
		{
			if (cplx) return false;
			int64_t v = r.range(-2, 3);
			bool swapped = r.chance(0.5);
			o.m.d = msk * v;
			o.f = [=](V &) { return swapped ? quantit::randint(sp, q, v, v + 1, opt) : quantit::randint(v, v + 1, sp, q, opt); };
		}
		if (k == 8)
		{
			if (A().m.rank() != 2 && A().m.rank() != 1) return false;
			if (A().m.sz[0].empty()) return false;
			o.m.rule = w.g.zero();
			if (A().m.rank() == 1)
			{
				o.m.sz.push_back(o.m.sz[0]);
				o.m.q.push_back({});
				for (auto &c : o.m.q[0]) o.m.q[1].push_back(w.g.neg(c));
			}
			o.m.d = torch::zeros(o.m.dims(), w.dt);
			for (int64_t x = 0; x < std::min(o.m.nsec(0), o.m.nsec(1)); ++x)
				if (o.m.allowed({x, x})) o.m.view(o.m.d, {x, x}).copy_(torch::eye(o.m.sz[0][x], o.m.sz[1][x], w.dt));
			o.f = [=](V &) { return quantit::eye(sp, opt); };
		}
		if (k == 9) o.values = false, o.f = [=](V &) { return quantit::empty(sp, q, opt); };
		if (k == 10)
		{ // the element type comes from the values
			auto d = A().m.d.clone();
			o.kind = 'v';
			o.m.d = d;
			o.f = [=](V &) { return quantit::from_basic_tensor(sp, q, d.clone()); };
		}
		if (k == 11 || k == 12)
		{ // values of another type than the options or the model tensor
			o.dt = cplx ? at::kComplexDouble : r.chance(0.5) ? at::kComplexDouble : w.dt == at::kFloat ? at::kDouble : at::kFloat;
			auto dt = o.dt;
			auto d = (k == 11 ? A().m.d : random_dense(r, o.m.dims(), dt, 3, 0.0) * A().m.mask()).to(dt);
			o.kind = 'v';
			o.m.d = d;
			if (k == 11) o.f = [=](V &x) { return quantit::from_basic_tensor(sp, q, x[0]->to_dense(), 1e-16, torch::TensorOptions().dtype(dt)); };
			else o.f = [=](V &x) { return quantit::from_basic_tensor_like(*x[0], d.clone(), 1e-16); };
		}
		if (k == 0) o.m.d = msk, o.f = [=](V &) { return quantit::ones(sp, q, opt); };
		if (k == 1) o.m.d = msk * 0, o.f = [=](V &) { return quantit::zeros(sp, q, opt); };
		if (k == 2) o.m.d = msk * 3, o.f = [=](V &) { return quantit::full(sp, q, 3, opt); };
		if (k == 3) o.values = false, o.f = [=](V &) { return quantit::rand(sp, q, opt); };
		if (k == 4)
		{
			auto d = A().m.d.clone();
			o.kind = 'v';
			o.m.d = d;
			o.f = [=](V &) { return quantit::from_basic_tensor(sp, q, d.clone(), 1e-16, opt); };
		}
		if (k == 5)
		{
			auto full = random_dense(r, o.m.dims(), w.dt, 3, 0.0);
			o.kind = 'v';
			o.m.d = full * msk;
			o.f = [=](V &x) { return quantit::from_basic_tensor_like(*x[0], full.clone(), 1e-16); };
		}
		return true;
	}
	if (n == "shape")
	{
		o.in = {i};
		const MT a = A().m;
		int k = int(u64(st.arg(1)) % 4);
		if (k == 0)
		{
			IL sel(a.rank(), -1);
			for (int64_t z = 0; z < a.rank(); ++z)
				if (r.chance(0.5)) sel[z] = r.below(a.dim(z));
			o.m = m_select(a, sel);
			o.f = [=](V &x) { return x[0]->shape_from(sel); };
		}
		else
		{
			int j = w.pick(st.arg(3));
			if (a.rank() + w.pool[j].m.rank() > 5) return false;
			o.in = {i, j};
			o.m = m_product(a, w.pool[j].m);
			if (k == 1) o.f = [](V &x) { return x[0]->tensor_product_shape(*x[1]); };
			if (k == 2) o.f = [](V &x) { return quantit::shape_from(*x[0], *x[1]); };
			if (k == 3)
			{
				Charge s = w.g.random(r), rl = w.g.random(r);
				auto S = w.g.lib(s), RL = w.g.lib(rl);
				if (o.m.rank() < 1) return false;
				int64_t z = r.below(o.m.rank());
				for (auto &q : o.m.q[z]) q = w.g.add(q, s);
				bool which = r.chance(0.5);
				o.m.rule = which ? rl : w.g.add(o.m.rule, rl);
				o.f = [=](V &x) {
					auto t = quantit::shape_from(*x[0], *x[1]);
					t.non_conserving_cval_shift_(S, z);
					if (which) t.set_selection_rule_(RL);
					else t.shift_selection_rule_(RL);
					return t;
				};
			}
		}
		o.m.d = torch::zeros(o.m.dims(), w.dt);
		return true;
	}
	if (n == "neutral")
	{
		o.in = {i};
		o.m = A().m;
		for (auto &d : o.m.q)
			for (auto &q : d) q = w.g.zero();
		o.m.rule = w.g.zero();
		o.m.d = torch::zeros(o.m.dims(), w.dt);
		o.f = [](V &x) { return quantit::sparse_zeros_like(*x[0]).neutral_shape(); };
		return true;
	}
	if (n == "refused")
	{ // wrong use: must be refused without any effect
		int k = int(u64(st.arg(1)) % 25);
		o.in = {i};
		o.must_throw = true;
		const MT a = A().m;
		auto one = w.g.norm(Charge(w.g.zero().size(), 1));
		if (k == 9 || k == 10)
		{ // contraction of dimensions of different layouts, or of different numbers of dimensions
			if (a.rank() < 1) return false;
			MT m = m_conj(a);
			int64_t d = r.below(a.rank());
			int what = (int)r.below(3);
			if (what == 0 && a.sz[d].empty()) what = 1;
			if (what == 0) m.sz[d][r.below(m.sz[d].size())] += 1;
			if (what == 1) m.sz[d].push_back(1), m.q[d].push_back(w.g.zero());
			Ent e = w.make(r, m);
			int j = w.add(std::move(e), {i});
			o.in = {i, j};
			bool swp = r.chance(0.5);
			if (what == 2) o.f = [=](V &x) { return swp ? x[0]->tensordot(*x[1], {d}, {}) : x[0]->tensordot(*x[1], {}, {d}); };
			else o.f = [=](V &x) { return x[swp]->tensordot(*x[!swp], {d}, {d}); };
			return true;
		}
		if (k == 11 || k == 12)
		{ // batch products of matrices that don't fit
			if (a.rank() < 2) return false;
			MT m = a;
			int64_t R_ = a.rank();
			std::swap(m.sz[R_ - 1], m.sz[R_ - 2]);
			std::swap(m.q[R_ - 1], m.q[R_ - 2]);
			for (auto &q : m.q)
				for (auto &y : q) y = w.g.neg(y);
			int what = (int)r.below(7);
			int64_t c2 = R_ - 2, ns = m.sz[c2].size();
			int64_t bt = R_ > 2 ? r.below(R_ - 2) : -1, nb = bt >= 0 ? m.sz[bt].size() : 0;
			if (what >= 4 && bt < 0) what -= 4;
			if (what == 3) what = 2;
			if ((what == 0 || what == 2) && ns == 0) what = 1;
			if (what == 5 && nb == 0) what = 4;
			if (what == 0) m.sz[c2][r.below(ns)] += 1;
			if (what == 1) m.sz[c2].push_back(1), m.q[c2].push_back(w.g.zero());
			if (what == 2) { auto &y = m.q[c2][r.below(ns)]; y = w.g.add(y, one); }
			if (what == 4) m.sz[bt].push_back(1), m.q[bt].push_back(w.g.zero());
			if (what == 5) m.sz[bt][r.below(nb)] += 1;
			if (what == 6) m.sz.insert(m.sz.begin(), IL{1}), m.q.insert(m.q.begin(), {w.g.zero()});
			m.rule = w.g.neg(m.rule);
			Ent e = w.make(r, m);
			int j = w.add(std::move(e), {i});
			o.in = {i, j};
			o.f = [=](V &x) { return x[0]->bmm(*x[1]); };
			return true;
		}
		if (k == 13)
		{ // a scalar out of a tensor of several elements
			if (a.numel() == 1) return false;
			o.kind = 'i';
			o.f = [=](V &x) { (void)x[0]->item(); return none(); };
			return true;
		}
		if (k == 14)
		{ // an element that doesn't exist
			if (a.rank() < 1) return false;
			int64_t d = r.below(a.rank()), n2 = a.dim(d) + r.below(3);
			int what = (int)r.below(5);
			o.kind = 'i';
			auto g = w.g;
			int64_t past = a.nsec(d) + r.below(2);
			if (a.nblocks() == 0 && what >= 2) what = 0;
			IL ix = what >= 2 ? a.unflat(r.below(a.nblocks())) : IL();
			if (what == 2) ix[d] = past;
			if (what == 3) ix[d] = -1;
			if (what == 4) { if (r.chance(0.5)) ix.pop_back(); else ix.push_back(0); }
			int64_t R_ = a.rank();
			o.f = [=](V &x) {
				if (what == 0) (void)x[0]->element_conserved_qtt(d, n2);
				if (what == 1) (void)((const btensor *)x[0])->section_conserved_qtt_range(R_ + d);
				if (what >= 2) x[0]->block(ix);
				return none();
			};
			return true;
		}
		if (k == 15)
		{ // a view with an element that doesn't exist, or of a wrong number of dimensions
			if (a.rank() < 1) return false;
			IL el;
			for (int64_t z = 0; z < a.rank(); ++z) el.push_back(r.chance(0.5) || a.dim(z) == 0 ? -1 : r.below(a.dim(z)));
			int64_t d = r.below(a.rank());
			if (r.chance(0.7)) el[d] = a.dim(d) + r.below(2);
			else if (r.chance(0.5)) el.push_back(-1);
			else el.pop_back();
			if (el.size() == (size_t)a.rank() && a.dim(d) == 0) return false; // a dimension without any element can be left out
			bool shp = r.chance(0.5);
			o.f = [=](V &x) { return shp ? quantit::shape_from(*x[0], el) : x[0]->basic_create_view(el); };
			return true;
		}
		if (k == 16 || k == 17)
		{ // parts that don't make a tensor
			if (a.rank() < 1 || A().b.blocks().size() == 0) return false;
			int64_t R_ = a.rank();
			std::vector<std::pair<IL, at::Tensor>> bl;
			for (auto &kv : A().b) bl.push_back({kv.first, kv.second.clone()});
			IL sbd, ss;
			std::vector<Charge> qs;
			for (int64_t z = 0; z < R_; ++z)
			{
				sbd.push_back(a.nsec(z));
				for (int64_t y = 0; y < a.nsec(z); ++y) ss.push_back(a.sz[z][y]), qs.push_back(a.q[z][y]);
			}
			auto rule = a.rule;
			size_t rank = R_;
			auto &vict = bl[r.below(bl.size())];
			int64_t d = r.below(R_);
			switch ((int)r.below(8))
			{
			case 0: rule = w.g.add(rule, one); break;
			case 1: vict.first[d] = a.nsec(d) + r.below(3); break;
			case 2: vict.first[d] = -1 - r.below(2); break;
			case 3: vict.second = torch::cat({vict.second, vict.second}, d); break;
			case 4: vict.second = vict.second.unsqueeze(d); break;
			case 5: if (r.chance(0.5)) vict.first.push_back(0); else vict.first.pop_back(); break;
			case 6: rank += r.chance(0.5) ? 1 : -1; break;
			default: if (r.chance(0.5)) ss.push_back(1); else ss.pop_back(); break;
			}
			auto g = w.g;
			auto dt = a.dtype();
			o.f = [=](V &) {
				btensor::block_list_t L(bl.begin(), bl.end());
				quantit::any_quantity_vector cv(qs.size(), g.lib(g.zero()));
				for (size_t z = 0; z < qs.size(); ++z) cv[z] = g.lib(qs[z]);
				return btensor(rank, std::move(L), sbd, ss, std::move(cv), g.lib(rule), torch::TensorOptions().dtype(dt));
			};
			return true;
		}
		if (k >= 23)
		{ // dimensions that don't exist, or the same one twice
			int64_t R_ = a.rank();
			int what = (int)r.below(6);
			int64_t bad = R_ + r.below(2), good = R_ ? r.below(R_) : 0;
			o.kind = 'v';
			IL pr(R_);
			std::iota(pr.begin(), pr.end(), 0);
			if (what <= 2)
			{
				if (what == 0) { if (r.chance(0.5) || R_ == 0) pr.push_back(R_); else pr.pop_back(); }
				if (what == 1) { if (R_ < 2) return false; pr[good] = pr[(good + 1) % R_]; }
				if (what == 2) { if (R_ < 1) return false; pr[good] = bad; }
				bool inpl = r.chance(0.5);
				if (inpl) o.kind = 'i', o.f = [=](V &x) { x[0]->permute_(pr); return none(); };
				else o.f = [=](V &x) { return x[0]->permute(pr); };
				return true;
			}
			if (R_ < 1) return false;
			if (what == 3)
			{
				bool inpl = r.chance(0.5), sw = r.chance(0.5);
				if (inpl) o.kind = 'i', o.f = [=](V &x) { x[0]->transpose_(sw ? good : bad, sw ? bad : good); return none(); };
				else o.f = [=](V &x) { return x[0]->transpose(sw ? good : bad, sw ? bad : good); };
				return true;
			}
			if (what == 4)
			{
				bool inpl = r.chance(0.5);
				if (inpl) o.kind = 'i', o.f = [=](V &x) { x[0]->squeeze_(bad); return none(); };
				else o.f = [=](V &x) { return x[0]->squeeze(bad); };
				return true;
			}
			MT m = m_conj(a);
			int j = w.add(w.make(r, m), {i});
			o.in = {i, j};
			o.kind = 'o';
			bool twice = r.chance(0.5), sw = r.chance(0.5);
			if (twice) o.f = [=](V &x) { return x[0]->tensordot(*x[1], {good, good}, {good, good}); };
			else o.f = [=](V &x) { return x[0]->tensordot(*x[1], {sw ? good : bad}, {sw ? bad : good}); };
			return true;
		}
		if (k == 20)
		{ // a matrix product of tensors that hold no matrices
			int64_t R_ = r.below(2);
			MT m = busy_structure(r, w.g, (int)R_, 2), m2 = R_ ? m_conj((m.d = torch::zeros(m.dims(), w.dt), m)) : m;
			int x1 = w.add(w.make(r, m), {}), x2 = w.add(w.make(r, m2), {x1});
			o.in = {x1, x2};
			o.f = [](V &x) { return x[0]->bmm(*x[1]); };
			return true;
		}
		if (k == 21 || k == 22)
		{ // reshaping into another number of elements, other sections, other quantities, or dimensions that don't exist
			MT t = a;
			if (t.rank() < 1) return false;
			int64_t R_ = t.rank(), z = r.below(R_);
			int what = (int)r.below(6);
			if (R_ >= 2 && r.chance(0.4) && what < 4)
			{ // also of another rank
				IL gr;
				for (int64_t y = 1; y < R_; ++y)
					if (r.chance(0.5)) gr.push_back(y);
				t = m_reshape(a, gr);
				z = r.below(t.rank());
			}
			if (what >= 4)
			{
				IL gr;
				for (int64_t y = 1; y < R_; ++y)
					if (r.chance(0.5)) gr.push_back(y);
				gr.insert(gr.begin() + r.below(gr.size() + 1), what == 4 ? R_ + 1 + (i64)r.below(2) : -1 - (i64)r.below(2));
				o.f = [=](V &x) { return x[0]->reshape(gr); };
				return true;
			}
			if (t.sz[z].empty() || t.nblocks() == 0) return false;
			bool over = r.chance(0.5);
			if (what == 0) t.sz[z][r.below(t.sz[z].size())] += 1;
			if (what == 1) t.sz[z].push_back(1), t.q[z].push_back(w.g.zero());
			if (what == 2) { auto &y = t.q[z][r.below(t.q[z].size())]; y = w.g.add(y, one); over = false; }
			if (what == 3)
			{
				if (A().b.blocks().size() == 0) over = false;
				if (over) t.rule = w.g.add(t.rule, one);
				else for (auto &y : t.q[z]) y = w.g.add(y, one);
			}
			btensor shape(t.spec(), w.g.lib(t.rule), torch::TensorOptions().dtype(a.dtype()));
			o.f = [=](V &x) { return over ? x[0]->template reshape_as<quantit::reshape_mode::overwrite_c_vals>(shape) : x[0]->reshape_as(shape); };
			return true;
		}
		if (k == 18)
		{ // functions of matrices asked about something else
			int what = (int)r.below(3);
			int64_t R_ = a.rank();
			auto dt = w.dt;
			if (R_ == 2) what = 2;
			if (what == 0) o.f = [=](V &x) { return quantit::eye_like(*x[0]); };
			if (what == 1)
			{
				auto d = a.d;
				o.f = [=](V &x) { (void)quantit::find_selection_rule(d, *x[0]); return none(); };
			}
			if (what == 2)
			{
				bool more = r.chance(0.5) || R_ == 0;
				auto d = more ? a.d.unsqueeze(0).clone() : a.d.numel() ? a.d.select(0, 0).clone() : a.d;
				if (!more && a.d.numel() == 0) return false;
				if (r.chance(0.5) && R_ > 0)
				{ // of the right rank but not of the right size
					int64_t dd = r.below(R_);
					d = r.chance(0.5) ? torch::cat({a.d, a.d}, dd) : a.d.narrow(dd, 0, a.dim(dd) - 1).clone();
					if (d.numel() == 0 && a.numel() == 0) return false;
				}
				o.f = [=](V &x) { return quantit::from_basic_tensor_like(*x[0], d); };
			}
			return true;
		}
		if (k == 19)
		{ // element-wise product of dimensions whose sections have different sizes
			if (a.rank() < 1) return false;
			int64_t d = r.below(a.rank());
			if (a.sz[d].empty() || a.singleton(d)) return false;
			MT m = a;
			m.sz[d][r.below(m.sz[d].size())] += 1 + r.below(2);
			Ent e = w.make(r, m);
			int j = w.add(std::move(e), {i});
			o.in = {i, j};
			bool inpl = r.chance(0.5), dv = r.chance(0.3);
			o.kind = inpl ? 'i' : 'o';
			o.f = [=](V &x) {
				if (inpl) return dv ? x[0]->div_(*x[1]) : x[0]->mul_(*x[1]), R();
				return dv ? x[0]->div(*x[1]) : x[0]->mul(*x[1]);
			};
			return true;
		}
		if (k == 0)
		{
			if (A().b.blocks().size() == 0) return false;
			auto S = w.g.lib(w.g.random(r));
			o.kind = 'i';
			int z = (int)r.below(4);
			if (a.rank() < 1) return false;
			o.f = [=](V &x) {
				if (z == 0) x[0]->set_selection_rule_(S);
				if (z == 1) x[0]->shift_selection_rule_(S);
				if (z == 2) x[0]->non_conserving_cval_shift_(S, 0);
				if (z == 3) x[0]->neutral_shape_();
				return none();
			};
			return true;
		}
		if (k <= 3)
		{
			MT m = a;
			if (k == 1) m.rule = w.g.add(m.rule, w.g.norm(Charge(w.g.zero().size(), 1)));
			if (k == 2)
			{
				if (m.rank() < 1) return false;
				m.sz[0][0] += 1;
			}
			if (k == 3)
			{
				if (m.rank() < 1) return false;
				m.q[0][0] = w.g.add(m.q[0][0], w.g.norm(Charge(w.g.zero().size(), 1)));
			}
			Ent e = w.make(r, m);
			int j = w.add(std::move(e), {i});
			o.in = {i, j};
			bool inpl = r.chance(0.5);
			o.kind = inpl ? 'i' : 'o';
			o.f = [=](V &x) {
				if (inpl) return x[0]->add_(*x[1]), R();
				return x[0]->add(*x[1]);
			};
			return true;
		}
		if (k == 4)
		{ // contraction of incompatible charges
			if (a.rank() < 1) return false;
			MT m = m_conj(a);
			int64_t d = r.below(a.rank());
			m.q[d][0] = w.g.add(m.q[d][0], w.g.norm(Charge(w.g.zero().size(), 1)));
			Ent e = w.make(r, m);
			int j = w.add(std::move(e), {i});
			o.in = {i, j};
			o.f = [=](V &x) { return x[0]->tensordot(*x[1], {d}, {d}); };
			return true;
		}
		if (k == 5)
		{ // a block that the rule forbids
			std::vector<IL> bad;
			for (int64_t f = 0; f < a.nblocks(); ++f)
				if (!a.allowed(a.unflat(f))) bad.push_back(a.unflat(f));
			if (bad.empty()) return false;
			auto ix = bad[r.below((i64)bad.size())];
			o.kind = 'i';
			o.f = [=](V &x) { x[0]->block(ix); return none(); };
			return true;
		}
		if (k == 6)
		{ // an absent block
			IL ix;
			for (auto &b : a.allowed_blocks())
				if (!A().b.blocks().contains(b)) ix = b;
			if (ix.empty()) return false;
			o.kind = 'i';
			o.f = [=](V &x) { x[0]->block_at(ix); return none(); };
			return true;
		}
		if (k == 7)
		{ // in place with an operand of larger rank: the result doesn't fit in the left operand
			MT m = a;
			m.sz.insert(m.sz.begin(), r.chance(0.5) ? IL{1} : IL{2});
			m.q.insert(m.q.begin(), {w.g.zero()});
			Ent e = w.make(r, m);
			int j = w.add(std::move(e), {i});
			o.in = {i, j};
			o.kind = 'i';
			bool dv = r.chance(0.3);
			o.f = [=](V &x) {
				if (dv) x[0]->div_(*x[1]);
				else x[0]->mul_(*x[1]);
				return none();
			};
			return true;
		}
		// multiplication of incompatible shapes
		if (a.rank() < 1) return false;
		MT m = a;
		m.sz.back() = {1, 1, 2, 1};
		m.q.back() = {w.g.zero(), w.g.zero(), w.g.random(r), w.g.zero()};
		if (a.singleton(a.rank() - 1) || a.nsec(a.rank() - 1) == 4) return false;
		m.rule = m.qsum(m.unflat(r.below(m.nblocks())));
		Ent e = w.make(r, m);
		int j = w.add(std::move(e), {i});
		o.in = {i, j};
		bool inpl = r.chance(0.5);
		o.kind = inpl ? 'i' : 'o';
		o.f = [=](V &x) {
			if (inpl) return x[0]->mul_(*x[1]), R();
			return x[0]->mul(*x[1]);
		};
		return true;
	}
	if (n == "block")
	{ // access to an allowed block that may not be stored yet: allocates it
		auto bl = A().m.allowed_blocks();
		if (bl.empty()) return false;
		auto ix = bl[r.below((i64)bl.size())];
		o.in = {i};
		o.kind = 'i';
		o.m = A().m;
		o.m.d = A().m.d.clone();
		bool write = r.chance(0.6);
		if (write)
		{
			auto t = random_dense(r, o.m.bsize(ix), w.dt);
			o.m.view(o.m.d, ix).copy_(t);
			o.f = [=](V &x) { x[0]->block(ix) = t.clone(); return none(); };
		}
		else o.f = [=](V &x) { x[0]->block(ix); return none(); };
		return true;
	}
	if (n == "query")
	{
		o.in = {i};
		o.kind = 'q';
		int k = int(u64(st.arg(1)) % 12);
		const MT a = A().m;
		if (k == 11)
		{
			if (a.numel() != 1) return false;
			o.query = [=](V &x) {
				auto v = x[0]->item();
				Quiet q;
				auto t = torch::full({}, v, a.dtype());
				return close(t, a.d.reshape({}), tol_of(a.dtype())) ? std::string() : "item() gives " + show(t) + " instead of " + show(a.d);
			};
			return true;
		}
		if (k == 10)
		{ // dimensions that hold nothing: no section at all, or sections of size 0
			std::vector<Ent> es;
			auto mk = [&](MT m) {
				Ent e;
				m.d = torch::zeros(m.dims(), w.dt);
				e.m = m;
				btensor b(m.spec(), w.g.lib(m.rule), torch::TensorOptions().dtype(w.dt));
				for (auto &ix : m.allowed_blocks())
					if (r.chance(0.6))
					{
						auto t = random_dense(r, m.bsize(ix), w.dt);
						m.view(e.m.d, ix).copy_(t);
						b.block(ix) = t;
					}
				e.b = b;
				return e;
			};
			MT m = busy_structure(r, w.g, (int)r.range(1, 3), 3);
			int64_t R_ = m.rank(), z = r.below(R_);
			bool none_ = r.chance(0.6);
			if (none_) m.sz[z].clear(), m.q[z].clear();
			else for (auto &y : m.sz[z]) if (r.chance(0.6)) y = 0;
			Ent e = mk(m);
			const MT em = e.m;
			btensor eb = e.b;
			int what = (int)r.below(12);
			double tol = tol_of(w.dt);
			auto same = [=](const btensor &res, const MT &want) -> std::string {
				auto s = structure(res, want);
				if (!s.empty()) return s;
				auto d = dense(res, want, want.dtype());
				return close(d, want.d, tol) ? std::string() : "gives " + show(d) + " instead of " + show(want.d);
			};
			std::function<btensor()> f;
			MT want = em;
			if (what == 0)
			{
				auto e2 = mk(em);
				auto b2 = e2.b;
				want.d = em.d + e2.m.d * 2;
				f = [=] { return eb.add(b2, 2); };
			}
			if (what == 1 || what == 2)
			{ // with an operand of the same layout, or of size one along the empty dimension
				MT m2 = em;
				if (what == 2) m2.sz[z] = {1}, m2.q[z] = {w.g.random(r)};
				m2.rule = w.g.random(r);
				if (m2.nblocks()) m2.rule = m2.qsum(m2.unflat(r.below(m2.nblocks())));
				auto e2 = mk(m2);
				auto b2 = e2.b;
				bool sw = r.chance(0.5);
				if (!m_broadcast_shape(em, m2, want)) return false;
				want.d = em.d * e2.m.d;
				bool inpl = !sw && r.chance(0.4);
				f = [=] {
					if (inpl) { btensor t = deep(eb); t.mul_(b2); return t; }
					return sw ? b2.mul(eb) : eb.mul(b2);
				};
			}
			if (what == 3 || what == 4)
			{
				MT m2 = m_conj(em);
				int64_t dd = what == 3 ? z : r.below(R_);
				auto e2 = mk(m2);
				auto b2 = e2.b;
				want = m_tensordot(em, e2.m, {dd}, {dd});
				f = [=] { return eb.tensordot(b2, {dd}, {dd}); };
			}
			if (what == 5)
			{
				IL pr(R_);
				std::iota(pr.begin(), pr.end(), 0);
				std::swap(pr[0], pr[R_ - 1]);
				want = m_permute(em, pr);
				f = [=] { return eb.permute(pr); };
			}
			if (what == 6) want = m_conj(em), f = [=] { return eb.conj(); };
			if (what == 7) want.d = em.d * 3, f = [=] { return eb.mul(3); };
			if (what == 8)
			{
				IL gr;
				for (int64_t y = 1; y < R_; ++y)
					if (r.chance(0.5)) gr.push_back(y);
				want = m_reshape(em, gr);
				f = [=] { return eb.reshape(gr); };
			}
			if (what == 9)
			{
				if (R_ < 2) return false;
				MT m2 = em;
				std::swap(m2.sz[R_ - 1], m2.sz[R_ - 2]);
				std::swap(m2.q[R_ - 1], m2.q[R_ - 2]);
				for (auto &q : m2.q)
					for (auto &y : q) y = w.g.neg(y);
				m2.rule = w.g.neg(m2.rule);
				auto e2 = mk(m2);
				auto b2 = e2.b;
				want.rule = w.g.add(em.rule, m2.rule);
				for (int64_t y = 0; y < R_ - 2; ++y)
					for (auto &t : want.q[y]) t = w.g.zero();
				want.sz[R_ - 1] = m2.sz[R_ - 1];
				want.q[R_ - 1] = m2.q[R_ - 1];
				want.d = torch::matmul(em.d, e2.m.d);
				f = [=] { return eb.bmm(b2); };
			}
			if (what == 10)
			{ // through the dense form and back
				f = [=] { return quantit::from_basic_tensor_like(eb, eb.to_dense()); };
			}
			if (what == 11)
			{
				double sc = r.range(-2, 2);
				want.d = em.d + em.mask().to(w.dt) * sc;
				f = [=] { return eb.add(sc); };
			}
			auto dsc = em.desc();
			o.query = [=](V &) {
				std::string s;
				try
				{
					btensor res = f();
					Quiet q;
					s = same(res, want);
				}
				catch (std::exception &ex)
				{
					if (fault_fired()) throw;
					Quiet q;
					s = std::string("raises ") + ex.what();
				}
				return s.empty() ? s : "operation " + std::to_string(what) + " on " + dsc + " (empty dimension " + std::to_string(z) + "): " + s;
			};
			return true;
		}
		if (k == 7)
		{ // the selection rule of a dense matrix, from its nonzero elements
			if (a.rank() != 2 || a.sz[0].empty() || a.sz[1].empty() || a.d.isnan().any().item().toBool()) return false;
			auto d = a.d.clone();
			bool mixed = r.chance(0.3) && d.numel() > 1;
			if (mixed)
			{
				Quiet q;
				d.index_put_({r.below(a.dim(0)), r.below(a.dim(1))}, 1.5);
			}
			// expectation, element by element
			std::vector<Charge> seen;
			auto nz = d.ne(0);
			for (int64_t x = 0; x < a.dim(0); ++x)
				for (int64_t y = 0; y < a.dim(1); ++y)
					if (nz.index({x, y}).item().toBool())
					{
						int64_t bx = 0, by = 0, ex = x, ey = y;
						while (ex >= a.sz[0][bx]) ex -= a.sz[0][bx++];
						while (ey >= a.sz[1][by]) ey -= a.sz[1][by++];
						auto c = w.g.add(a.q[0][bx], a.q[1][by]);
						if (std::find(seen.begin(), seen.end(), c) == seen.end()) seen.push_back(c);
					}
			auto g = w.g;
			o.query = [=](V &x) {
				bool threw = false;
				any_quantity got(g.lib(g.zero()));
				try
				{
					got = quantit::find_selection_rule(d, *x[0]);
				}
				catch (const std::logic_error &)
				{
					threw = true;
				}
				if (threw != (seen.size() > 1)) return std::string("find_selection_rule ") + (threw ? "refuses a matrix with a rule" : "accepts a matrix without a rule");
				if (!threw && !(got == g.lib(seen.empty() ? g.zero() : seen[0]))) return std::string("find_selection_rule finds the wrong rule");
				return std::string();
			};
		}
		if (k == 8)
		{ // what the accessors say about the structure, forward and backward
			auto g = w.g;
			o.query = [=](V &x) {
				const btensor &t = *x[0];
				std::vector<IL> fw, bw;
				for (auto &kv : t) fw.push_back(kv.first);
				for (auto it = t.rbegin(); it != t.rend(); ++it) bw.push_back((*it).first);
				std::reverse(bw.begin(), bw.end());
				if (fw != bw) return std::string("reverse iteration visits other blocks");
				if (!std::is_sorted(fw.begin(), fw.end())) return std::string("iteration is not in order");
				for (auto &ix : fw)
				{
					auto bs = t.block_sizes(ix);
					auto bq = t.block_quantities(ix);
					IL sizes(bs.begin(), bs.end());
					if (sizes != a.bsize(ix)) return std::string("block_sizes is wrong");
					int64_t z = 0;
					for (auto it = bq.begin(); it != bq.end(); ++it, ++z)
						if (z >= a.rank() || !(any_quantity(*it) == g.lib(a.q[z][ix[z]]))) return std::string("block_quantities is wrong");
					if (z != a.rank()) return std::string("block_quantities stops early");
					if (!t.blocks().contains(ix)) return std::string("a visited block is not found");
				}
				for (int64_t z = 0; z < a.rank(); ++z)
				{
					if ((int64_t)t.section_number(z) != a.nsec(z)) return std::string("section_number is wrong");
					auto [qb, qe] = t.section_cqtts(z);
					auto [sb, se] = t.section_sizes(z);
					if (qe - qb != (i64)a.sz[z].size() || se - sb != (i64)a.sz[z].size()) return std::string("section ranges have the wrong length");
					for (size_t k = 0; k < a.sz[z].size(); ++k, ++qb, ++sb)
						if (*sb != a.sz[z][k] || !(any_quantity(*qb) == g.lib(a.q[z][k]))) return std::string("section ranges are wrong");
				}
				if (!(any_quantity(t.selection_rule) == g.lib(a.rule))) return std::string("selection_rule is wrong");
				return std::string();
			};
		}
		if (k == 9)
		{ // the printed form exists for every tensor and is a function of what the tensor is
			o.query = [=](V &x) {
				auto s1 = quantit::to_string(*x[0]);
				btensor y = *x[0];
				auto s2 = quantit::to_string(y);
				if (s1.empty()) return std::string("to_string is empty");
				return s1 == s2 ? std::string() : std::string("to_string differs between equal tensors");
			};
		}
		if (k == 0)
			o.query = [=](V &x) { auto d = x[0]->to_dense(); Quiet q; return d.scalar_type() == a.dtype() && close(d, a.d, tol_of(a.dtype())) ? "" : std::string("to_dense gives ") + c10::toString(d.scalar_type()) + show(d) + " instead of " + c10::toString(a.dtype()) + show(a.d); };
		if (k == 1)
			o.query = [=](V &x) {
				auto s = x[0]->sum();
				auto v = s.item();
				Quiet q;
				if (s.dim() != 0) return std::string("sum() is not of rank 0");
				return close(torch::full({}, v, a.dtype()), a.d.sum(), tol_of(a.dtype())) ? std::string() : "sum gives " + show(torch::full({}, v, a.dtype())) + " instead of " + show(a.d.sum());
			};
		if (k == 2)
			o.query = [=](V &x) { auto t = x[0]->any(); Quiet q; if (!t.defined()) return std::string("any() returned an undefined tensor"); return t.item().toBool() == a.d.any().item().toBool() ? std::string() : "any() is wrong, " + std::to_string(t.item().toBool()) + " for " + show(a.d); };
		if (k == 3)
			o.query = [=](V &x) { return x[0]->anynan() == a.d.isnan().any().item().toBool() ? std::string() : std::string("anynan() is wrong"); };
		if (k == 4 || k == 5)
		{
			int j = w.mate(i, st.arg(3), r);
			o.in = {i, j};
			if (k == 5)
			{ // equal content, different stored pattern
				Quiet q;
				btensor b(a.spec(), w.g.lib(a.rule), torch::TensorOptions().dtype(a.dtype()));
				for (auto &ix : a.allowed_blocks())
				{
					auto v = a.view(a.d, ix);
					if (maxabs(v) > 0 || r.chance(0.4)) b.block(ix) = v.clone();
				}
				Ent e{b, a};
				j = w.add(std::move(e), {i});
				o.in = {i, j};
			}
			if (k == 5 && r.chance(0.4))
			{ // same stored content, structure differing in one place: never the same tensor
				Quiet q;
				MT m = a;
				int what = (int)r.below(4);
				if (a.rank() == 0) what = 0;
				int64_t z = a.rank() ? r.below(a.rank()) : 0, y = a.rank() && a.sz[z].size() ? r.below(a.sz[z].size()) : 0;
				auto one = w.g.zero();
				for (int t = 0; t < 20 && one == w.g.zero(); ++t) one = w.g.random(r);
				if (one == w.g.zero()) what = 2;
				if (what && (a.rank() == 0 || a.sz[z].empty())) return false;
				if (what == 0) m.rule = w.g.add(m.rule, one);
				if (what == 1) m.q[z][y] = w.g.add(m.q[z][y], one);
				if (what == 2) m.sz[z][y] += 1;
				if (what == 3) m.sz[z].push_back(1), m.q[z].push_back(one);
				m.d = torch::zeros(m.dims(), a.dtype());
				btensor b(m.spec(), w.g.lib(m.rule), torch::TensorOptions().dtype(a.dtype()));
				for (auto &ix : m.allowed_blocks())
					if (what != 2 && what != 3 && a.allowed(ix))
					{
						b.block(ix) = a.view(a.d, ix).clone();
						m.view(m.d, ix).copy_(a.view(a.d, ix));
					}
				Ent e{b, m};
				j = w.add(std::move(e), {i});
				o.in = {i, j};
				bool order = r.chance(0.5);
				o.query = [=](V &x) { return quantit::allclose(*x[order], *x[!order]) ? std::string("allclose should be false for tensors of different structure") : std::string(); };
				return true;
			}
			if (r.chance(0.5))
			{ // other tolerances; the comparison is relative to the second tensor
				Quiet q;
				double rt = r.chance(0.5) ? 0.3217 : r.chance(0.5) ? 1.7193 : 0, at = r.chance(0.5) ? 0.4321987 : r.chance(0.5) ? 1.2345671 : 1e-7;
				bool en = r.chance(0.5);
				bool e2 = torch::allclose(w.pool[o.in[0]].m.d, w.pool[j].m.d, rt, at, en);
				o.query = [=](V &x) { return quantit::allclose(*x[0], *x[1], rt, at, en) == e2 ? std::string() : std::string("allclose with tolerances should be ") + (e2 ? "true" : "false"); };
				return true;
			}
			bool exp = torch::allclose(w.pool[o.in[0]].m.d, w.pool[j].m.d);
			o.query = [=](V &x) { return quantit::allclose(*x[0], *x[1]) == exp ? std::string() : std::string("allclose should be ") + (exp ? "true" : "false"); };
		}
		if (k == 6)
		{
			if (a.rank() < 1) return false;
			IL el;
			for (int64_t z = 0; z < a.rank(); ++z) el.push_back(r.below(a.dim(z)));
			IL bi, si;
			for (int64_t z = 0; z < a.rank(); ++z)
			{
				int64_t e = el[z], s = 0;
				while (e >= a.sz[z][s]) e -= a.sz[z][s++];
				bi.push_back(s);
				si.push_back(e);
			}
			auto g = w.g;
			o.query = [=](V &x) {
				auto [b, s] = x[0]->element_index_decompose(el);
				if (b != bi || s != si) return std::string("element_index_decompose is wrong");
				for (size_t z = 0; z < bi.size(); ++z)
				{
					if (!(any_quantity(x[0]->element_conserved_qtt(z, el[z])) == g.lib(a.q[z][bi[z]]))) return std::string("element_conserved_qtt is wrong");
					if ((int64_t)x[0]->section_size(z, bi[z]) != a.sz[z][bi[z]]) return std::string("section_size is wrong");
				}
				if (x[0]->sizes() != a.dims()) return std::string("sizes() is wrong");
				if (x[0]->block_conservation_rule_test(bi) != a.allowed(bi)) return std::string("block_conservation_rule_test is wrong");
				return std::string();
			};
		}
		return true;
	}
	if (n == "gdot")
	{ // generalised dense contraction, in place and out of place
		o.in = {i};
		o.kind = 'q';
		// the contracted sizes, in the order of the lists; a size 1 on one of the sides is summed
		size_t nc = r.below(4), ra = nc + r.below(3), rb = nc + r.below(3);
		bool count = r.chance(0.3);
		IL pa, pb;
		for (size_t k = 0; k < ra; ++k) pa.push_back(k);
		for (size_t k = 0; k < rb; ++k) pb.push_back(k);
		for (size_t k = ra; k-- > 1;) std::swap(pa[k], pa[r.below(k + 1)]);
		for (size_t k = rb; k-- > 1;) std::swap(pb[k], pb[r.below(k + 1)]);
		IL sa, sb, da, db;
		for (size_t k = 0; k < ra; ++k) sa.push_back(r.chance(0.1) ? 0 : r.range(1, 3));
		for (size_t k = 0; k < rb; ++k) sb.push_back(r.chance(0.1) ? 0 : r.range(1, 3));
		if (count)
			for (size_t k = 0; k < nc; ++k) da.push_back(ra - nc + k), db.push_back(k), sb[k] = sa[ra - nc + k];
		else
			for (size_t k = 0; k < nc; ++k)
			{
				da.push_back(pa[k]), db.push_back(pb[k]), sb[pb[k]] = sa[pa[k]];
				if (r.chance(0.2)) (r.chance(0.5) ? sa[pa[k]] : sb[pb[k]]) = 1;
			}
		auto made = [&](const IL &sizes) {
			// not always contiguous
			int how = r.below(4);
			if (how == 0 && sizes.size() > 1)
			{
				IL rev(sizes.rbegin(), sizes.rend()), back;
				for (size_t k = sizes.size(); k--;) back.push_back(k);
				return random_dense(r, rev, w.dt).permute(back);
			}
			if (how == 1 && sizes.size())
			{
				IL wide = sizes;
				wide.back() *= 2;
				return random_dense(r, wide, w.dt).slice(-1, 0, c10::nullopt, 2);
			}
			auto t = random_dense(r, sizes, w.dt);
			return how == 2 ? t.conj() : t;
		};
		auto a = made(sa), b = made(sb);
		auto e = torch::tensordot(a, b, da, db);
		auto out = made(e.sizes().vec()), c0 = made(e.sizes().vec());
		for (auto *d : {&da, &db})
			for (auto &x : *d)
				if (r.chance(0.2)) x -= d == &da ? ra : rb;
		double al = scalar_of(st.arg(3)), be = scalar_of(st.arg(1));
		auto want = e * al + c0 * be, want2 = e * al + out * be;
		int how = count ? 2 : r.below(4), wrong = r.chance(0.12) ? r.range(1, 4) : 0;
		auto cl = [](const torch::Tensor &x) {
			// the same strides
			auto y = torch::empty_strided(x.sizes(), x.strides(), x.options());
			y.copy_(x);
			return y;
		};
		if (wrong && how != 3)
		{
			if (wrong == 1) e.dim() && how != 2 && out.numel() ? void(out = torch::cat({out, out}, 0)) : void(out = made({7, 7}));
			if (wrong == 1) c0 = out;
			int64_t big = int64_t(std::max(ra, rb)) + 1;
			if (wrong == 2) count ? void(nc = big) : da.push_back(0);
			if (wrong == 3) count ? void(nc = big + 5) : void((da.push_back(big), db.push_back(0)));
			if (wrong == 4) count ? void(nc = size_t(-1)) : void((da.insert(da.end(), 2, 0), db.insert(db.end(), 2, 0)));
			if ((ra == 0 || rb == 0) && wrong != 1) return false;
			o.query = [=](V &) {
				auto y = cl(out);
				try
				{
					if (how == 0) quantit::tensorgdot(c0, a, b, da, db, be, al);
					else if (how == 1) quantit::tensorgdot_(y, a, b, da, db, be, al);
					else quantit::tensorgdot_(y, a, b, int(nc), be, al);
				}
				catch (const std::exception &)
				{
					if (fault_fired()) throw;
					Quiet q;
					return y.equal(out) ? std::string() : std::string("a refused tensorgdot changed its output");
				}
				return std::string("an impossible tensorgdot was accepted");
			};
			if (how == 2 && !count) return false;
			return true;
		}
		if (how == 2 && !count) how = 1;
		o.query = [=](V &) {
			auto y = cl(out), z = cl(out);
			const char *nm = "tensorgdot";
			if (how == 0) y = quantit::tensorgdot(c0, a, b, da, db, be, al);
			else if (how == 3) nm = "tensorgdot_out", quantit::tensorgdot_out(y, c0, a, b, da, db, be, al);
			else if (how == 1) nm = "tensorgdot_", quantit::tensorgdot_(y, a, b, da, db, be, al);
			else nm = "tensorgdot_ of some dimensions", quantit::tensorgdot_(y, a, b, int(nc), be, al);
			Quiet q;
			auto &v = how == 0 || how == 3 ? want : want2;
			if (y.sizes() != v.sizes() || !close(y, v, tol_of(v.scalar_type()))) return std::string(nm) + " gives " + show(y) + " instead of " + show(v);
			return std::string();
		};
		return true;
	}
	return false;
}

std::string names(const World &w, const Op &o)
{
	std::string s = o.name;
	for (int k : o.in) s += " #" + std::to_string(k);
	return s;
}

// what the gradient of a random linear function of the result is, for each element stored in the operands
std::string gradients(World &w, Op &o, const at::Tensor &reference, const std::vector<at::Tensor> &leaves, const std::vector<btensor> &values, i64 seed)
{
	autograd_without_threads();
	std::vector<btensor> cp(values.size());
	std::vector<std::vector<at::Tensor>> in(values.size());
	V x;
	for (size_t k = 0; k < values.size(); ++k)
	{
		size_t first = std::find(o.in.begin(), o.in.end(), o.in[k]) - o.in.begin();
		if (first < k) { x.push_back(x[first]); continue; }
		cp[k] = deep(values[k]);
		for (auto &kv : cp[k])
		{
			in[k].push_back(kv.second.detach().clone().requires_grad_(true));
			kv.second = in[k].back() * 1;
		}
		x.push_back(&cp[k]);
	}
	std::string what;
	btensor out;
	if (attempt('-', 0, [&] { out = o.f(x); }, &what) != Outcome::ok) return "unexpected exception: " + what;
	btensor &res = o.kind == 'i' ? *x[0] : out;
	Rng r(u64(seed) * 77 + 5);
	auto W = random_dense(r, o.m.dims(), reference.is_complex() ? at::kComplexDouble : at::kDouble, 3, 0).to(reference.scalar_type());
	auto numbers = [](const at::Tensor &t) { return at::nan_to_num(t.is_complex() ? at::view_as_real(t.resolve_conj()) : t, 0, 0, 0); };
	auto real = [](const at::Tensor &t) { return t.is_complex() ? at::real(t) : t; };
	at::Tensor loss = at::zeros({}, at::kDouble), loss_ref = real(reference * W).sum();
	for (auto &kv : res)
	{
		auto part = W;
		for (size_t z = 0; z < kv.first.size(); ++z) part = part.narrow(z, o.m.off(z, kv.first[z]), o.m.sz[z][kv.first[z]]);
		loss = loss + real(kv.second * part).sum();
	}
	std::vector<at::Tensor> lin, din;
	std::vector<std::pair<size_t, at::Tensor>> where;
	for (size_t k = 0; k < values.size(); ++k)
	{
		if (in[k].empty() || o.in[k] >= (int)leaves.size() || !leaves[o.in[k]].defined()) continue;
		const MT &m = w.pool[o.in[k]].m;
		if (leaves[o.in[k]].sizes() != c10::IntArrayRef(values[k].sizes())) continue;
		lin.insert(lin.end(), in[k].begin(), in[k].end());
		din.push_back(leaves[o.in[k]]);
		where.push_back({k, at::Tensor()});
	}
	if (lin.empty()) return "";
	torch::autograd::variable_list gl, gd;
	gd = torch::autograd::grad({loss_ref}, din, {}, c10::nullopt, false, true);
	if (loss.requires_grad())
	{
		if (attempt('-', 0, [&] { gl = torch::autograd::grad({loss}, lin, {}, c10::nullopt, false, true); }, &what) != Outcome::ok) return "unexpected exception in the backward pass: " + what;
	}
	else gl.assign(lin.size(), at::Tensor());
	Quiet q;
	size_t at_l = 0;
	for (size_t z = 0; z < where.size(); ++z)
	{
		size_t k = where[z].first, b = 0;
		const btensor &v = values[k];
		for (auto &kv : v)
		{
			auto want = gd[z].defined() ? gd[z].detach() : at::zeros_like(din[z]).detach();
			for (size_t d = 0; d < kv.first.size(); ++d)
			{
				int64_t off = 0;
				for (int64_t s = 0; s < (int64_t)kv.first[d]; ++s) off += v.section_size(d, s);
				want = want.narrow(d, off, v.section_size(d, kv.first[d]));
			}
			auto got = gl[at_l].defined() ? gl[at_l].detach() : at::zeros_like(in[k][b]).detach();
			++at_l, ++b;
			if (!close(numbers(got), numbers(want), 30 * tol_of(want.scalar_type()))) return "the gradient for a block of operand " + std::to_string(k) + " is " + show(got) + " instead of " + show(want);
		}
	}
	return "";
}

void run_bt(const Plan &p, Ctx &c)
{
	World w(p, c);
	torch::manual_seed(p.seed);
	default_type(at::kDouble);
	Rng r0(u64(p.get("init")));
	for (int k = 0; k < 3; ++k) w.add(w.make(r0, w.fresh_structure(r0, 1)), {});
	int stepno = 0;
	bool hooks = p.prop == "C03" || p.get("faults");
	for (auto &st : p.steps)
	{
		++stepno;
		Op o;
		set_label("preparing " + st.op);
		// differentiating through the operation: the model's own values are the leaves of the reference
		bool grad = p.get("grad") && st.op != "typed" && st.op != "mixed" && st.op != "factory";
		std::vector<at::Tensor> leaves;
		w.tracing = grad;
		if (grad)
			for (auto &e : w.pool) e.m.d = e.m.d.detach().clone().requires_grad_(true);
		at::Tensor reference;
		bool made = make_op(w, st, o);
		if (grad)
		{
			if (made && o.m.d.defined()) reference = o.m.d, o.m.d = o.m.d.detach();
			for (auto &e : w.pool) leaves.push_back(e.m.d), e.m.d = e.m.d.detach();
			w.tracing = false;
		}
		if (!made) { c.fold(1); continue; }
		if (o.m.d.defined() && o.values && (o.m.numel() > 3000)) continue;
		std::string id = names(w, o);
		set_label(id);
		c.probe("op." + o.name);
		std::vector<btensor *> ops;
		for (int k : o.in) ops.push_back(&w.pool[k].b);
		bool inpl = o.kind == 'i';
		std::vector<u64> before;
		for (auto *b : ops) before.push_back(bits(*b));
		std::string detail = id + (st.op == "typed" ? " (" + std::to_string(u64(st.arg(3)) % 18) + " type " + std::to_string(u64(st.arg(1)) % 8) + ")" : "") + " on " + (o.in.empty() ? "" : w.pool[o.in[0]].m.desc());

		std::vector<btensor> before_values;
		if (reference.defined())
			for (auto *b : ops) before_values.push_back(deep(*b));
		auto call = [&](V &x, btensor &out) -> std::string {
			if (o.kind == 'q') return o.query(x);
			out = o.f(x);
			return "";
		};
		// ---------------------------------------------------------------- failures
		if (st.fk != '-' && st.fk != 'c')
		{
			long at = 0, live_before = 0;
			bool dry_ok = true;
			{
				// undisturbed rehearsal on deep copies, to learn the number of events
				std::vector<btensor> cp;
				for (auto *b : ops) cp.push_back(deep(*b));
				V x;
				for (auto &b : cp) x.push_back(&b);
				btensor out;
				KernelHook kh;
				auto oc = attempt('-', 0, [&] { call(x, out); });
				dry_ok = oc == Outcome::ok;
				at = fault_at(st.fn, event_counts().of(st.fk));
			}
			if (at > 0 && (dry_ok || o.must_throw))
			{
				std::string kind = st.fk == 'n' ? "allocation" : st.fk == 't' ? "tensor" : "kernel";
				// the harness's own containers must not allocate between the marks
				std::vector<btensor> cp;
				for (auto *b : ops) cp.push_back(deep(*b));
				V x = ops;
				if (o.expiring) x[1] = &cp[1];
				if (inpl) x[0] = nullptr;
				Outcome oc;
				bool fired = false;
				bool valid = true;
				std::string bad;
				at::Tensor left;
				long leak, leak_t;
				live_before = live_tensors();
				if (inpl)
				{
					btensor tgt = std::move(cp[0]);
					track_begin();
					long lt = live_tensors();
					{
						btensor t = deep(tgt);
						x[0] = &t;
						{
							KernelHook kh;
							btensor out;
							oc = attempt(st.fk, at, [&] { call(x, out); });
							fired = fault_fired();
						}
						if (oc != Outcome::ok)
						{
							bad = structure(t, w.pool[o.in[0]].m);
							if (bad.empty())
							{
								Quiet q;
								left = dense(t, w.pool[o.in[0]].m, w.pool[o.in[0]].m.dtype());
								// still usable
								auto again = t.mul(1);
								auto s2 = structure(again, w.pool[o.in[0]].m);
								if (!s2.empty()) bad = "after a further operation: " + s2;
							}
							left = at::Tensor();
						}
						x[0] = nullptr;
					}
					leak = bad.empty() ? track_end() : (track_end(), 0);
					leak_t = live_tensors() - lt;
				}
				else
				{
					track_begin();
					long lt = live_tensors();
					{
						btensor out;
						KernelHook kh;
						oc = attempt(st.fk, at, [&] { call(x, out); });
						fired = fault_fired();
					}
					leak = track_end();
					leak_t = live_tensors() - lt;
				}
				if (fired) c.probe("fault." + kind), c.probe("nontrivial");
				c.log("failure " + kind + " " + std::to_string(at) + " in " + id + (oc == Outcome::ok ? " survived" : " raised"));
				if (oc == Outcome::injected)
				{
					if (!bad.empty()) w.hit("C03", "target", "after an injected " + kind + " failure (" + std::to_string(at) + ") in " + detail + ": " + bad);
					if (o.expiring) { leak_t = 0; leak = 0; } // the expiring operand may have been emptied
					if (leak > 0) w.hit("C03", "leak", std::to_string(leak) + " allocations remain after an injected " + kind + " failure (" + std::to_string(at) + ") in " + detail);
					if (leak_t > 0) w.hit("C03", "leak", std::to_string(leak_t) + " dense tensors remain after an injected " + kind + " failure (" + std::to_string(at) + ") in " + detail);
					for (size_t k = 0; k < ops.size(); ++k)
					{
						if (o.expiring && k == 1) continue;
						if (inpl && k == 0) continue;
						if (bits(*ops[k]) != before[k])
						{
							w.hit("C03", "operand", "operand " + std::to_string(k) + " changed by a failed " + detail);
							auto &e = w.pool[o.in[k]];
							if (structure(e.b, e.m).empty()) e.m.d = dense(e.b, e.m, e.m.dtype());
						}
						auto s = structure(*ops[k], w.pool[o.in[k]].m);
						if (!s.empty()) w.hit("C03", "operand", "operand " + std::to_string(k) + " of a failed " + detail + ": " + s);
					}
					// sometimes the history goes on with the target of the failed operation
					if (inpl && bad.empty() && (st.fn & 1) && !o.must_throw)
					{
						auto &e = w.pool[o.in[0]];
						btensor t = deep(e.b);
						V y = ops;
						y[0] = &t;
						std::vector<btensor> cp2;
						if (o.expiring) { cp2.push_back(deep(*ops[1])); y[1] = &cp2[0]; }
						{
							KernelHook kh;
							btensor out;
							attempt(st.fk, at, [&] { call(y, out); });
						}
						if (structure(t, e.m).empty())
						{
							e.b = t;
							e.m.d = dense(t, e.m, e.m.dtype());
							c.probe("went_on_with_failed_target");
							continue;
						}
					}
				}
				else if (oc == Outcome::other && !o.must_throw) w.hit("C03", "spurious", "an exception without an injected failure in " + detail);
			}
		}
		// ---------------------------------------------------------------- the operation itself
		std::vector<btensor> consumed;
		consumed.reserve(4);
		V x = ops;
		if (o.expiring)
		{
			consumed.push_back(deep(*ops[1]));
			x[1] = &consumed[0];
		}
		btensor out, oldtarget;
		if (inpl) oldtarget = deep(*ops[0]); // to restore after an unexpected failure
		std::string qr, what;
		Outcome oc;
		if (inpl)
		{ // no other handle may share the target's blocks (views are documented to share)
			*ops[0] = deep(*ops[0]);
		}
		bool did = true;
		oc = attempt('-', 0, [&] { qr = call(x, out); }, &what);
		if (o.must_throw)
		{
			c.log("refused " + id + (oc == Outcome::ok ? " accepted!" : " ok"));
			if (oc == Outcome::ok) w.hit("C02", "accepted", "accepted although it must be refused: " + detail + " kind " + std::to_string(st.arg(1) % 25));
			for (size_t k = 0; k < ops.size(); ++k)
			{
				auto &e = w.pool[o.in[k]];
				auto s = structure(e.b, e.m);
				if (!s.empty()) { w.hit("C02", "refused_effect", "after the refused " + detail + ": " + s); e.b = btensor(); e = w.make(r0, w.fresh_structure(r0, 1)); continue; }
				if (bits(*ops[k]) != before[k]) { w.hit("C03", "refused_effect", "operand " + std::to_string(k) + " changed by the refused " + detail); e.m.d = dense(e.b, e.m, e.m.dtype()); }
			}
			continue;
		}
		if (oc != Outcome::ok)
		{
			c.log("unexpected exception in " + id);
			w.hit("C01", "exception", "unexpected exception in " + detail + ": " + what);
			if ((p.prop == "C02")) w.hit("C02", "exception", "unexpected exception in " + detail + ": " + what);
			if ((p.prop == "C03")) w.hit("C03", "exception", "unexpected exception in " + detail + ": " + what);
			if (inpl) *ops[0] = oldtarget;
			did = false;
		}
		if (!did) continue;
		if (o.kind == 'q')
		{
			c.log(id + (qr.empty() ? " ok" : " wrong"));
			c.note(id + " " + qr, [&] { return u64(0); });
			if (!qr.empty())
			{
				w.hit("C01", "query", detail + ": " + qr);
				if (st.fk != '-') w.hit("C03", "retry", detail + ": " + qr);
			}
		}
		btensor &res = inpl ? *ops[0] : out;
		// operands untouched (except an in-place target and an expiring one)
		for (size_t k = 0; k < ops.size(); ++k)
		{
			if (inpl && o.in[k] == o.in[0]) continue;
			if (bits(*ops[k]) != before[k])
			{
				w.hit("C04", "operand", "operand " + std::to_string(k) + " changed by " + detail);
				auto &e = w.pool[o.in[k]];
				if (structure(e.b, e.m).empty()) e.m.d = dense(e.b, e.m, e.m.dtype());
				else e = w.make(r0, w.fresh_structure(r0, 1));
			}
		}
		if (o.kind == 'q') continue;
		c.note("result of " + id, [&] { return observe(res, o.values); });
		auto s = structure(res, o.m);
		if (!s.empty())
		{
			c.log(id + " invalid");
			w.hit("C02", "structure", "result of " + detail + ": " + s);
			w.hit("C01", "structure", "result of " + detail + " cannot be read as a dense tensor: " + s);
			if ((p.prop == "C03") && st.fk != '-') w.hit("C03", "retry", "result of a repeated " + detail + ": " + s);
			if (inpl) w.pool[o.in[0]] = w.make(r0, w.fresh_structure(r0, 1));
			continue;
		}
		if (o.kind == 'o' || inpl)
			for (size_t k = inpl ? 1 : 0; k < ops.size(); ++k)
			{
				if (inpl && (o.name == "assign" || o.name == "swap")) continue; // documented to share
				if (o.expiring && k == 1) continue;
				if (o.in[k] == o.in[0] && inpl) continue;
				if (shares(res, *ops[k]))
				{
					w.hit("C04", "alias", "result of " + detail + " shares storage with operand " + std::to_string(k));
					res = deep(res);
				}
			}
		if (reference.defined() && reference.requires_grad() && o.values)
		{
			auto g = gradients(w, o, reference, leaves, before_values, st.arg(2));
			if (!g.empty()) w.hit("C01", "gradient", "differentiating " + detail + ": " + g);
			c.probe("differentiated");
		}
		Ent e;
		if (!inpl && o.kind == 'o') e.b = res; // keep the very result: later in-place operations on it must not reach others
		else e.b = deep(res);
		if (o.values)
		{ // the element type is the one dense tensors give, in every block and in options()
			auto want = o.m.d.scalar_type();
			for (auto &kv : res)
				if (kv.second.scalar_type() != want)
				{
					w.hit("C01", "type", "result of " + detail + " has a block of type " + c10::toString(kv.second.scalar_type()) + " instead of " + c10::toString(want));
					break;
				}
			auto has = c10::typeMetaToScalarType(res.options().dtype());
			if (has != want) w.hit("C01", "options", "result of " + detail + " says it is of type " + c10::toString(has) + " instead of " + c10::toString(want) + (res.blocks().size() ? "" : " (no block)"));
		}
		at::Tensor got = dense(res, o.m, o.values ? o.m.d.scalar_type() : o.dt);
		if (o.values)
		{
			bool ok = close(got, o.m.d, o.tol);
			c.log(id + (ok ? " ok" : " differs"));
			if (!ok)
			{
				w.hit("C01", "value", "result of " + detail + " is " + show(got) + " instead of " + show(o.m.d));
				if ((p.prop == "C03") && st.fk != '-') w.hit("C03", "retry", "after a failed attempt " + detail + " gives " + show(got) + " instead of " + show(o.m.d));
				o.m.d = got;
			}
		}
		else
		{
			// unspecified content: make it known
			for (auto &kv : e.b) kv.second = torch::ones_like(kv.second);
			o.m.d = dense(e.b, o.m, o.dt);
		}
		if (o.values) o.m.d = o.m.d.clone();
		u64 hs = mix64(u64(o.m.rank()) * 131 + e.b.blocks().size());
		c.fold(hs);
		// what goes back into the pool: tensors of the plan's element type and moderate size
		bool fits = o.m.rank() <= 4 && o.m.numel() <= 200 && (!o.values || maxabs(o.m.d.to(torch::kComplexDouble)) < 1e5);
		if (o.m.d.scalar_type() != w.dt) fits = false;
		if (e.b.blocks().size() && e.b.begin()->second.scalar_type() != w.dt) fits = false;
		if (inpl)
		{
			auto &t = w.pool[o.in[0]];
			t.m = o.m;
			if (!fits) t = w.make(r0, w.fresh_structure(r0, 1));
			else if (o.name == "assign" || o.name == "swap") t.b = e.b;
		}
		else if (fits)
		{
			e.m = o.m;
			std::vector<int> keep = {w.pick(st.arg(4)), w.pick(st.arg(5))};
			keep.insert(keep.end(), o.in.begin(), o.in.end());
			int at = w.add(std::move(e), keep);
			// C04: modify the fresh result in place at once, and see who else moves
			if (w.own("C04") && o.kind == 'o')
			{
				set_label("modifying the result of " + id);
				std::vector<u64> h;
				for (auto &z : w.pool) h.push_back(bits(z.b));
				for (auto &kv : w.pool[at].b) kv.second.add_(1);
				for (size_t k = 0; k < w.pool.size(); ++k)
					if ((int)k != at && bits(w.pool[k].b) != h[k]) w.hit("C04", "poke", "modifying the result of " + detail + " in place changed tensor #" + std::to_string(k));
				for (auto &kv : w.pool[at].b) kv.second.sub_(1);
				c.probe("poked_results");
			}
		}
		if (inpl && w.own("C04"))
			for (size_t k = 0; k < w.pool.size(); ++k)
			{
				if (std::find(o.in.begin(), o.in.end(), (int)k) != o.in.end()) continue;
				auto &z = w.pool[k];
				if (!structure(z.b, z.m).empty() || !close(dense(z.b, z.m, z.m.dtype()), z.m.d, tol_of(w.dt)))
					w.hit("C04", "remote", "in-place " + detail + " changed the unrelated tensor #" + std::to_string(k));
			}
		c.probe("completed_ops");
	}
	// at the end every tensor of the pool still denotes its model
	set_label("final comparison");
	for (size_t k = 0; k < w.pool.size(); ++k)
	{
		auto &z = w.pool[k];
		auto s = structure(z.b, z.m);
		if (!s.empty())
		{
			w.hit("C02", "final", "tensor #" + std::to_string(k) + " at the end of the history: " + s);
			continue;
		}
		if (!close(dense(z.b, z.m, z.m.dtype()), z.m.d, tol_of(w.dt)))
		{
			w.hit("C01", "final", "tensor #" + std::to_string(k) + " at the end of the history is not what its history gives");
			w.hit("C04", "final", "tensor #" + std::to_string(k) + " at the end of the history is not what its history gives");
		}
	}
	if (c.count["completed_ops"] >= 3) c.probe("nontrivial");
	(void)hooks;
}

struct W_
{
	const char *n;
	int c01, c02, c03, c04;
};
const W_ OPS[] = {
    {"new", 4, 4, 3, 2}, {"add", 5, 3, 5, 9}, {"sub", 3, 2, 3, 6}, {"add_", 4, 2, 5, 8}, {"sub_", 3, 1, 3, 5}, {"addrv", 3, 1, 2, 8}, {"addrv_", 3, 1, 3, 5},
    {"opadd", 2, 1, 1, 3}, {"opsub", 2, 1, 1, 3}, {"opadd_", 1, 1, 1, 3}, {"opsub_", 1, 1, 1, 3}, {"addS", 2, 1, 3, 4}, {"addS_", 2, 1, 3, 4}, {"mulS", 2, 1, 2, 4},
    {"mulS_", 2, 1, 2, 5}, {"divS", 2, 1, 2, 3}, {"divS_", 2, 1, 2, 4}, {"Sdiv", 2, 1, 2, 2}, {"neg", 1, 1, 1, 2}, {"mul", 6, 4, 5, 7}, {"mul_", 5, 3, 5, 5},
    {"div", 3, 2, 2, 3}, {"div_", 3, 2, 2, 2}, {"pow", 2, 1, 2, 2}, {"pow_", 2, 1, 2, 2}, {"cmp", 3, 1, 1, 1}, {"cmpS", 2, 1, 1, 1}, {"powS", 1, 1, 1, 2},
    {"powS_", 1, 1, 1, 2}, {"sqrt", 1, 0, 1, 1}, {"sqrt_", 1, 0, 1, 1}, {"abs", 1, 0, 1, 2}, {"abs_", 1, 0, 1, 2}, {"isnan", 1, 1, 1, 0}, {"tensordot", 8, 5, 8, 5},
    {"bmm", 4, 3, 4, 2}, {"permute", 3, 4, 3, 1}, {"permute_", 3, 3, 4, 1}, {"transpose", 2, 2, 2, 1}, {"transpose_", 2, 2, 2, 1}, {"t", 1, 1, 1, 0},
    {"reshape", 4, 5, 4, 1}, {"reshape_rt", 2, 2, 2, 0}, {"reshape_as", 3, 4, 3, 1}, {"squeeze", 2, 3, 2, 0}, {"squeeze_", 2, 3, 2, 0}, {"squeezeD", 2, 3, 2, 0},
    {"squeezeD_", 2, 3, 2, 0}, {"conj", 2, 3, 2, 1}, {"conj_only", 1, 1, 1, 0}, {"inverse", 1, 2, 1, 0}, {"inverse_", 1, 3, 2, 0}, {"shift", 1, 3, 1, 0},
    {"shift_", 1, 3, 2, 0}, {"copy", 1, 2, 2, 0}, {"assign", 1, 2, 3, 0}, {"move", 1, 2, 1, 0}, {"swap", 1, 2, 1, 0}, {"to", 1, 1, 1, 0}, {"view", 4, 4, 3, 0},
    {"viewkeep", 4, 4, 3, 0}, {"typed", 4, 1, 1, 1}, {"put", 3, 3, 4, 2}, {"putT", 3, 3, 3, 1}, {"like", 3, 3, 3, 1}, {"factory", 2, 3, 2, 0}, {"shape", 1, 5, 2, 0}, {"neutral", 1, 2, 1, 0},
    {"refused", 1, 5, 3, 0}, {"block", 2, 4, 3, 0}, {"query", 8, 3, 5, 1}, {"gdot", 3, 0, 1, 1}, {"mixed", 3, 2, 3, 3}};

void gen_bt(Rng &r, Plan &p, bool thorough)
{
	int which = p.prop[2] - '1';
	p.cfg["group"] = r.chance(0.35) ? 0 : r.range(0, 5);
	p.cfg["dtype"] = r.chance(0.65) ? 0 : r.chance(0.7) ? 1 : 2;
	static const int st[] = {100, 70, 70, 50, 30};
	p.cfg["store"] = st[r.below(5)];
	p.cfg["init"] = r.below(1000000000);
	if (which == 0) p.cfg["grad"] = r.chance(0.15);
	int total = 0;
	for (auto &o : OPS) total += which == 0 ? o.c01 : which == 1 ? o.c02 : which == 2 ? o.c03 : o.c04;
	int n = (int)(thorough ? r.range(8, 40) : r.range(8, 22));
	// swarm: some runs use only part of the operations
	std::set<std::string> off;
	if (r.chance(0.4))
		for (auto &o : OPS)
			if (r.chance(0.5)) off.insert(o.n);
	for (int k = 0; k < n; ++k)
	{
		Step s;
		for (int tries = 0; tries < 20; ++tries)
		{
			i64 x = r.below(total);
			for (auto &o : OPS)
			{
				x -= which == 0 ? o.c01 : which == 1 ? o.c02 : which == 2 ? o.c03 : o.c04;
				if (x < 0)
				{
					s.op = o.n;
					break;
				}
			}
			if (!off.count(s.op)) break;
		}
		for (int z = 0; z < 6; ++z) s.a.push_back(r.below(1000000));
		double pf = which == 2 ? 0.75 : which == 3 ? 0.0 : 0.12;
		if (r.chance(pf))
		{
			s.fk = r.chance(0.5) ? 'n' : r.chance(0.5) ? 't' : 'o';
			s.fn = r.below(1000000);
		}
		p.steps.push_back(s);
	}
}
const char *REAL = "btensor, flat_map, quantity vectors and their conserved groups, tensorgdot (all library sources, compiled from /repo); libtorch kernels";
const char *STUBS = "libtorch's CPU memory allocator (simulated, fills fresh and freed memory with fixed patterns), operator new of library code (failing), kernel dispatch (a hook that may throw before a kernel)";
const char *RULE = "one evaluation is one simulated run (one plan: a pool of random tensors and a history of operations with injected failures); distinct_nontrivial counts distinct execution hashes (operations, outcomes, structures) among runs that completed at least 3 operations or injected at least one failure";
Register r1({"C01", gen_bt, run_bt, 5000, 150000, REAL, STUBS, RULE});
Register r2({"C02", gen_bt, run_bt, 5000, 150000, REAL, STUBS, RULE});
Register r3({"C03", gen_bt, run_bt, 6000, 100000, REAL, STUBS, RULE});
Register r4({"C04", gen_bt, run_bt, 5000, 150000, REAL, STUBS, RULE});
} // namespace
