// C12: truncated decompositions, dense and block, against a reference computed on the assembled dense matrix.
#include "LinearAlgebra.h"
#include "blockTensor/LinearAlgebra.h"
#include "bthelp.h"
#include "btmodel.h"
#include "dimension_manip.h"
using namespace bt;
namespace
{
std::vector<double> sorted(const at::Tensor &t, bool by_abs)
{
	Quiet q;
	auto f = t.to(torch::kDouble).flatten().contiguous();
	std::vector<double> v(f.data_ptr<double>(), f.data_ptr<double>() + f.numel());
	if (by_abs) std::sort(v.begin(), v.end(), [](double a, double b) { return std::abs(a) > std::abs(b); });
	else std::sort(v.begin(), v.end(), std::greater<double>());
	return v;
}
struct Trunc
{
	bool on = false;
	double tol = 0;
	i64 min = 1, max = -1; // max -1: no limit
	double pow = 2;
	bool with_sizes = false;
	std::string str() const
	{
		if (!on) return "";
		return " tol " + fmtd(tol) + " pow " + fmtd(pow) + (with_sizes ? " min " + std::to_string(min) + " max " + std::to_string(max) : "");
	}
};
// which values may be kept: s sorted by decreasing magnitude (those the undisturbed decomposition has), kept likewise
std::string selection(const std::vector<double> &s, const std::vector<double> &kept, const Trunc &t, double eps, bool multiplets)
{
	double scale = s.empty() ? 0 : std::abs(s[0]);
	size_t k = kept.size(), n = s.size();
	auto show = [&] {
		std::string o = "values";
		for (double x : s) o += " " + fmtd(x);
		o += ", kept";
		for (double x : kept) o += " " + fmtd(x);
		return o;
	};
	if (k > n) return "more values than there are: " + show();
	for (size_t i = 0; i < k; ++i)
		if (std::abs(std::abs(kept[i]) - std::abs(s[i])) > eps * scale + 1e-300) return "a kept value is not among the largest: " + show();
	if (!t.on) return k == n ? "" : "values are missing: " + show();
	auto deg = [&](double a, double b) { return std::abs(std::abs(a) - std::abs(b)) <= eps * scale; };
	auto weight = [&](size_t from) {
		double w = 0;
		for (size_t i = from; i < n; ++i) w += std::pow(std::abs(s[i]), t.pow);
		return w;
	};
	double lim = std::pow(t.tol, t.pow), slack = 1e-6 * lim + n * std::pow(eps * scale, t.pow) + 4 * n * eps * std::pow(scale, t.pow) + n * (eps > 1e-10 ? 1e-36 : 1e-300); // powers below that vanish in the type of the values
	i64 mx = t.with_sizes && t.max >= 0 ? t.max : i64(n), mn = t.with_sizes ? t.min : 1;
	mx = std::min<i64>(mx, n);
	mn = std::min<i64>(mn, n);
	if (i64(k) < mn) return "fewer values than the minimum: " + show();
	if (i64(k) > mx)
	{
		// a degenerate multiplet may be kept whole
		if (!(multiplets && mx > 0 && deg(s[k - 1], s[mx - 1]))) return "more values than the maximum: " + show();
	}
	if (i64(k) < mx && weight(k) > lim + slack) return "the discarded weight " + fmtd(weight(k)) + " exceeds the tolerance " + fmtd(lim) + " although the maximum allows more: " + show();
	if (i64(k) > std::max<i64>(mn, 0) && k > 0)
	{
		// the last kept value (with its multiplet) could not have been discarded
		size_t j = k - 1;
		if (multiplets)
			while (j > 0 && deg(s[j - 1], s[k - 1])) --j;
		if (multiplets) { if (weight(j) + slack < lim && i64(j) >= mn) return "values are kept whose weight " + fmtd(weight(j)) + " is within the tolerance " + fmtd(lim) + ": " + show(); }
		else if (weight(k - 1) + slack < lim) return "values are kept whose weight " + fmtd(weight(k - 1)) + " is within the tolerance " + fmtd(lim) + ": " + show();
	}
	return "";
}

struct Entry
{
	MT m;
	btensor b;
};
struct World
{
	const Plan &p;
	Ctx &c;
	Group g;
	at::ScalarType dt;
	std::vector<Entry> pool;
	World(const Plan &p_, Ctx &c_) : p(p_), c(c_)
	{
		g.kind = (int)p.get("group");
		static const at::ScalarType T[] = {at::kDouble, at::kComplexDouble, at::kFloat, at::kComplexFloat};
		dt = T[p.get("dtype") % 4];
	}
	// change the content so that the spectra are degenerate, deficient, widely scaled...
	void spectrum(Rng &r, Entry &e)
	{
		int how = (int)r.below(8);
		Quiet q;
		e.m.d = torch::zeros(e.m.dims(), dt);
		int k = 0;
		at::Tensor first;
		for (auto &kv : e.b)
		{
			auto &t = kv.second;
			++k;
			if (how == 1) t = t * std::pow(10., -(double)r.below(6));
			if (how == 2) t = torch::ones_like(t);
			if (how == 3 && t.dim() >= 2) { auto v = t.reshape({t.size(0), -1}); t = (torch::eye(v.size(0), v.size(1), v.options()) * double(1 + r.below(2))).reshape(t.sizes()); }
			if (how == 4) t = torch::zeros_like(t);
			if (how == 5)
			{ // same content in every block of the same size
				if (!first.defined()) first = t.clone();
				if (t.sizes() == first.sizes()) t = first.clone();
			}
			if (how == 6) t = t * 1e-8;
			t = t.to(dt).contiguous();
			e.m.view(e.m.d, kv.first).copy_(t);
		}
	}
	Entry make(Rng &r, int rank)
	{
		Entry e;
		for (int tries = 0; tries < 20; ++tries)
		{
			e.m = random_structure(r, g, rank, rank > 3 ? 2 : 3, rank > 3 ? 2 : 3);
			if (e.m.numel() <= 400) break;
		}
		static const double ps[] = {1, 0.8, 0.5, 0.25};
		e.b = random_fill(r, e.m, dt, ps[r.below(4)]);
		if (r.chance(0.6)) spectrum(r, e);
		return e;
	}
	// hermitian: legs (l..., conj(l)...)
	Entry make_hermitian(Rng &r, int half)
	{
		Entry e;
		for (int tries = 0; tries < 20; ++tries)
		{
			e.m = random_structure(r, g, half, 3, half > 1 ? 2 : 3);
			if (e.m.numel() <= 16) break;
		}
		MT &m = e.m;
		m.rule = g.zero();
		for (int i = 0; i < half; ++i)
		{
			m.sz.push_back(m.sz[i]);
			std::vector<Charge> q;
			for (auto &x : m.q[i]) q.push_back(g.neg(x));
			m.q.push_back(q);
		}
		static const double ps[] = {1, 0.8, 0.5, 0.25};
		double p = ps[r.below(4)];
		e.b = random_fill(r, m, dt, p);
		if (r.chance(0.5)) spectrum(r, e);
		Quiet q;
		int64_t n = 1;
		for (int i = 0; i < half; ++i) n *= m.dim(i);
		auto M = m.d.reshape({n, n});
		auto H = (M + M.conj().t()).contiguous();
		if (r.chance(0.3)) H = torch::matmul(M, M.conj().t());
		// blocks (i,j) and (j,i) both stored
		auto D = H.reshape(m.dims());
		btensor nb(m.spec(), m.g.lib(m.rule), torch::TensorOptions().dtype(dt));
		for (auto &ix : m.allowed_blocks())
		{
			auto v = m.view(D, ix);
			IL tr(ix.begin() + half, ix.end());
			tr.insert(tr.end(), ix.begin(), ix.begin() + half);
			bool store = maxabs(v) > 0 || e.b.blocks().contains(ix) || e.b.blocks().contains(tr);
			if (store) nb.block(ix) = v.contiguous().clone();
		}
		m.d = D;
		e.b = nb;
		return e;
	}
	Charge decode(const any_quantity &q, const MT &a, size_t split, bool &ok)
	{
		// bond charges of a decomposition are rule - (charge of the left legs)
		int64_t n = 1;
		for (size_t i = 0; i < split; ++i) n *= a.nsec(i);
		for (int64_t f = 0; f < n; ++f)
		{
			int64_t x = f;
			Charge s = g.zero();
			for (size_t i = split; i-- > 0;)
			{
				s = g.add(s, a.q[i][x % a.nsec(i)]);
				x /= a.nsec(i);
			}
			Charge c0 = g.sub(a.rule, s);
			if (g.lib(c0) == q) { ok = true; return c0; }
		}
		ok = false;
		return g.zero();
	}
};
Trunc trunc_of(const Step &st, const std::vector<double> &s, double defpow)
{
	Trunc t;
	Rng r(u64(st.arg(3)) * 7919 + 13);
	t.on = true;
	static const double pw[] = {1, 2, 2, 4};
	t.pow = r.chance(0.3) ? defpow : pw[r.below(4)];
	double scale = s.empty() || s[0] == 0 ? 1 : std::abs(s[0]);
	switch (r.below(6))
	{
	case 0: t.tol = 0; break;
	case 1: t.tol = 1e-5; break;
	case 2: t.tol = scale * 10 * std::max<size_t>(1, s.size()); break;
	default:
	{ // just above or below what discarding the last j values costs
		if (s.empty()) { t.tol = 0.5; break; }
		size_t j = r.below((i64)s.size());
		double w = 0;
		for (size_t i = j; i < s.size(); ++i) w += std::pow(std::abs(s[i]), t.pow);
		t.tol = std::pow(w, 1 / t.pow) * (r.chance(0.5) ? 1.01 : 0.99);
	}
	}
	t.with_sizes = r.chance(0.65);
	if (t.with_sizes)
	{
		t.max = r.chance(0.25) ? 1000 : r.range(1, std::max<i64>(1, (i64)s.size() + 1));
		t.min = r.chance(0.15) ? 0 : r.range(1, t.max);
	}
	return t;
}
struct Factors
{
	btensor U, d, V;
};
struct DFactors
{
	at::Tensor U, d, V;
};
using quantit::eigh;
using quantit::svd;

u64 observe(const Factors &f) { return bt::observe(f.U) ^ mix64(bt::observe(f.d)) ^ (f.V.dim() ? mix64(mix64(bt::observe(f.V))) : 9); } // no second factor: nothing to see
u64 observe(const DFactors &f) { return bt::observe(f.U) ^ mix64(bt::observe(f.d)) ^ mix64(mix64(bt::observe(f.V))); }
u64 observe(long x) { return mix64(u64(x)); }
struct Runner
{
	World &w;
	Ctx &c;
	const Plan &p;
	std::string id;
	Runner(World &w_) : w(w_), c(w_.c), p(w_.p) {}
	void need(bool ok, const char *cls, const std::string &m) { c.check(ok, std::string("C12:") + cls, id + ": " + m); }
	void needs(const std::string &m, const char *cls) { need(m.empty(), cls, m); }
	// runs f (which must not touch anything but its result) with and without a failure
	template <class F, class R>
	void perform(const Step &st, F &&f, R &out, std::function<u64()> state)
	{
		u64 before = state();
		if (st.fk != '-')
		{
			long at;
			{
				R tmp;
				KernelHook kh;
				attempt('-', 0, [&] { f(tmp); });
				at = fault_at(st.fn, event_counts().of(st.fk));
			}
			if (at > 0)
			{
				Outcome oc;
				long lt = live_tensors(), leak;
				track_begin();
				{
					R tmp;
					KernelHook kh;
					oc = attempt(st.fk, at, [&] { f(tmp); });
				}
				leak = track_end();
				if (oc == Outcome::injected || (oc == Outcome::ok && fault_fired()))
				{
					c.probe(std::string("fault.") + (st.fk == 'n' ? "allocation" : st.fk == 't' ? "tensor" : "kernel"));
					c.probe("nontrivial");
				}
				c.log(std::string("failure ") + st.fk + (oc == Outcome::ok ? " survived" : " raised"));
				need(oc != Outcome::other, "spurious", "an exception without an injected failure");
				need(leak <= 0 && live_tensors() <= lt, "leak", std::to_string(leak) + " allocations and " + std::to_string(live_tensors() - lt) + " tensors remain after a failure");
				need(state() == before, "operand", "the operand changed by a failed decomposition");
			}
		}
		std::string what;
		auto oc = attempt('-', 0, [&] { f(out); }, &what);
		need(oc == Outcome::ok, "exception", "unexpected exception: " + what);
		need(state() == before, "operand", "the operand changed by the decomposition");
		c.note("result of " + id, [&] { return observe(out); });
	}
	// ------------------------------------------------------------------------------------------ dense
	void dense_svd(const Step &st, Entry &e, size_t split, bool tr)
	{
		auto A = e.m.d.to(w.dt);
		if (st.arg(4) % 3 == 0 && A.dim() > 1) A = A.transpose(0, A.dim() - 1).contiguous().transpose(0, A.dim() - 1);
		int64_t l = 1, rr = 1;
		for (size_t i = 0; i < split; ++i) l *= A.size(i);
		for (int64_t i = split; i < A.dim(); ++i) rr *= A.size(i);
		auto M = A.to(wide(w.dt)).reshape({l, rr});
		auto ref = sorted(torch::linalg::svdvals(M), false);
		Trunc t;
		if (tr) t = trunc_of(st, ref, 2);
		id += t.str() + " of " + str(A.sizes().vec()) + " split " + std::to_string(split);
		DFactors o;
		bool manual = tr && st.arg(5) % 4 == 0;
		perform(
		    st,
		    [&](DFactors &x) {
			    if (!tr) std::tie(x.U, x.d, x.V) = svd(A, split);
			    else if (manual)
			    {
				    std::tie(x.U, x.d, x.V) = svd(A, split);
				    if (t.with_sizes) std::tie(x.U, x.d, x.V) = quantit::truncate(x.U, x.d, x.V, t.tol, size_t(t.min), t.max < 0 ? size_t(-1) : size_t(t.max), t.pow);
				    else std::tie(x.U, x.d, x.V) = quantit::truncate(x.U, x.d, x.V, t.tol, 1, -1, t.pow);
			    }
			    else if (t.with_sizes) std::tie(x.U, x.d, x.V) = svd(A, split, t.tol, size_t(t.min), size_t(t.max), t.pow);
			    else std::tie(x.U, x.d, x.V) = svd(A, split, t.tol, t.pow);
		    },
		    o, [&] { return mix64(A.defined()); });
		check_dense_svd(A, M, split, l, rr, ref, t, o);
	}
	void check_dense_svd(const at::Tensor &A, const at::Tensor &M, size_t split, int64_t l, int64_t rr, const std::vector<double> &ref, const Trunc &t, DFactors &o)
	{
		need(o.d.dim() == 1, "shape", "the values are not a vector");
		int64_t k = o.d.size(0);
		IL us(A.sizes().begin(), A.sizes().begin() + split), vs(A.sizes().begin() + split, A.sizes().end());
		us.push_back(k);
		vs.push_back(k);
		need(o.U.sizes() == us && o.V.sizes() == vs, "shape", "sizes of U " + str(o.U.sizes().vec()) + " V " + str(o.V.sizes().vec()));
		need(o.U.scalar_type() == w.dt && o.V.scalar_type() == w.dt && o.d.scalar_type() == real_of(w.dt), "dtype", "element types of the factors");
		auto kept = sorted(o.d, false);
		auto dd = o.d.to(torch::kDouble);
		for (int64_t i = 0; i < k; ++i)
		{
			double x = dd[i].item().toDouble();
			need(x >= 0, "negative", "negative singular value");
			need(i == 0 || x <= dd[i - 1].item().toDouble(), "order", "singular values not in decreasing order");
		}
		needs(selection(ref, kept, t, eps_of(w.dt), false), "selection");
		auto W = wide(w.dt);
		auto U = o.U.to(W).reshape({l, k}), V = o.V.to(W).reshape({rr, k});
		check_isometry(U, "U");
		check_isometry(V, "V");
		auto R = torch::matmul(U * dd.to(W), V.conj().t());
		check_error(M, R, ref, k);
		c.log(id + " keeps " + std::to_string(k));
	}
	void check_isometry(const at::Tensor &U, const char *n)
	{
		if (U.size(1) == 0) return;
		auto I = torch::matmul(U.conj().t(), U);
		double e = maxabs(I - torch::eye(U.size(1), I.options()));
		need(e <= 50 * eps_of(w.dt), "isometry", std::string(n) + " is not an isometry, defect " + fmtd(e));
	}
	void check_error(const at::Tensor &M, const at::Tensor &R, const std::vector<double> &ref, size_t k)
	{
		double err = (M - R).abs().pow(2).sum().item().toDouble(), want = 0, sc = ref.empty() ? 0 : ref[0] * ref[0];
		for (size_t i = k; i < ref.size(); ++i) want += ref[i] * ref[i];
		double n = double(M.numel());
		double slack = 1e3 * eps_of(w.dt) * eps_of(w.dt) * sc * n + 10 * eps_of(w.dt) * std::sqrt(want * sc * n) + 1e-280;
		need(std::abs(err - want) <= slack, "error", "squared reconstruction error " + fmtd(err) + " instead of the discarded weight " + fmtd(want));
	}
	void dense_eigh(const Step &st, Entry &e, size_t split, bool tr)
	{
		auto A = e.m.d.to(w.dt);
		int64_t n = 1;
		for (size_t i = 0; i < split; ++i) n *= A.size(i);
		auto M = A.to(wide(w.dt)).reshape({n, n});
		auto ev = std::get<0>(torch::linalg::eigh(M, "L"));
		auto ref = sorted(ev, true);
		Trunc t;
		if (tr) t = trunc_of(st, ref, 1);
		id += t.str() + " of " + str(A.sizes().vec());
		DFactors o;
		perform(
		    st,
		    [&](DFactors &x) {
			    if (!tr) std::tie(x.d, x.U) = eigh(A, split);
			    else if (t.with_sizes) std::tie(x.d, x.U) = eigh(A, split, t.tol, size_t(t.min), size_t(t.max), t.pow);
			    else std::tie(x.d, x.U) = eigh(A, split, t.tol, t.pow);
		    },
		    o, [&] { return mix64(A.defined()); });
		need(o.d.dim() == 1, "shape", "the values are not a vector but " + str(o.d.sizes().vec()));
		int64_t k = o.d.size(0);
		IL us(A.sizes().begin(), A.sizes().begin() + split);
		us.push_back(k);
		need(o.U.sizes() == us, "shape", "sizes of the eigenvectors " + str(o.U.sizes().vec()));
		need(o.U.scalar_type() == w.dt && o.d.scalar_type() == real_of(w.dt), "dtype", "element types of the factors");
		needs(selection(ref, sorted(o.d, true), t, eps_of(w.dt), false), "selection");
		auto W = wide(w.dt);
		auto U = o.U.to(W).reshape({n, k});
		check_isometry(U, "S");
		// every kept pair is an eigenpair
		double e2 = maxabs(torch::matmul(M, U) - U * o.d.to(torch::kDouble).to(W));
		need(e2 <= 100 * eps_of(w.dt) * (ref.empty() ? 1 : std::abs(ref[0])) + 1e-280, "eigenpair", "a kept vector is not the eigenvector of its value, defect " + fmtd(e2));
		check_error(M, torch::matmul(U * o.d.to(torch::kDouble).to(W), U.conj().t()), ref, k);
		c.log(id + " keeps " + std::to_string(k));
	}
	void truncate_pair(const Step &st)
	{ // truncate(u, e) on given factors, batched or not
		Rng r(u64(st.arg(2)));
		int64_t n = r.range(1, 6), rows = r.range(1, 4);
		bool three = r.chance(0.5);
		std::vector<double> v;
		for (int64_t i = 0; i < n; ++i) v.push_back(r.chance(0.2) ? 0 : r.chance(0.3) ? 1 : r.unit() * std::pow(10., -(double)r.below(4)));
		std::sort(v.rbegin(), v.rend());
		auto d = torch::tensor(v, torch::kDouble);
		auto u = random_dense(r, {rows, n}, at::kDouble), vv = random_dense(r, {rows + 1, n}, at::kDouble);
		auto t = trunc_of(st, v, three ? 2 : 1);
		if (!t.with_sizes) t.min = 1, t.max = -1;
		id += t.str() + (three ? " (u,d,v)" : " (u,e)");
		DFactors o;
		size_t mx = t.max < 0 ? size_t(-1) : size_t(t.max);
		perform(
		    st,
		    [&](DFactors &x) {
			    if (three) std::tie(x.U, x.d, x.V) = quantit::truncate(u, d, vv, t.tol, size_t(t.min), mx, t.pow);
			    else std::tie(x.U, x.d) = quantit::truncate(u, d, t.tol, size_t(t.min), mx, t.pow);
		    },
		    o, [&] { return mix64(1); });
		need(o.d.dim() == 1, "shape", "the values do not come out in the place they came in");
		int64_t k = o.d.size(0);
		needs(selection(v, sorted(o.d, true), t, 1e-12, false), "selection");
		need(torch::equal(o.d, d.narrow(0, 0, k)) && torch::equal(o.U, u.narrow(1, 0, k)), "columns", "the columns kept are not those of the values kept");
		if (three) need(torch::equal(o.V, vv.narrow(1, 0, k)), "columns", "the columns of v kept are not those of the values kept");
		c.log(id + " keeps " + std::to_string(k));
	}
	void ascending(const Step &st)
	{
		Rng r(u64(st.arg(2)));
		int64_t n = r.range(1, 6);
		std::vector<double> v;
		for (int64_t i = 0; i < n; ++i) v.push_back(r.chance(0.2) ? 0 : r.chance(0.3) ? 1 : r.unit() * std::pow(10., -(double)r.below(4)));
		std::sort(v.begin(), v.end());
		auto d = torch::tensor(v, torch::kDouble);
		std::vector<double> desc(v.rbegin(), v.rend());
		auto t = trunc_of(st, desc, 1);
		t.with_sizes = true;
		if (t.max < 0) t.max = n;
		id += t.str();
		long first = -1;
		auto keep = d.clone();
		perform(st, [&](long &x) { x = quantit::compute_first_index_ascending(d, t.tol, t.pow, size_t(t.min), size_t(t.max)); }, first, [&] { return mix64(torch::equal(d, keep)); });
		need(first >= 0 && first <= n, "range", "first kept index " + std::to_string(first));
		std::vector<double> kept(desc.begin(), desc.begin() + (n - first));
		needs(selection(desc, kept, t, 1e-12, false), "selection");
		c.log(id + " first " + std::to_string(first));
	}
	// ------------------------------------------------------------------------------------------ block
	void block_svd(const Step &st, Entry &e, size_t split, bool tr)
	{
		auto &m = e.m;
		int64_t l = 1, rr = 1;
		for (int64_t i = 0; i < m.rank(); ++i) (i < (int64_t)split ? l : rr) *= m.dim(i);
		auto W = wide(w.dt);
		auto M = m.d.to(W).reshape({l, rr});
		auto all = sorted(torch::linalg::svdvals(M), false);
		Trunc t;
		if (tr) t = trunc_of(st, all, 2);
		id += t.str() + " of " + m.desc() + " split " + std::to_string(split);
		Factors o;
		bool manual = tr && t.with_sizes && st.arg(5) % 4 == 0;
		perform(
		    st,
		    [&](Factors &x) {
			    if (!tr) std::tie(x.U, x.d, x.V) = svd(e.b, split);
			    else if (manual)
			    {
				    std::tie(x.U, x.d, x.V) = svd(e.b, split);
				    std::tie(x.U, x.d, x.V) = quantit::truncate(std::move(x.U), std::move(x.d), std::move(x.V), size_t(t.max), size_t(t.min), t.tol, t.pow);
			    }
			    else if (t.with_sizes) std::tie(x.U, x.d, x.V) = svd(e.b, split, t.tol, size_t(t.min), size_t(t.max), t.pow);
			    else std::tie(x.U, x.d, x.V) = svd(e.b, split, t.tol, t.pow);
		    },
		    o, [&] { return bits(e.b); });
		// structure of the factors
		for (auto *x : {&o.U, &o.d, &o.V}) needs(sound(*x), "structure");
		need(o.U.dim() == (int64_t)split + 1 && o.d.dim() == 1 && o.V.dim() == m.rank() - (int64_t)split + 1, "structure", "ranks of the factors");
		for (size_t i = 0; i < split; ++i) needs(same_leg(leg_of(o.U, i), leg_of(e.b, i), false), "structure");
		for (int64_t i = split; i < m.rank(); ++i) needs(same_leg(leg_of(o.V, i - split), leg_of(e.b, i), true), "structure");
		auto bu = leg_of(o.U, split), bv = leg_of(o.V, m.rank() - split), bd = leg_of(o.d, 0);
		need(bu.sz == bd.sz && bu.sz == bv.sz, "structure", "the bond has sections " + str(bu.sz) + " on U, " + str(bd.sz) + " on d and " + str(bv.sz) + " on V");
		for (auto *x : {&o.U, &o.V})
		{
			need(type_of(*x) == w.dt, "dtype", "the options of a factor have another element type than the tensor");
			for (auto &kv : x->blocks()) need(kv.second.scalar_type() == w.dt, "dtype", "a block of a factor has another element type than the tensor");
		}
		need(type_of(o.d) == real_of(w.dt), "dtype", "the options of the singular values have another precision than the tensor");
		for (auto &kv : o.d.blocks()) need(kv.second.scalar_type() == real_of(w.dt), "dtype", "the singular values have another precision than the tensor");
		// values
		std::vector<double> kept;
		std::vector<int64_t> cols;
		int64_t off = 0;
		for (size_t s = 0; s < bd.sz.size(); ++s)
		{
			auto it = o.d.blocks().find(IL{(int64_t)s});
			if (it != o.d.blocks().end())
			{
				auto v = it->second.to(torch::kDouble);
				for (int64_t i = 0; i < v.size(0); ++i)
				{
					double x = v[i].item().toDouble();
					need(x >= 0, "negative", "negative singular value");
					need(i == 0 || x <= v[i - 1].item().toDouble(), "order", "singular values of a block not in decreasing order");
					kept.push_back(x);
					cols.push_back(off + i);
				}
			}
			off += bd.sz[s];
		}
		std::sort(kept.rbegin(), kept.rend());
		judge(all, kept, t, tr);
		if (tr) whole_multiplets(std::get<1>(svd(e.b, split)), kept);
		auto U = assemble(o.U, W).reshape({l, off}), V = assemble(o.V, W).reshape({rr, off}), d = assemble(o.d, at::kDouble).to(W);
		if (!cols.empty())
		{
			auto ix = torch::tensor(cols, torch::kLong);
			check_isometry(U.index_select(1, ix), "U");
			check_isometry(V.index_select(1, ix), "V");
		}
		check_error(M, torch::matmul(U * d, V.conj().t()), all, kept.size());
		// the library's own recipe
		btensor rec;
		std::string what;
		auto oc = attempt('-', 0, [&] { rec = tensordot(o.U.mul(o.d), o.V.conj(), {o.U.dim() - 1}, {o.V.dim() - 1}); }, &what);
		need(oc == Outcome::ok, "exception", "tensordot(U.mul(d), V.conj()) raised: " + what);
		needs(structure(rec, m), "reassembled");
		check_error(M, dense(rec, m, W).reshape({l, rr}), all, kept.size());
		// conserved quantities of d are neutral, selection rule too
		need(any_quantity(static_cast<const quantit::vquantity &>(o.d.selection_rule)) == w.g.lib(w.g.zero()), "structure", "d has a selection rule that is not neutral");
		c.log(id + " keeps " + std::to_string(kept.size()));
		// the factors live on: U.d or V become tensors of the history
		if (kept.size() && st.arg(4) % 3)
		{
			Entry n;
			bool left = st.arg(4) % 3 == 1;
			n.m.g = w.g;
			bool ok = true;
			std::vector<Charge> bc;
			for (auto &q : bu.q)
			{
				bool k1;
				bc.push_back(w.decode(q, m, split, k1));
				ok = ok && k1;
			}
			need(ok, "structure", "a section of the bond carries a quantity no left index allows");
			if (left)
			{
				for (size_t i = 0; i < split; ++i) n.m.sz.push_back(m.sz[i]), n.m.q.push_back(m.q[i]);
				n.m.sz.push_back(bd.sz);
				n.m.q.push_back(bc);
				n.m.rule = m.rule;
				n.b = o.U.mul(o.d);
			}
			else
			{
				for (int64_t i = split; i < m.rank(); ++i)
				{
					n.m.sz.push_back(m.sz[i]);
					std::vector<Charge> q;
					for (auto &x : m.q[i]) q.push_back(w.g.neg(x));
					n.m.q.push_back(q);
				}
				n.m.sz.push_back(bd.sz);
				n.m.q.push_back(bc);
				n.m.rule = w.g.zero();
				n.b = o.V;
			}
			auto s = structure(n.b, n.m);
			need(s.empty(), "structure", std::string(left ? "U.d: " : "V: ") + s);
			n.m.d = dense(n.b, n.m, w.dt);
			if (n.m.numel() <= 400) { w.pool[st.arg(0) % w.pool.size()] = n; c.probe("factor_reused"); }
		}
	}
	// values equal to the last one kept are kept as well
	void whole_multiplets(const btensor &d, const std::vector<double> &kept)
	{
		if (kept.empty()) return;
		std::vector<double> full;
		for (auto &kv : d.blocks())
		{
			auto v = kv.second.to(torch::kDouble);
			for (int64_t i = 0; i < v.size(0); ++i) full.push_back(std::abs(v[i].item().toDouble()));
		}
		std::sort(full.rbegin(), full.rend());
		size_t k = kept.size();
		double last = std::abs(kept.back());
		if (k < full.size() && last > 0 && full[k] == last)
			need(false, "multiplet", "a value equal to the last of the " + std::to_string(k) + " kept, " + fmtd(last) + ", was discarded");
	}
	// zeros of the full matrix may not be part of a block decomposition
	void judge(const std::vector<double> &all, const std::vector<double> &kept, const Trunc &t, bool tr)
	{
		double scale = all.empty() ? 0 : std::abs(all[0]), e = eps_of(w.dt);
		size_t nz = 0;
		while (nz < all.size() && std::abs(all[nz]) > 10 * e * scale && all[nz] != 0) ++nz;
		if (!tr)
		{
			need(kept.size() >= nz, "selection", "values are missing");
			std::vector<double> s(all.begin(), all.begin() + std::min(all.size(), kept.size()));
			auto k2 = kept;
			while (k2.size() > s.size()) { need(std::abs(k2.back()) <= 10 * e * scale, "selection", "more values than the matrix has"); k2.pop_back(); }
			needs(selection(s, k2, t, 10 * e, true), "selection");
			return;
		}
		// with truncation: the decomposition has at least the non-zero values
		std::vector<double> s(all.begin(), all.begin() + std::max(nz, std::min(all.size(), kept.size())));
		Trunc t2 = t;
		needs(selection(s, kept, t2, 10 * e, true), "selection");
	}
	void block_batched(const Step &st, Entry &e)
	{
		auto &m = e.m;
		auto W = wide(w.dt);
		id += " of " + m.desc();
		Factors o;
		perform(st, [&](Factors &x) { std::tie(x.U, x.d, x.V) = svd(e.b); }, o, [&] { return bits(e.b); });
		for (auto *x : {&o.U, &o.d, &o.V}) needs(sound(*x), "structure");
		for (auto *x : {&o.U, &o.V})
		{
			need(type_of(*x) == w.dt, "dtype", "the options of a factor have another element type than the tensor");
			for (auto &kv : x->blocks()) need(kv.second.scalar_type() == w.dt, "dtype", "a block of a factor has another element type than the tensor");
		}
		int64_t R = m.rank();
		need(o.U.dim() == R && o.V.dim() == R && o.d.dim() == R - 1, "structure", "ranks of the factors");
		for (int64_t i = 0; i + 1 < R; ++i) needs(same_leg(leg_of(o.U, i), leg_of(e.b, i), false), "structure");
		auto U = assemble(o.U, W), V = assemble(o.V, W), d = assemble(o.d, at::kDouble).to(W);
		auto rec = torch::matmul(U * d.unsqueeze(-2), V.conj().transpose(-1, -2));
		need(rec.sizes() == m.dims(), "error", "the factors do not reassemble the shape");
		double err = maxabs(rec - m.d.to(W)), sc = maxabs(m.d);
		need(err <= 100 * eps_of(w.dt) * sc + 1e-280, "error", "the factors do not reassemble the tensor, defect " + fmtd(err));
		for (auto &kv : o.d.blocks())
		{
			auto v = kv.second.to(torch::kDouble);
			need(v.numel() == 0 || v.min().item().toDouble() >= 0, "negative", "negative singular value");
		}
		// columns with a stored value are orthonormal (within each matrix of the batch)
		auto present = torch::zeros(d.sizes(), torch::kDouble);
		{
			std::vector<SpecLeg> L;
			for (int64_t i = 0; i < o.d.dim(); ++i) L.push_back(leg_of(o.d, i));
			for (auto &kv : o.d.blocks())
			{
				auto v = present;
				for (size_t i = 0; i < kv.first.size(); ++i)
					v = v.narrow(i, std::accumulate(L[i].sz.begin(), L[i].sz.begin() + kv.first[i], int64_t(0)), L[i].sz[kv.first[i]]);
				v.fill_(1);
			}
		}
		auto want = torch::diag_embed(present).to(W);
		for (auto *x : {&U, &V})
		{
			auto I = torch::matmul(x->conj().transpose(-1, -2), *x);
			double e2 = maxabs(I - want);
			need(e2 <= 50 * eps_of(w.dt), "isometry", "a factor is not an isometry, defect " + fmtd(e2));
		}
		// the recipe of the documentation
		btensor A2;
		std::string what;
		auto oc = attempt('-', 0, [&] {
			auto dr = o.d.reshape_as(shape_from(o.d, btensor({{{1, o.d.selection_rule->neutral()}}}, o.d.selection_rule->neutral()))).transpose_(-1, -2);
			A2 = o.U.mul(dr).bmm(o.V.transpose(-1, -2).conj());
		}, &what);
		need(oc == Outcome::ok, "exception", "the documented reassembly raised: " + what);
		needs(structure(A2, m), "reassembled");
		double err2 = maxabs(dense(A2, m, W) - m.d.to(W));
		need(err2 <= 100 * eps_of(w.dt) * sc + 1e-280, "error", "the documented reassembly does not give the tensor, defect " + fmtd(err2));
		c.log(id + " ok");
	}
	// complete bases on both sides, or the values alone
	void block_full(const Step &st, Entry &e)
	{
		auto &m = e.m;
		auto W = wide(w.dt);
		bool some = st.arg(5) % 3 == 0, uv = !some && st.arg(4) % 3 != 0;
		id += std::string(some ? " thin" : " full") + (uv ? "" : " values only") + " of " + m.desc();
		Factors o, ref;
		perform(st, [&](Factors &x) { std::tie(x.U, x.d, x.V) = svd(e.b, quantit::BOOL(some), quantit::BOOL(uv)); }, o, [&] { return bits(e.b); });
		attempt('-', 0, [&] { std::tie(ref.U, ref.d, ref.V) = svd(e.b); });
		for (auto *x : {&o.U, &o.d, &o.V}) needs(sound(*x), "structure");
		int64_t R = m.rank();
		need(o.U.dim() == R && o.V.dim() == R && o.d.dim() == R - 1, "structure", "ranks of the factors");
		for (int64_t i = 0; i + 1 < R; ++i) needs(same_leg(leg_of(o.U, i), leg_of(e.b, i), false), "structure");
		for (int64_t i = 0; i + 1 < R; ++i) needs(same_leg(leg_of(o.d, i), leg_of(ref.d, i), false), "structure");
		needs(same_leg(leg_of(o.V, R - 2), leg_of(ref.V, R - 2), false), "structure");
		need(type_of(o.U) == w.dt && type_of(o.V) == w.dt && type_of(o.d) == real_of(w.dt), "dtype", "the options of a factor have another element type than the tensor");
		double sc = maxabs(m.d);
		double ed = maxabs(assemble(o.d, at::kDouble) - assemble(ref.d, at::kDouble));
		need(ed <= 100 * eps_of(w.dt) * sc + 1e-280, "values", "the singular values depend on what is asked with them, by " + fmtd(ed));
		if (!uv)
		{
			need(o.U.blocks().empty() && o.V.blocks().empty(), "values", "vectors that were not asked for");
			c.log(id + " ok");
			return;
		}
		auto bu = leg_of(o.U, R - 1), bv = leg_of(o.V, R - 1), bd = leg_of(o.d, R - 2);
		need(bu.sz.size() == bd.sz.size() && bv.sz.size() == bd.sz.size(), "structure", "the bonds have different numbers of sections");
		auto U = assemble(o.U, W), V = assemble(o.V, W), d = assemble(o.d, at::kDouble).to(W);
		auto rec = torch::zeros(m.dims(), W);
		int64_t ou = 0, ov = 0, od = 0;
		for (size_t s = 0; s < bd.sz.size(); ++s)
		{
			int64_t k = bd.sz[s];
			need(k == std::min(bu.sz[s], bv.sz[s]), "structure", "a section of the values is not the smaller of those of the bases");
			rec += torch::matmul(U.narrow(-1, ou, k) * d.narrow(-1, od, k).unsqueeze(-2), V.narrow(-1, ov, k).conj().transpose(-1, -2));
			for (int side = 0; side < 2; ++side)
			{ // the whole section is orthonormal in the one matrix it belongs to, and spans all of its rows
				auto F = side ? V.narrow(-1, ov, bv.sz[s]) : U.narrow(-1, ou, bu.sz[s]);
				int64_t n = F.size(-1);
				auto I = torch::matmul(F.conj().transpose(-1, -2), F).reshape({-1, n, n});
				auto one = torch::eye(n, I.options());
				int64_t B = 1;
				for (int64_t i = 0; i + 2 < R; ++i) B *= m.dim(i);
				for (int64_t b = 0; b < B && n; ++b)
				{
					double a0 = maxabs(I[b]), a1 = maxabs(I[b] - one);
					need(std::min(a0, a1) <= 50 * eps_of(w.dt), "isometry", "a factor is not an isometry, defect " + fmtd(std::min(a0, a1)));
				}
				double rows = 0;
				auto P = torch::matmul(F, F.conj().transpose(-1, -2)).abs();
				auto dg = P.reshape({B, P.size(-2), P.size(-1)}).diagonal(0, 1, 2);
				for (int64_t b = 0; b < B && n; ++b)
				{
					rows = dg[b].sum().template item<double>();
					need(rows < 0.5 || std::abs(rows - n) <= 1e3 * eps_of(w.dt), "isometry", "a basis is incomplete");
					auto x = torch::minimum(dg[b].abs(), (dg[b] - 1).abs());
					need(maxabs(x) <= 100 * eps_of(w.dt), "isometry", "a basis is incomplete");
				}
			}
			ou += bu.sz[s], ov += bv.sz[s], od += k;
		}
		double err = maxabs(rec - m.d.to(W));
		need(err <= 100 * eps_of(w.dt) * sc + 1e-280, "error", "the factors do not reassemble the tensor, defect " + fmtd(err));
		c.log(id + " ok");
	}
	void block_eigh(const Step &st, Entry &e, size_t split, bool tr, bool batched)
	{
		auto &m = e.m;
		int64_t n = 1;
		for (size_t i = 0; i < split; ++i) n *= m.dim(i);
		auto W = wide(w.dt);
		auto M = m.d.to(W).reshape({n, n});
		auto all = sorted(std::get<0>(torch::linalg::eigh(M, "L")), true);
		Trunc t;
		if (tr) t = trunc_of(st, all, 1);
		id += t.str() + " of " + m.desc();
		Factors o;
		bool upper = st.arg(5) % 2;
		perform(
		    st,
		    [&](Factors &x) {
			    if (batched) std::tie(x.d, x.U) = eigh(e.b, quantit::BOOL(upper));
			    else if (!tr) std::tie(x.d, x.U) = eigh(e.b, split);
			    else if (t.with_sizes) std::tie(x.d, x.U) = eigh(e.b, split, t.tol, size_t(t.min), size_t(t.max), t.pow);
			    else std::tie(x.d, x.U) = eigh(e.b, split, t.tol, t.pow);
		    },
		    o, [&] { return bits(e.b); });
		for (auto *x : {&o.U, &o.d}) needs(sound(*x), "structure");
		need(o.U.dim() == (int64_t)split + 1 && o.d.dim() == 1, "structure", "ranks of the factors");
		for (size_t i = 0; i < split; ++i) needs(same_leg(leg_of(o.U, i), leg_of(e.b, i), false), "structure");
		auto bu = leg_of(o.U, split), bd = leg_of(o.d, 0);
		need(bu.sz == bd.sz, "structure", "the bond has sections " + str(bu.sz) + " on the vectors and " + str(bd.sz) + " on the values");
		need(type_of(o.U) == w.dt && type_of(o.d) == real_of(w.dt), "dtype", "the options of a factor have another element type than the tensor");
		for (auto &kv : o.U.blocks()) need(kv.second.scalar_type() == w.dt, "dtype", "a block of the vectors has another element type than the tensor");
		for (auto &kv : o.d.blocks()) need(kv.second.scalar_type() == real_of(w.dt), "dtype", "the eigenvalues have another precision than the tensor");
		std::vector<double> kept;
		std::vector<int64_t> cols;
		int64_t off = 0;
		for (size_t s = 0; s < bd.sz.size(); ++s)
		{
			auto it = o.d.blocks().find(IL{(int64_t)s});
			if (it != o.d.blocks().end())
			{
				auto v = it->second.to(torch::kDouble);
				for (int64_t i = 0; i < v.size(0); ++i) kept.push_back(v[i].item().toDouble()), cols.push_back(off + i);
			}
			off += bd.sz[s];
		}
		std::sort(kept.begin(), kept.end(), [](double a, double b) { return std::abs(a) > std::abs(b); });
		judge(all, kept, t, tr);
		if (tr && !batched) whole_multiplets(std::get<0>(eigh(e.b, split)), kept);
		auto U = assemble(o.U, W).reshape({n, off}), d = assemble(o.d, at::kDouble).to(W);
		if (!cols.empty()) check_isometry(U.index_select(1, torch::tensor(cols, torch::kLong)), "S");
		double e2 = maxabs(torch::matmul(M, U) - U * d);
		need(e2 <= 100 * eps_of(w.dt) * (all.empty() ? 1 : std::abs(all[0])) + 1e-280, "eigenpair", "a kept vector is not the eigenvector of its value, defect " + fmtd(e2));
		check_error(M, torch::matmul(U * d, U.conj().t()), all, kept.size());
		btensor rec;
		std::string what;
		auto oc = attempt('-', 0, [&] { rec = tensordot(o.U.mul(o.d), o.U.conj(), {o.U.dim() - 1}, {o.U.dim() - 1}); }, &what);
		need(oc == Outcome::ok, "exception", "tensordot(S.mul(e), S.conj()) raised: " + what);
		needs(structure(rec, m), "reassembled");
		check_error(M, dense(rec, m, W).reshape({n, n}), all, kept.size());
		c.log(id + " keeps " + std::to_string(kept.size()));
	}
	void dims(const Step &st)
	{
		Rng r(u64(st.arg(2)));
		IL a, b;
		for (i64 k = r.below(5); k > 0; --k) a.push_back(r.range(1, 5));
		for (i64 k = r.below(4); k > 0; --k) b.push_back(r.range(1, 5));
		IL ab = a;
		ab.insert(ab.end(), b.begin(), b.end());
		int64_t pr = 1;
		for (auto x : a) pr *= x;
		need(quantit::concat({a, b}) == ab, "dims", "concat " + str(a) + str(b));
		need(quantit::prod(a) == pr, "dims", "prod " + str(a));
		IL rv(a.rbegin(), a.rend());
		need(quantit::reverse(a) == rv, "dims", "reverse of " + str(a) + " is " + str(quantit::reverse(a)));
		c.log("dims ok");
	}
};
void run_la(const Plan &p, Ctx &c)
{
	World w(p, c);
	torch::manual_seed(p.seed);
	default_type(p.get("ddt") ? at::kFloat : at::kDouble);
	Rng r0(u64(p.get("init")));
	for (int k = 0; k < 3; ++k) w.pool.push_back(w.make(r0, (int)r0.range(2, 4)));
	Runner run(w);
	int done = 0;
	for (auto &st : p.steps)
	{
		set_label(st.op);
		run.id = st.op;
		Rng r(u64(st.arg(2)) * 31 + 7);
		size_t i = st.arg(0) % w.pool.size();
		auto &n = st.op;
		c.probe("op." + n);
		if (n == "new") w.pool[i] = w.make(r, (int)r.range(2, 4));
		else if (n == "scale")
		{
			auto &e = w.pool[i];
			e.b = e.b.mul(0.3);
			e.m.d = e.m.d * 0.3;
			e.m.d = dense(e.b, e.m, w.dt);
		}
		else if (n == "dsvd" || n == "dsvdt" || n == "bsvd" || n == "bsvdt")
		{
			Entry e = w.pool[i];
			if (n[0] == 'b' && e.m.rank() < 2) continue;
			size_t split = n[0] == 'b' ? 1 + st.arg(1) % (e.m.rank() - 1) : st.arg(1) % (e.m.rank() + 1);
			if (n[0] == 'd') run.dense_svd(st, e, split, n == "dsvdt");
			else run.block_svd(st, e, split, n == "bsvdt");
			++done;
		}
		else if (n == "batched") { if (w.pool[i].m.rank() >= 2) run.block_batched(st, w.pool[i]), ++done; }
		else if (n == "full") { if (w.pool[i].m.rank() >= 2) run.block_full(st, w.pool[i]), ++done; }
		else if (n == "deigh" || n == "deight" || n == "beigh" || n == "beight" || n == "heigh")
		{
			int half = n == "heigh" ? 1 : (int)r.range(1, 2);
			Entry e = w.make_hermitian(r, half);
			if (n[0] == 'd') run.dense_eigh(st, e, half, n == "deight");
			else run.block_eigh(st, e, half, n == "beight", n == "heigh");
			++done;
		}
		else if (n == "trunc") run.truncate_pair(st), ++done;
		else if (n == "asc") run.ascending(st), ++done;
		else if (n == "dims") run.dims(st);
	}
	if (done >= 2) c.probe("nontrivial");
}
void gen_la(Rng &r, Plan &p, bool thorough)
{
	p.cfg["group"] = r.chance(0.35) ? 0 : r.range(0, 5);
	p.cfg["dtype"] = r.chance(0.5) ? 0 : r.range(0, 3);
	p.cfg["ddt"] = r.chance(0.25);
	p.cfg["init"] = r.below(1000000000);
	static const std::pair<const char *, int> OPS[] = {{"new", 3}, {"scale", 1}, {"dsvd", 2}, {"dsvdt", 4}, {"bsvd", 4}, {"bsvdt", 10}, {"batched", 3}, {"full", 2}, {"deigh", 1}, {"deight", 4}, {"beigh", 2}, {"beight", 5}, {"heigh", 2}, {"trunc", 2}, {"asc", 2}, {"dims", 1}};
	int total = 0;
	for (auto &o : OPS) total += o.second;
	int n = (int)r.range(3, thorough ? 16 : 9);
	for (int k = 0; k < n; ++k)
	{
		Step s;
		i64 x = r.below(total);
		for (auto &o : OPS)
		{
			x -= o.second;
			if (x < 0) { s.op = o.first; break; }
		}
		for (int z = 0; z < 6; ++z) s.a.push_back(r.below(1000000));
		if (r.chance(0.25))
		{
			s.fk = r.chance(0.5) ? 'n' : r.chance(0.5) ? 't' : 'o';
			s.fn = r.below(1000000);
		}
		p.steps.push_back(s);
	}
}
Register r1({"C12", gen_la, run_la, 6000, 150000,
             "svd, eigh, truncation (dense and block) and every btensor operation they use, compiled from /repo; libtorch kernels and LAPACK",
             "libtorch's CPU memory allocator (simulated), operator new of library code (failing), kernel dispatch (a hook that may throw before a kernel)",
             "one evaluation is one simulated run (one plan: a pool of random tensors, a history of decompositions that reuse each other's factors, with injected failures); distinct_nontrivial counts distinct execution hashes among runs that completed at least 2 decompositions"});
} // namespace
