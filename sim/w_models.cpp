// C16: the library's models and local operators are their textbook definitions, whatever was built, modified or failed before.
#include "models.h"
#include "hamil.h"
#include "operators.h"
using namespace bt;
namespace
{
using C = c10::complex<double>;
// matrix of the operator on the full space
at::Tensor matrix_of(const at::Tensor &f, size_t L)
{
	Quiet q;
	std::vector<int64_t> perm{0};
	for (size_t i = 0; i < L; ++i) perm.push_back(1 + 2 * i);
	for (size_t i = 0; i < L; ++i) perm.push_back(2 + 2 * i);
	perm.push_back(2 * L + 1);
	int64_t n = 1;
	for (size_t i = 0; i < L; ++i) n *= f.size(1 + 2 * i);
	return f.permute(perm).reshape({n, n});
}
// -J sum S_i . S_i+1 on spins one half, written on the basis of bit strings (most significant first; 0: up)
at::Tensor heisenberg(C J, int L)
{
	Quiet q;
	int64_t n = int64_t(1) << L;
	auto H = torch::zeros({n, n}, torch::kComplexDouble);
	auto a = H.accessor<C, 2>();
	for (int64_t s = 0; s < n; ++s)
		for (int i = 0; i + 1 < L; ++i)
		{
			int x = (s >> (L - 1 - i)) & 1, y = (s >> (L - 2 - i)) & 1;
			a[s][s] += -J * (x == y ? 0.25 : -0.25);
			if (x != y) a[s ^ (int64_t(3) << (L - 2 - i))][s] += -J * 0.5;
		}
	return H;
}
// U n_up n_dn - mu n on every site and a hopping of one between neighbours, on the Fock space. The modes are ordered up, dn,
// site after site; a site's state is 1 for up plus 2 for dn
at::Tensor hubbard(C U, C mu, int L)
{
	Quiet q;
	int64_t n = int64_t(1) << (2 * L);
	auto H = torch::zeros({n, n}, torch::kComplexDouble);
	auto a = H.accessor<C, 2>();
	auto index = [L](const std::vector<int> &occ) {
		int64_t x = 0;
		for (int i = 0; i < L; ++i) x = x * 4 + occ[2 * i] + 2 * occ[2 * i + 1];
		return x;
	};
	for (int64_t s = 0; s < n; ++s)
	{
		std::vector<int> occ(2 * L);
		for (int i = 0; i < L; ++i)
		{
			int64_t l = (s >> (2 * (L - 1 - i))) & 3;
			occ[2 * i] = l & 1;
			occ[2 * i + 1] = l >> 1;
		}
		int64_t from = index(occ);
		for (int i = 0; i < L; ++i)
		{
			if (occ[2 * i] && occ[2 * i + 1]) a[from][from] += U;
			a[from][from] += -mu * double(occ[2 * i] + occ[2 * i + 1]);
		}
		for (int i = 0; i + 1 < L; ++i)
			for (int sp = 0; sp < 2; ++sp)
				for (int dir = 0; dir < 2; ++dir)
				{ // create at x, destroy at y
					int x = 2 * (i + dir) + sp, y = 2 * (i + 1 - dir) + sp;
					if (!occ[y] || occ[x]) continue;
					auto o = occ;
					int sign = 1;
					for (int k = 0; k < y; ++k) sign = o[k] ? -sign : sign;
					o[y] = 0;
					for (int k = 0; k < x; ++k) sign = o[k] ? -sign : sign;
					o[x] = 1;
					a[index(o)][from] += C(sign);
				}
	}
	return H;
}
struct Ask
{
	bool hub = false, block = false, scalar = false, integer = false, valid = true, either = false;
	size_t L = 1;
	at::ScalarType dt = at::kDouble; // of the couplings
	C x[2];
	IL sz;
	std::vector<Charge> q;
	btensor phys;
	at::Tensor t[2];
	at::ScalarType want() const { return dt; }
};
struct Made
{
	bool block;
	Ask a;
	MPO o;
	bMPO b;
	std::vector<u64> bits;
	std::vector<at::Tensor> sites;
};
struct Runner
{
	const Plan &p;
	Ctx &c;
	std::string id;
	std::vector<Made> pool;
	at::ScalarType ddt = at::kDouble;
	int done = 0;
	Runner(const Plan &p_, Ctx &c_) : p(p_), c(c_) {}
	void need(bool ok, const char *cls, const std::string &m) { if (!ok) c.fail(std::string("C16:") + cls, id + ": " + m); }
	void needs(const std::string &m, const char *cls) { need(m.empty(), cls, m); }
	Ask make(Rng &r)
	{
		Quiet quiet;
		Ask a;
		a.hub = r.chance(0.5);
		a.block = r.chance(0.6);
		a.L = r.chance(0.15) ? 1 : r.range(2, a.hub ? 4 : 7);
		static const at::ScalarType DT[] = {at::kDouble, at::kDouble, at::kFloat, at::kComplexDouble, at::kComplexFloat};
		a.dt = DT[r.below(5)];
		bool cplx = at::isComplexType(a.dt);
		for (auto &x : a.x)
		{
			double v = 0, w = 0;
			switch (r.below(8))
			{
			case 0: v = 0; break;
			case 1: v = r.chance(0.5) ? 1 : -1; break;
			case 2: v = r.range(-20, 20) / 4.; break;
			case 3: case 5: v = (r.chance(0.5) ? 1 : -1) * std::pow(10., -11 + 13 * r.unit()); break;
			case 4: v = 1e5 * r.unit(); break;
			default: v = 10 * r.unit() - 5;
			}
			if (cplx && r.chance(0.7)) w = 6 * r.unit() - 3;
			x = C(v, w);
		}
		if (!p.get("typed"))
		{
			a.integer = r.chance(0.15);
			a.scalar = r.chance(0.15);
			if (a.integer) { a.dt = ddt; a.scalar = false; for (auto &x : a.x) x = C(double(r.range(-9, 9)), 0); }
			if (a.scalar) { a.dt = ddt; for (auto &x : a.x) x = C(x.real(), 0); }
		}
		for (int k = 0; k < 2; ++k)
		{
			if (a.integer) { a.t[k] = torch::full({}, int64_t(a.x[k].real()), torch::kLong); continue; }
			auto z = at::isComplexType(a.dt) ? a.x[k] : C(a.x[k].real(), 0);
			a.t[k] = torch::full({}, torch::Scalar(z), torch::kComplexDouble);
			if (!at::isComplexType(a.dt)) a.t[k] = torch::real(a.t[k]).clone();
			a.t[k] = a.t[k].to(a.dt);
			auto back = a.t[k].to(torch::kComplexDouble).item<C>(); // as rounded
			a.x[k] = back;
		}
		if (a.block)
		{
			Group g;
			g.kind = r.chance(0.4) ? 0 : (int)r.range(0, 5);
			std::vector<Charge> e;
			if (a.hub)
			{
				auto z = r.chance(0.4) ? g.zero() : g.random(r);
				e = {z, g.random(r, 2), g.random(r, 2)};
				e.push_back(g.sub(g.add(e[1], e[2]), z));
				if (r.chance(0.08))
				{
					auto was = e[3];
					e[3] = g.random(r, 3);
					a.valid = e[3] == was;
					a.either = a.L == 1; // a lone site has nothing to conserve
				}
			}
			else e = {g.random(r, 2), g.random(r, 2)};
			if (r.chance(0.06)) { e.push_back(g.random(r)); a.valid = false; } // a space that is too large
			if (r.chance(0.06)) { if (a.valid || e.size() < 3 + 2 * a.hub) { e.pop_back(); a.valid = false; } }
			for (auto &x : e)
			{ // equal neighbours may share a section
				if (!a.q.empty() && a.q.back() == x && r.chance(0.6)) { ++a.sz.back(); continue; }
				a.sz.push_back(1);
				a.q.push_back(x);
			}
			MT m;
			m.g = g;
			m.sz = {a.sz};
			m.q = {a.q};
			a.phys = btensor(m.spec(), g.lib(r.chance(0.8) ? g.zero() : g.random(r)), torch::TensorOptions().dtype(DT[r.below(5)]));
		}
		id += std::string(a.block ? " block " : " dense ") + (a.hub ? "Hubbard " : "Heisenberg ") + fmtd(a.x[0].real()) + "," + fmtd(a.x[0].imag()) + " " + fmtd(a.x[1].real()) + "," + fmtd(a.x[1].imag()) + " L " + std::to_string(a.L) + " type " + c10::toString(a.dt) + (a.integer ? " from integers" : a.scalar ? " from numbers" : "");
		if (a.block) { id += " space"; for (size_t k = 0; k < a.q.size(); ++k) id += " " + std::to_string(a.sz[k]) + ":" + str(a.q[k]); }
		return a;
	}
	void call(const Ask &a, Made &m)
	{
		m.block = a.block;
		auto s0 = torch::Scalar(a.x[0].real()), s1 = torch::Scalar(a.x[1].real());
		if (a.block)
		{
			if (a.hub) m.b = a.scalar ? quantit::Hubbard(s0, s1, a.L, a.phys) : quantit::Hubbard(a.t[0], a.t[1], a.L, a.phys);
			else m.b = a.scalar ? quantit::Heisenberg(s0, a.L, a.phys) : quantit::Heisenberg(a.t[0], a.L, a.phys);
		}
		else
		{
			if (a.hub) m.o = a.scalar ? quantit::Hubbard(s0, s1, a.L) : quantit::Hubbard(a.t[0], a.t[1], a.L);
			else m.o = a.scalar ? quantit::Heisenberg(s0, a.L) : quantit::Heisenberg(a.t[0], a.L);
		}
	}
	u64 args(const Ask &a)
	{
		return site_bits(a.t[0]) ^ mix64(site_bits(a.t[1])) ^ (a.block ? mix64(bits(a.phys)) : 0);
	}
	void textbook(const Ask &a, const Made &m)
	{
		Quiet q;
		size_t n = m.block ? m.b.size() : m.o.size();
		need(n == a.L, "length", "has " + std::to_string(n) + " sites");
		needs(m.block ? train_sound(m.b, 4) : train_sound(m.o, 4), "structure");
		for (size_t i = 0; i < n; ++i)
		{
			auto t = m.block ? site_type(m.b[i]) : site_type(m.o[i]);
			need(t == a.want(), "type", "site " + std::to_string(i) + " has type " + c10::toString(t));
			if (m.block)
			{
				needs(same_leg(leg_of(m.b[i], 1), leg_of(a.phys, 0), false), "physical");
				needs(same_leg(leg_of(m.b[i], 3), leg_of(a.phys, 0), true), "physical");
				any_quantity s(static_cast<const quantit::vquantity &>(m.b[i].selection_rule));
				need(s == s.neutral(), "rule", "site " + std::to_string(i) + " does not conserve");
			}
		}
		auto f = m.block ? full_op(m.b) : full_op(m.o);
		need(f.size(0) == 1 && f.size(f.dim() - 1) == 1, "edge", "the edges are not of size one");
		if (m.block)
			for (int e = 0; e < 2; ++e)
			{
				auto l = leg_of(e ? m.b.back() : m.b.front(), e ? 2 : 0);
				for (auto &x : l.q) need(x == x.neutral(), "edge", "the edges are not neutral");
			}
		auto M = matrix_of(f, n);
		auto T = a.hub ? hubbard(a.x[0], a.x[1], (int)a.L) : heisenberg(a.x[0], (int)a.L);
		need(M.size(0) == T.size(0), "physical", "acts on " + std::to_string(M.size(0)) + " states instead of " + std::to_string(T.size(0)));
		bool single = a.want() == at::kFloat || a.want() == at::kComplexFloat;
		double scale = std::max(m.block ? abs_scale(m.b) : 0., std::max(1e-300, maxabs(T)));
		double tol = (single ? 2e-5 : 2e-13) * scale;
		double err = maxabs(M - T);
		if (!(err <= tol))
		{
			auto at = (M - T).abs().argmax().item<int64_t>();
			auto d = T.size(0);
			auto u = M.reshape({-1})[at].item<C>(), w = T.reshape({-1})[at].item<C>();
			c.fail("C16:value", id + ": the element (" + std::to_string(at / d) + "," + std::to_string(at % d) + ") is " + fmtd(u.real()) + "," + fmtd(u.imag()) + " instead of " + fmtd(w.real()) + "," + fmtd(w.imag()));
		}
	}
	void remember(Made &m)
	{
		Quiet q;
		m.bits.clear();
		size_t n = m.block ? m.b.size() : m.o.size();
		for (size_t i = 0; i < n; ++i) m.bits.push_back(m.block ? site_bits(m.b[i]) : site_bits(m.o[i]));
	}
	void unchanged(const Made &m, int except, const char *why)
	{
		size_t n = m.block ? m.b.size() : m.o.size();
		for (size_t i = 0; i < n; ++i)
			if ((int)i != except) need((m.block ? site_bits(m.b[i]) : site_bits(m.o[i])) == m.bits[i], "shared", std::string("site ") + std::to_string(i) + " of an operator changed when " + why);
	}
	void build(const Step &st, Rng &r)
	{
		Ask a = make(r);
		set_label(id);
		auto keep = args(a);
		bool refuse = !a.valid;
		auto fine = [&] { need(args(a) == keep, "arguments", "the arguments changed"); for (auto &m : pool) unchanged(m, -1, "another was built"); };
		if (st.fk != '-' && st.fk != 'c')
		{
			long at;
			{
				KernelHook kh;
				attempt('-', 0, [&] { Made m; call(a, m); });
				at = fault_at(st.fn, event_counts().of(st.fk));
			}
			if (at > 0)
			{
				long lt = live_tensors(), leak;
				Outcome oc;
				track_begin();
				{
					Made m;
					KernelHook kh;
					oc = attempt(st.fk, at, [&] { call(a, m); });
				}
				leak = track_end();
				need(oc != Outcome::other || refuse, "spurious", "an exception without an injected failure");
				need(leak <= 0 && live_tensors() <= lt, "leak", std::to_string(leak) + " allocations and " + std::to_string(live_tensors() - lt) + " tensors remain after a failure");
				if (oc == Outcome::injected) c.probe(std::string("fault.") + (st.fk == 'n' ? "allocation" : st.fk == 't' ? "tensor" : "kernel"));
				fine();
			}
		}
		Made m;
		std::string what;
		auto oc = attempt('-', 0, [&] { call(a, m); }, &what);
		fine();
		c.log(id + (oc == Outcome::ok ? "" : " refused"));
		if (refuse && !(a.either && a.phys.sizes()[0] == 4 && oc == Outcome::ok))
		{
			if (a.either && oc == Outcome::ok) c.fail("C16:accepted", id + ": a physical space of the wrong size was accepted");
			need(oc != Outcome::ok, "accepted", "a physical space in which the model does not conserve anything was accepted");
			c.probe("refused");
			++done;
			return;
		}
		need(oc == Outcome::ok, "exception", "unexpected exception: " + what);
		m.a = a;
		textbook(a, m);
		remember(m);
		c.note(id + " operator", [&] { u64 h = 5; if (m.block) for (auto &t : m.b) h = mix64(h ^ bt::observe(t)); else for (auto &t : m.o) h = mix64(h ^ bt::observe(t)); return h; });
		c.probe(a.hub ? "hubbard" : "heisenberg");
		++done;
		// what it does to a state
		if (a.L >= 2 && st.arg(1) % 3 == 0) expect(r, a, m);
		if (pool.size() < 4) pool.push_back(std::move(m));
		else pool[r.below(4)] = std::move(m);
	}
	void expect(Rng &r, const Ask &a, const Made &m)
	{
		ChainSpec s;
		s.dt = a.want();
		s.block = a.block;
		s.lsz = s.rsz = {1};
		C got, want;
		double scale = 1;
		std::string what;
		auto value = [&](const at::Tensor &psi) {
			Quiet q;
			auto v = psi.reshape({-1});
			auto M = matrix_of(m.block ? full_op(m.b) : full_op(m.o), a.L);
			want = (v.conj() * torch::matmul(M, v)).sum().item<C>();
			scale *= std::max(1., maxabs(M)) * double(v.numel());
		};
		auto num = [](const at::Tensor &t) { Quiet q; return t.to(torch::kComplexDouble).item<C>(); };
		if (a.block) return; // states of a symmetry sector are C08's business
		for (size_t i = 0; i < a.L; ++i) s.psz.push_back({a.hub ? 4 : 2});
		s.pq.resize(a.L);
		auto psi = random_dense_state(r, s, 3, 0);
		scale = abs_scale(psi) * abs_scale(psi);
		value(full_state(psi));
		auto oc = attempt('-', 0, [&] { got = num(contract(psi, psi, m.o)); }, &what);
		need(oc == Outcome::ok, "exception", "the operator cannot be contracted: " + what);
		bool single = a.want() == at::kFloat || a.want() == at::kComplexFloat;
		need(std::abs(got.real() - want.real()) + std::abs(got.imag() - want.imag()) <= (single ? 1e-4 : 1e-10) * scale, "expectation", "the expectation value is " + fmtd(got.real()) + " instead of " + fmtd(want.real()));
	}
	void poke(Rng &r)
	{
		if (pool.empty()) return;
		auto &m = pool[r.below((i64)pool.size())];
		size_t n = m.block ? m.b.size() : m.o.size();
		int i = (int)r.below((i64)n);
		id += " site " + std::to_string(i) + " of " + std::to_string(n) + (m.block ? " block" : " dense");
		int how = (int)r.below(3);
		{
			Quiet q;
			if (!m.block) { if (how == 0) m.o[i].mul_(2); else if (how == 1) m.o[i].zero_(); else m.o[i].add_(1); }
			else { if (how == 0) m.b[i].mul_(2); else for (auto &kv : m.b[i]) { if (how == 1) kv.second.zero_(); else kv.second.add_(1); } }
		}
		c.log(id);
		unchanged(m, i, "another of its sites was modified");
		for (auto &x : pool) if (&x != &m) unchanged(x, -1, "another operator was modified");
		remember(m);
		c.probe("modified");
	}
	void coalesce(const Step &st, Rng &r)
	{
		for (auto &m : pool)
			if (m.block)
			{
				auto H = full_op(m.b);
				double scale = abs_scale(m.b);
				std::string what;
				auto oc = attempt('-', 0, [&] { m.b.coalesce(); }, &what);
				need(oc == Outcome::ok, "exception", "coalesce: " + what);
				auto H2 = full_op(m.b);
				bool single = m.a.want() == at::kFloat || m.a.want() == at::kComplexFloat;
				need(maxabs(H2 - H) <= (single ? 1e-4 : 1e-11) * scale, "value", "compressing the operator changed it by " + fmtd(maxabs(H2 - H)));
				remember(m);
				return;
			}
	}
	// the operators of one site
	void local(Rng &r)
	{
		auto want2 = [](std::initializer_list<double> x) { Quiet q; return torch::tensor(std::vector<double>(x), torch::kDouble).reshape({2, 2}); };
		auto fock = [](int sp) { // destroys a particle of one spin
			Quiet q;
			auto t = torch::zeros({4, 4}, torch::kDouble);
			auto a = t.accessor<double, 2>();
			for (int s = 0; s < 4; ++s)
				if (s >> sp & 1) a[s ^ (1 << sp)][s] = sp && (s & 1) ? -1 : 1;
			return t;
		};
		auto same = [&](const at::Tensor &t, const at::Tensor &w, const char *n) {
			Quiet q;
			need(t.sizes() == w.sizes() && torch::equal(t.to(torch::kDouble), w), "operator", std::string(n) + " is " + show(t.to(torch::kDouble)) + " instead of " + show(w));
		};
		auto F = [] { Quiet q; return torch::diag(torch::tensor({1., -1., -1., 1.}, torch::kDouble)); }();
		auto id4 = [] { Quiet q; return torch::eye(4, torch::kDouble); }();
		std::vector<at::Tensor> W = {fock(0), fock(1), F, id4};
		static const char *N[] = {"c_up", "c_dn", "F", "id"};
		std::vector<at::Tensor> P = {want2({0, 1, 1, 0}), want2({0, 1, -1, 0}), want2({1, 0, 0, -1}), want2({0, 1, 0, 0}), want2({1, 0, 0, 1})};
		static const char *NP[] = {"sigma_x", "i sigma_y", "sigma_z", "the lowering operator", "id"};
		{
			auto [a, b, f, i] = quantit::fermions();
			at::Tensor all[] = {a, b, f, i};
			for (int k = 0; k < 4; ++k) { same(all[k], W[k], N[k]); Quiet q; all[k].zero_(); }
			auto [x, y, z, lo, j] = quantit::pauli();
			at::Tensor pa[] = {x, y, z, lo, j};
			for (int k = 0; k < 5; ++k) { same(pa[k], P[k], NP[k]); Quiet q; pa[k].add_(1); }
		}
		Group g;
		g.kind = (int)r.range(0, 5);
		auto shape = [&](const std::vector<Charge> &e) {
			Quiet q;
			MT m;
			m.g = g;
			IL sz(e.size(), 1);
			std::vector<Charge> n;
			for (auto &x : e) n.push_back(g.neg(x));
			m.sz = {sz, sz};
			m.q = {e, n};
			return btensor(m.spec(), g.lib(g.zero()), torch::TensorOptions().dtype(at::kDouble));
		};
		auto z = g.random(r), u = g.random(r), d = g.random(r);
		auto check = [&](const btensor &t, const at::Tensor &w, const Charge &rule, const char *n) {
			Quiet q;
			needs(sound(t), "structure");
			same(assemble(t, at::kDouble), w, n);
			need(any_quantity(static_cast<const quantit::vquantity &>(t.selection_rule)) == g.lib(rule), "rule", std::string(n) + " has another selection rule");
		};
		auto s4 = shape({z, u, d, g.sub(g.add(u, d), z)});
		std::string what;
		auto oc = attempt('-', 0, [&] {
			auto [a, b, f, i] = quantit::fermions(s4);
			check(a, W[0], g.sub(z, u), N[0]);
			check(b, W[1], g.sub(z, d), N[1]);
			check(f, W[2], g.zero(), N[2]);
			check(i, W[3], g.zero(), N[3]);
		}, &what);
		need(oc == Outcome::ok, "exception", "fermions: " + what);
		auto s2 = shape({u, d});
		oc = attempt('-', 0, [&] {
			auto [sz, lo, i] = quantit::pauli(s2);
			check(sz, P[2], g.zero(), NP[2]);
			check(lo, P[3], g.sub(u, d), NP[3]);
			check(i, P[4], g.zero(), NP[4]);
		}, &what);
		need(oc == Outcome::ok, "exception", "pauli: " + what);
		c.log(id);
		c.probe("local");
		++done;
	}
	void refused(Rng &r)
	{
		int k = (int)r.below(4);
		auto one = torch::full({}, 1., torch::kDouble), bad = torch::ones({2}, torch::kDouble);
		auto oc = attempt('-', 0, [&] {
			if (k == 0) quantit::Heisenberg(one, 0);
			if (k == 1) quantit::Hubbard(one, one, 0);
			if (k == 2) quantit::Heisenberg(bad, 3);
			if (k == 3) quantit::Hubbard(r.chance(0.5) ? bad : one, bad, 3);
		});
		need(oc != Outcome::ok, "accepted", "nonsense was accepted");
		c.log(id);
		c.probe("refused");
	}
	void main()
	{
		default_type(at::kDouble);
		int k = 0;
		for (auto &st : p.steps)
		{
			id = st.op + " #" + std::to_string(k++);
			set_label(id);
			Rng r(u64(st.arg(0)) * 7919 + p.get("init"));
			c.probe("op." + st.op);
			if (st.op == "build") build(st, r);
			else if (st.op == "poke") poke(r);
			else if (st.op == "local") local(r);
			else if (st.op == "coalesce") coalesce(st, r);
			else if (st.op == "refused") refused(r);
			else if (st.op == "ddt" && !p.get("typed")) default_type(ddt = ddt == at::kDouble ? at::kFloat : at::kDouble);
		}
		default_type(at::kDouble);
		if (done >= 2) c.probe("nontrivial");
	}
};
void run_models(const Plan &p, Ctx &c)
{
	Runner r(p, c);
	r.main();
}
void gen_models(Rng &r, Plan &p, bool thorough)
{
	p.cfg["init"] = r.below(1000000000);
	int n = (int)r.range(3, thorough ? 14 : 9);
	for (int k = 0; k < n; ++k)
	{
		Step s;
		double x = r.unit();
		s.op = x < 0.6 ? "build" : x < 0.75 ? "poke" : x < 0.84 ? "local" : x < 0.9 ? "ddt" : x < 0.96 ? "coalesce" : "refused";
		for (int z = 0; z < 3; ++z) s.a.push_back(r.below(1000000));
		if (s.op == "build" && r.chance(0.4))
		{
			s.fk = "nto"[r.below(3)];
			s.fn = r.below(1000000);
		}
		p.steps.push_back(s);
	}
}
Register r1({"C16", gen_models, run_models, 3000, 100000,
             "Heisenberg, Hubbard, pauli, fermions, coalesce and every btensor operation they use, compiled from /repo; libtorch kernels and LAPACK",
             "libtorch's CPU memory allocator (simulated), operator new of library code (failing), kernel dispatch (a hook that may throw before a kernel), the process-wide default type (changed by the plan)",
             "one evaluation is one simulated run (one plan: a history of model constructions with injected failures, in-place modifications of operators built earlier, changes of the default type); distinct_nontrivial counts distinct execution hashes among runs in which at least 2 constructions were judged"});
} // namespace
