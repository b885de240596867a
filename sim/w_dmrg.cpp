// C08, C09, C10, C15: dmrg runs, interrupted or not, under a simulated clock, against exact diagonalisation.
#include "LinearAlgebra.h"
#include "blockTensor/LinearAlgebra.h"
#include "dmrg.h"
#include "models.h"
#include "hamil.h"
#include <chrono>
using namespace bt;
namespace
{
using quantit::dmrg_options;
struct LoggerFailure : std::runtime_error
{
	LoggerFailure() : std::runtime_error("[simulated fault] the logger failed") {}
};
template <class S> struct Kit;
template <> struct Kit<MPS> { using O = MPO; using T = at::Tensor; static constexpr bool block = false; };
template <> struct Kit<bMPS> { using O = bMPO; using T = btensor; static constexpr bool block = true; };

struct Ham
{
	at::Tensor H;  // dense matrix
	double norm;   // spectral norm
	double scale;  // size of the terms, for rounding
	std::map<u64, std::pair<double, int>> ground; // per sector: energy, dimension
	int kind = 0;
};
double number_of(const at::Tensor &t)
{
	Quiet q;
	return t.to(torch::kComplexDouble).item().toComplexDouble().real();
}
double number_of(const btensor &t)
{
	Quiet q;
	return number_of(assemble(t, torch::kComplexDouble));
}
double imag_of(const at::Tensor &t)
{
	Quiet q;
	return t.to(torch::kComplexDouble).item().toComplexDouble().imag();
}
double imag_of(const btensor &t) { Quiet q; return imag_of(assemble(t, torch::kComplexDouble)); }

at::Tensor pauli_like(int which)
{
	auto t = torch::zeros({2, 2}, torch::kComplexDouble);
	auto *p = t.data_ptr<c10::complex<double>>();
	if (which == 0) p[1] = 1;                  // raises
	else if (which == 1) p[2] = 1;             // lowers
	else p[0] = 1, p[3] = -1;
	return t;
}

struct Event
{
	char kind; // i, s, e
	size_t step;
	double E, Eim;
	double Estate; // energy of the state the logger was shown
	double norm;
	size_t mid;
};

template <class S>
struct Runner
{
	using O = typename Kit<S>::O;
	using T = typename Kit<S>::T;
	static constexpr bool block = Kit<S>::block;
	struct Entry
	{
		S s;
		at::Tensor mask; // basis states of the sector (block) or all
		u64 sector = 0;
		bool canonical = false; // in canonical form around its centre
		bool broken = false;    // stopped while it was not canonical yet
	};
	const Plan &p;
	Ctx &c;
	ChainSpec spec;
	Charge total;
	std::vector<Entry> pool;
	std::vector<O> ops;
	std::vector<Ham> hams;
	std::string id;
	double eps, big;
	int done = 0;
	Runner(const Plan &p_, Ctx &c_) : p(p_), c(c_) {}
	bool mine(const char *prop) const { return p.prop == prop; }
	void need(const char *prop, bool ok, const char *cls, const std::string &m)
	{
		if (!ok && mine(prop)) c.fail(std::string(prop) + ":" + cls, id + ": " + m);
	}
	void needs(const char *prop, const std::string &m, const char *cls) { need(prop, m.empty(), cls, m); }
	static size_t centre(const S &s) { return s.orthogonality_center; }

	// ---------------------------------------------------------------- oracle
	at::Tensor vec(const S &s) { Quiet q; return full_state(s).reshape({-1}); }
	std::pair<double, double> energy(const S &s, const Ham &h) // energy, squared norm
	{
		Quiet q;
		auto v = vec(s);
		double n = v.abs().pow(2).sum().item().toDouble();
		double e = torch::matmul(v.conj(), torch::matmul(h.H, v)).item().toComplexDouble().real();
		return {e / n, n};
	}
	void sector_of(Entry &e)
	{
		Quiet q;
		if constexpr (block)
		{
			auto tot = total_of(e.s);
			std::vector<any_quantity> acc;
			auto expand = [&](const SpecLeg &l) {
				std::vector<any_quantity> o;
				for (size_t k = 0; k < l.sz.size(); ++k)
					for (int64_t z = 0; z < l.sz[k]; ++z) o.push_back(l.q[k]);
				return o;
			};
			acc = expand(leg_of(e.s.front(), 0));
			for (size_t i = 0; i < e.s.size(); ++i)
			{
				auto l = expand(leg_of(e.s[i], 1));
				std::vector<any_quantity> n;
				for (auto &a : acc)
					for (auto &b : l) n.push_back(a * b);
				acc = n;
			}
			auto re = expand(leg_of(e.s.back(), 2));
			std::vector<int64_t> m;
			u64 h = 77;
			for (size_t k = 0; k < acc.size(); ++k)
				if (acc[k] * re[0] == tot) m.push_back((int64_t)k), h = mix64(h ^ k);
			e.mask = torch::tensor(m, torch::kLong);
			e.sector = h;
		}
		else
		{
			int64_t n = 1;
			for (auto &s : e.s) n *= s.size(1);
			e.mask = torch::arange(n, torch::kLong);
			e.sector = 1;
		}
	}
	std::pair<double, int> ground(Ham &h, const Entry &e)
	{
		Quiet q;
		auto it = h.ground.find(e.sector);
		if (it != h.ground.end()) return it->second;
		auto m = h.H.index_select(0, e.mask).index_select(1, e.mask);
		std::pair<double, int> x{0, (int)e.mask.numel()};
		if (e.mask.numel()) x.first = std::get<0>(torch::linalg::eigh(m, "L"))[0].item().toDouble();
		h.ground[e.sector] = x;
		return x;
	}
	void finish_ham(const O &o, Ham &h)
	{
		Quiet q;
		auto f = full_op(o);
		int64_t L = (int64_t)o.size();
		std::vector<int64_t> perm{0};
		for (int64_t i = 0; i < L; ++i) perm.push_back(1 + 2 * i);
		for (int64_t i = 0; i < L; ++i) perm.push_back(2 + 2 * i);
		perm.push_back(2 * L + 1);
		int64_t n = 1;
		for (int64_t i = 0; i < L; ++i) n *= f.size(1 + 2 * i);
		h.H = f.permute(perm).reshape({n, n}).contiguous();
		auto ev = std::get<0>(torch::linalg::eigh(h.H, "L"));
		h.norm = std::max(ev.abs().max().item().toDouble(), 1e-12);
		h.scale = std::max(abs_scale(o), h.norm);
	}
	bool make_ham(Rng &r, int kind)
	{
		Quiet quiet;
		Ham h;
		h.kind = kind;
		O o;
		size_t L = spec.L();
		if (kind <= 1)
		{
			auto A = random_op_model(r, spec, 2, 2, r.chance(0.6) ? 1 : 0.6, kind == 1);
			std::vector<MT> B;
			for (auto &m : A) B.push_back(adjoint(m));
			auto W = direct_sum(A, B);
			// moderate size
			static const double SC[] = {1, 1, 0.3, 5, -1};
			for (auto &m : W)
			{
				double n = m.d.abs().to(torch::kDouble).pow(2).sum().item().toDouble();
				if (n > 0) m.d = (m.d * (2. / std::sqrt(n))).to(spec.dt);
			}
			W[0].d = (W[0].d * SC[r.below(5)]).to(spec.dt);
			if constexpr (block)
			{
				std::vector<btensor> v;
				for (auto &m : W) v.push_back(realise(r, m, spec.dt));
				o = O(v);
			}
			else
			{
				std::vector<at::Tensor> v;
				for (auto &m : W) v.push_back(m.d.contiguous());
				o = O(v);
			}
		}
		else
		{
			// the library's models, on spins 1/2 or electrons
			double J = double(r.range(-8, 8)) / 4;
			if constexpr (block)
			{
				auto H = quantit::Heisenberg(torch::tensor(J, torch::kDouble), L);
				auto ph = spec.pq[0];
				const Group &g = spec.g;
				if (spec.psz[0] != IL{1, 1}) return false;
				auto up = g.sub(ph[0], ph[1]);
				std::vector<btensor> v;
				std::vector<Charge> bq{g.zero(), up, g.neg(up), g.zero(), g.zero()};
				for (size_t i = 0; i < L; ++i)
				{
					MT m;
					m.g = g;
					m.rule = g.zero();
					std::vector<Charge> nq, pin;
					for (auto &x : bq) nq.push_back(g.neg(x));
					for (auto &x : ph) pin.push_back(g.neg(x));
					m.sz = {i ? IL{1, 1, 1, 1, 1} : IL{1}, {1, 1}, i + 1 < L ? IL{1, 1, 1, 1, 1} : IL{1}, {1, 1}};
					m.q = {i ? bq : std::vector<Charge>{g.zero()}, ph, i + 1 < L ? nq : std::vector<Charge>{g.zero()}, pin};
					// the charges of the two mixed operators come out one way or the other: keep what fits
					m.d = H[i].to(spec.dt).contiguous();
					auto check = torch::zeros_like(m.d);
					for (auto &ix : m.allowed_blocks()) m.view(check, ix).copy_(m.view(m.d, ix));
					if (!torch::equal(check, m.d)) return false;
					v.push_back(realise(r, m, spec.dt));
				}
				o = O(v);
			}
			else
			{
				bool el = r.chance(0.3);
				for (auto &s : spec.psz)
					if (s[0] != (el ? 4 : 2)) return false;
				auto H = el ? quantit::Hubbard(torch::tensor(double(r.range(0, 16)) / 4, torch::kDouble), torch::tensor(double(r.range(-4, 8)) / 4, torch::kDouble), L) : quantit::Heisenberg(torch::tensor(J, torch::kDouble), L);
				std::vector<at::Tensor> v;
				for (size_t i = 0; i < L; ++i) v.push_back(H[i].to(spec.dt).contiguous());
				o = O(v);
			}
		}
		finish_ham(o, h);
		ops.push_back(o);
		hams.push_back(h);
		return true;
	}
	bool make_state(Rng &r, Entry &e)
	{
		for (int t = 0; t < 12; ++t)
		{
			static const double ps[] = {1, 1, 0.8, 0.5};
			S s;
			{
				Quiet q;
				if constexpr (block) s = random_block_state(r, spec, r.chance(0.3) ? 3 : 2, 2, t > 6 ? 1 : ps[r.below(4)], total, 0);
				else s = random_dense_state(r, spec, r.chance(0.3) ? 1 : 4, 0);
				// a product state now and then
				double n = vec(s).abs().pow(2).sum().item().toDouble();
				if (!(n > 1e-3)) continue;
				int L = (int)s.size();
				s.move_oc(L - 1);
				s.move_oc(0);
				s.move_oc((int)r.below(L));
				if (r.chance(0.6)) s[centre(s)] = s[centre(s)].div(at::Scalar(std::sqrt(n)));
			}
			e.s = s;
			e.canonical = true;
			e.broken = false;
			sector_of(e);
			return true;
		}
		return false;
	}

	// ---------------------------------------------------------------- logger
	struct Log : quantit::dmrg_logger
	{
		Runner &R;
		const Ham *h = nullptr;
		quantit::dmrg_log_sweeptime sw;
		quantit::dmrg_log_simple si;
		std::vector<Event> ev;
		std::vector<double> dur; // seconds of each sweep, as simulated
		Rng r;
		long fail_at = -1, n = 0;
		bool watch = true; // look at the state that is shown
		int slow = 0;
		std::string bad; // anything wrong with what was shown
		bool in = false;
		int reads = 0;
		i64 stall = 0;
		Log(Runner &R_, u64 seed) : R(R_), r(seed) {}
		void reset(const Ham *h_, u64 seed) { h = h_; ev.clear(); dur.clear(); n = 0; bad.clear(); r = Rng(seed); fail_at = -1; in = false; }
		i64 amount()
		{
			static const i64 A[] = {0, 1, 999, 1000000, 7000000003, 86400000000000, 40000000000000000};
			return slow == 0 ? r.range(1, 5000000) : A[r.below(slow == 2 ? 7 : 5)];
		}
		void enter() { in = true; reads = 0; stall = amount(); }
		void leave()
		{
			in = false;
			g_now_ns += stall; // what is left of the time spent in the callback
			stall = 0;
		}
		void on_read()
		{
			if (!in) return;
			if (reads++ == 1) { g_now_ns += stall; stall = 0; } // the callback took its time before it looked again
		}
		void boom()
		{
			if (n++ == fail_at) throw LoggerFailure();
		}
		template <class T_, class S_>
		void event(char k, size_t step, const T_ *E, const S_ *s)
		{
			Event x{k, step, 0, 0, 0, 0, 0};
			{
				Quiet q;
				if (E) x.E = number_of(*E), x.Eim = imag_of(*E);
				if (s && s->size())
				{
					auto pos = s->size() / 2;
					x.mid = (size_t)std::max((*s)[pos].sizes()[0], (*s)[pos].sizes()[2]);
					if constexpr (std::is_same_v<S_, S>)
						if (watch)
						{
							auto b = train_sound(*s, 3);
							if (!b.empty()) bad = "the state shown to the logger is broken, " + b;
							else { auto p = R.energy(*s, *h); x.Estate = p.first; x.norm = p.second; }
						}
				}
			}
			ev.push_back(x);
		}
		void log_step(size_t) override {}
		void log_energy(const at::Tensor &) override {}
		void log_energy(const btensor &) override {}
		void log_bond_dims(const MPS &) override {}
		void log_bond_dims(const bMPS &) override {}
		void init(const dmrg_options &o) override
		{
			boom();
			event<T, S>('i', 0, nullptr, nullptr);
			g_now_ns += amount(); // before the logger is ready
			sw.init(o);
			si.init(o);
		}
		template <class T_, class S_> void it(size_t k, const T_ &E, const S_ &s)
		{
			i64 d = amount();
			g_now_ns += d;
			dur.push_back(double(d) * 1e-9);
			boom();
			event('s', k, &E, &s);
			enter();
			sw.it_log_all(k, E, s);
			si.it_log_all(k, E, s);
			leave();
		}
		template <class T_, class S_> void end(size_t k, const T_ &E, const S_ &s)
		{
			boom();
			event('e', k, &E, &s);
			enter();
			sw.end_log_all(k, E, s);
			si.end_log_all(k, E, s);
			leave();
		}
		void it_log_all(size_t k, const at::Tensor &E, const MPS &s) override { it(k, E, s); }
		void it_log_all(size_t k, const btensor &E, const bMPS &s) override { it(k, E, s); }
		void end_log_all(size_t k, const at::Tensor &E, const MPS &s) override { end(k, E, s); }
		void end_log_all(size_t k, const btensor &E, const bMPS &s) override { end(k, E, s); }
		std::vector<Event> sweeps() const
		{
			std::vector<Event> o;
			for (auto &x : ev)
				if (x.kind == 's') o.push_back(x);
			return o;
		}
	};
	struct Clock
	{
		Clock(Log &l) { g_on_clock_read = [&l] { l.on_read(); }; }
		~Clock() { g_on_clock_read = nullptr; }
	};

	// ---------------------------------------------------------------- checks
	double tol(const Ham &h) const { return (spec.dt == at::kFloat || spec.dt == at::kComplexFloat ? 2e-4 : 1e-10) * h.scale * double(spec.L()); }
	double ntol() const { return spec.dt == at::kFloat || spec.dt == at::kComplexFloat ? 1e-4 : 1e-9; }
	static std::string es(const std::vector<Event> &v)
	{
		std::string s;
		for (auto &x : v) s += (s.empty() ? "" : " ") + fmtd(x.E);
		return "[" + s + "]";
	}
	// what a state is, whatever happened to it
	void inspect(const S &s, const S &ref, const char *cls)
	{
		Quiet q;
		std::string C(cls);
		for (auto prop : {"C08", "C09", "C15"})
		{
			if (!mine(prop)) continue;
			needs(prop, train_sound(s, 3), (C + "structure").c_str());
			need(prop, s.size() == ref.size() && centre(s) < s.size(), (C + "centre").c_str(), "centre " + std::to_string(centre(s)) + " of " + std::to_string(s.size()) + " sites");
			for (size_t i = 0; i < s.size(); ++i)
			{
				need(prop, site_type(s[i]) == spec.dt, (C + "dtype").c_str(), "element type of site " + std::to_string(i) + " changed");
				needs(prop, same_site_leg(s[i], 1, ref[i], 1, false), (C + "physical").c_str());
			}
			needs(prop, same_site_leg(s.front(), 0, ref.front(), 0, false), (C + "edge").c_str());
			needs(prop, same_site_leg(s.back(), 2, ref.back(), 2, false), (C + "edge").c_str());
			if constexpr (block) need(prop, total_of(s) == total_of(ref), (C + "sector").c_str(), "the total quantum number changed");
		}
	}
	void outside(const Entry &e, const char *cls)
	{
		Quiet q;
		if (!mine("C15") || !block) return;
		auto v = vec(e.s).clone();
		v.index_fill_(0, e.mask, 0);
		need("C15", maxabs(v) == 0, cls, "amplitudes of " + fmtd(maxabs(v)) + " outside of the sector");
	}
	// basis states of a bond that are in use. truncation is documented to leave sections without any block.
	static at::Tensor used(const at::Tensor &t, int leg) { return torch::ones({t.size(leg)}, torch::kDouble); }
	static at::Tensor used(const btensor &t, int leg)
	{
		Quiet q;
		auto l = leg_of(t, leg);
		std::vector<char> in(l.sz.size(), 0);
		for (auto &kv : t.blocks()) in[kv.first[leg]] = 1;
		std::vector<at::Tensor> v;
		for (size_t k = 0; k < l.sz.size(); ++k) v.push_back(torch::full({l.sz[k]}, double(in[k]), torch::kDouble));
		return v.empty() ? torch::zeros({0}, torch::kDouble) : torch::cat(v);
	}
	static int64_t bond(const S &s, size_t i)
	{
		Quiet q;
		return (int64_t)(used(s[i], 2) * used(s[i + 1], 0)).sum().item().toDouble();
	}
	static double defect(const T &site, bool left)
	{
		Quiet q;
		auto w = wide_site(site).to(torch::kComplexDouble);
		auto m = left ? w.reshape({w.size(0) * w.size(1), w.size(2)}).t() : w.reshape({w.size(0), w.size(1) * w.size(2)});
		if (m.size(0) == 0) return 0;
		auto g = torch::matmul(m, m.conj().t());
		return maxabs(g - torch::diag(used(site, left ? 2 : 0)).to(g.scalar_type()));
	}
	void isometries(const S &s, const char *prop, const char *cls)
	{
		for (size_t i = 0; i < s.size(); ++i)
		{
			if (i == centre(s)) continue;
			bool left = i < centre(s);
			double d = defect(s[i], left);
			need(prop, d <= ntol() * 10, cls, "the centre is said to be at " + std::to_string(centre(s)) + " of " + std::to_string(s.size()) + " but site " + std::to_string(i) + " is not an isometry, defect " + fmtd(d));
		}
	}
	dmrg_options options(const Step &st, bool &lossless)
	{
		static const double CUT[] = {0, 0, 1e-13, 1e-6, 1e-3, 0.1};
		static const double CRIT[] = {0, 1e-12, 1e-8, 1e-5, 1e-3, 0.1};
		double cut = CUT[st.arg(3) % 6], crit = CRIT[(st.arg(3) / 7) % 6];
		size_t mb = st.arg(4) % 3 ? size_t(-1) : size_t(1 + (st.arg(4) / 3) % 6);
		size_t mn = std::min<size_t>(mb, 1 + (st.arg(4) / 31) % 4);
		size_t it = st.arg(5) % 9 == 8 ? (st.arg(5) / 9 % 2 ? 0 : 30) : 1 + st.arg(5) % 5;
		lossless = cut < 1e-10 && mb == size_t(-1);
		id += " cutoff " + fmtd(cut) + " criterion " + fmtd(crit) + " bonds " + std::to_string(mn) + ".." + (mb == size_t(-1) ? "max" : std::to_string(mb)) + " iterations " + std::to_string(it);
		return dmrg_options(cut, crit, mb, mn, it);
	}
	// everything that a completed run promises
	void completed(Entry &e, const S &before, bool canonical, std::pair<double, double> start, Ham &h, const dmrg_options &o, bool lossless, Log &log, double E, double Eim)
	{
		auto sw = log.sweeps();
		double t = tol(h);
		double slack = t + (lossless ? 0 : 4 * h.norm * o.cutoff);
		bool bounded = o.maximum_bond != size_t(-1);
		size_t M = o.maximum_iterations, n = sw.size();
		auto [Es, norm] = energy(e.s, h);
		auto gs = ground(h, e);
		std::string hist = " (sweeps " + es(sw) + ", returned " + fmtd(E) + ", state " + fmtd(Es) + ", start " + fmtd(start.first) + ", ground state " + fmtd(gs.first) + ", centre " + std::to_string(centre(before)) + " of " + std::to_string(e.s.size()) + ")";
		c.log(hist);
		// C08
		need("C08", std::isfinite(E) && std::abs(Eim) <= t, "energy", "the returned energy is " + fmtd(E) + " + i " + fmtd(Eim) + hist);
		if (n)
		{
			need("C08", std::abs(norm - 1) <= ntol() * 10, "norm", "the squared norm of the result is " + fmtd(norm) + hist);
			isometries(e.s, "C08", "canonical");
		}
		need("C08", centre(e.s) < e.s.size(), "centre", "centre outside of the chain");
		if (!bounded) need("C08", std::abs(E - Es) <= slack, "energy", "the returned energy differs from the state's by " + fmtd(E - Es) + hist);
		need("C08", E >= gs.first - slack, "variational", "the returned energy is below the ground state's by " + fmtd(gs.first - E) + hist);
		for (auto &x : sw)
		{
			need("C08", x.E >= gs.first - t, "variational", "a reported energy is below the ground state's by " + fmtd(gs.first - x.E) + hist);
			if (!bounded) need("C08", std::abs(x.E - x.Estate) <= slack, "sweep_energy", "a sweep's energy differs from the state's: " + fmtd(x.E) + ", " + fmtd(x.Estate) + hist);
		}
		if (lossless)
		{
			for (size_t k = 1; k < n; ++k) need("C08", sw[k].E <= sw[k - 1].E + t, "rise", "the energy rises by " + fmtd(sw[k].E - sw[k - 1].E) + " in sweep " + std::to_string(k) + hist);
			if (canonical && n) need("C08", sw[0].E <= start.first + t, "above_start", "the first sweep ends above the initial energy by " + fmtd(sw[0].E - start.first) + hist);
		}
		if (n)
			for (size_t i = 0; i + 1 < e.s.size() && bounded; ++i)
			{
				int64_t b = bond(e.s, i);
				if (b <= (int64_t)o.maximum_bond) continue;
				bool ok = false;
				if (block)
				{
					// a degenerate multiplet may be kept whole
					Quiet q;
					int64_t l = 1;
					for (size_t k = 0; k <= i; ++k) l *= e.s[k].sizes()[1];
					auto v = std::get<1>(torch::linalg_svd(vec(e.s).reshape({l, -1})));
					if (v.numel() >= b)
					{
						double x = v[b - 1].item().toDouble(), y = v[o.maximum_bond - 1].item().toDouble();
						// truncating another bond later on splits the values of a multiplet that was kept
						if (e.s.size() > 2) ok = y - x <= 0.5 * y || b <= 2 * (int64_t)o.maximum_bond;
						else ok = y - x <= (spec.dt == at::kFloat || spec.dt == at::kComplexFloat ? 2e-3 : 1e-6);
					}
				}
				need("C08", ok, "bond", "bond " + std::to_string(i) + " has dimension " + std::to_string(b) + hist);
			}
		// how it stopped
		auto met = [&](double a, double b, bool loose) {
			double d = std::abs(a - b), s = loose ? 1 + 1e-9 : 1 - 1e-9, ab = 1e-300 + (loose ? 1e-15 * (std::abs(a) + std::abs(b)) : -t);
			bool A = d <= o.convergence_criterion * s + ab, B = d <= (o.convergence_criterion * std::min(std::abs(a), std::abs(b))) * s + ab;
			bool B2 = d <= (o.convergence_criterion * std::max(std::abs(a), std::abs(b))) * s + ab;
			return loose ? A || B2 : A && B;
		};
		need("C08", n <= M, "stop", std::to_string(n) + " sweeps for a maximum of " + std::to_string(M) + hist);
		if (n < M)
		{
			c.probe("converged");
			need("C08", n >= 1 && (n >= 2 ? met(sw[n - 1].E, sw[n - 2].E, true) : met(sw[0].E, start.first, true)), "stop", "stopped although the energies had not converged" + hist);
		}
		for (size_t k = 1; k + 1 < n; ++k) need("C08", !met(sw[k].E, sw[k - 1].E, false), "stop", "went on after convergence in sweep " + std::to_string(k) + hist);
		// C10
		auto &ev = log.ev;
		need("C10", !ev.empty() && ev[0].kind == 'i', "init", "the logger was not initialised first");
		size_t ni = 0, ne = 0;
		for (auto &x : ev) ni += x.kind == 'i', ne += x.kind == 'e';
		need("C10", ni == 1, "init", "the logger was initialised " + std::to_string(ni) + " times");
		need("C10", ne == 1 && ev.back().kind == 'e', "end", "the end was reported " + std::to_string(ne) + " times" + hist);
		for (size_t k = 0; k < n; ++k)
		{
			need("C10", sw[k].step == k, "step", "sweep " + std::to_string(k) + " was reported as " + std::to_string(sw[k].step) + hist);
			if (!bounded) need("C10", std::abs(sw[k].E - sw[k].Estate) <= slack, "sweep_energy", "sweep " + std::to_string(k) + " reported with energy " + fmtd(sw[k].E) + " and a state of energy " + fmtd(sw[k].Estate) + hist);
			need("C10", std::abs(sw[k].norm - 1) <= ntol() * 10, "sweep_state", "sweep " + std::to_string(k) + " reported with a state of squared norm " + fmtd(sw[k].norm) + hist);
		}
		need("C10", log.bad.empty(), "sweep_state", log.bad);
		need("C10", ev.back().E == E, "end", "the end was reported with energy " + fmtd(ev.back().E) + hist);
		if (n) need("C10", E == sw[n - 1].E, "end", "the returned energy is not the last sweep's" + hist);
		need("C10", std::abs(ev.back().Estate - Es) <= t && std::abs(ev.back().norm - norm) <= ntol() * 10, "end", "the end was reported with another state" + hist);
		if (n) need("C10", ev.back().step == n - 1, "end", "the end was reported as step " + std::to_string(ev.back().step) + " although the last sweep was " + std::to_string(n - 1) + hist);
		clock(log, o, e.s);
		need("C10", log.sw.it_num == ev.back().step && log.si.it_num == ev.back().step, "it_num", "step numbers " + std::to_string(log.sw.it_num) + ", " + std::to_string(log.si.it_num) + " instead of " + std::to_string(ev.back().step));
		size_t mid = (size_t)std::max(e.s[e.s.size() / 2].sizes()[0], e.s[e.s.size() / 2].sizes()[2]);
		need("C10", log.sw.middle_bond_dim == mid && log.si.middle_bond_dim == mid, "bond", "final middle bond " + std::to_string(log.sw.middle_bond_dim) + ", " + std::to_string(log.si.middle_bond_dim) + " instead of " + std::to_string(mid));
	}
	void clock(Log &log, const dmrg_options &o, const S &)
	{
		if (!mine("C10")) return;
		auto sw = log.sweeps();
		need("C10", log.sw.time_list.size() == o.maximum_iterations && log.sw.bond_list.size() == o.maximum_iterations, "lists", "lists of length " + std::to_string(log.sw.time_list.size()) + " and " + std::to_string(log.sw.bond_list.size()) + " for " + std::to_string(o.maximum_iterations) + " sweeps");
		std::string all;
		for (auto x : log.dur) all += " " + fmtd(x);
		for (size_t k = 0; k < log.sw.time_list.size(); ++k)
		{
			double w = k < sw.size() ? log.dur[k] : 0, x = log.sw.time_list[k];
			need("C10", std::abs(x - w) <= 1e-9 * std::abs(w) + 1e-12, "time", "sweep " + std::to_string(k) + " is recorded with " + fmtd(x) + " s instead of " + fmtd(w) + " (sweeps took" + all + ")");
			size_t b = k < sw.size() ? sw[k].mid : 0;
			need("C10", log.sw.bond_list[k] == b, "bond", "sweep " + std::to_string(k) + " is recorded with a bond of " + std::to_string(log.sw.bond_list[k]) + " instead of " + std::to_string(b));
		}
	}

	// ---------------------------------------------------------------- operations
	struct Res { double E = 0, Eim = 0; };
	Res call(O &H, S &s, const dmrg_options &o, Log *log)
	{
		auto E = log ? quantit::dmrg(H, s, o, *log) : quantit::dmrg(H, s, o);
		Quiet q;
		c.note("energy", [&] { return bt::observe(E); });
		need("C08", E.dim() == 0, "energy", "the energy has rank " + std::to_string(E.dim()));
		return {number_of(E), imag_of(E)};
	}
	Log *logger = nullptr; // reused from run to run
	void run(const Step &st, Entry &e, size_t hi)
	{
		bool lossless;
		auto o = options(st, lossless);
		O &H = ops[hi];
		Ham &h = hams[hi];
		const S before = e.s;
		auto keepH = train_bits(H), keepS = train_bits(before);
		bool canonical = e.canonical;
		auto start = energy(e.s, h);
		double bound = canonical ? start.first : INFINITY; // energy that the state must not exceed from now on (lossless)
		Log mine_log(*this, 1);
		Log &log = st.arg(6) % 3 ? *logger : mine_log;
		log.slow = st.arg(6) % 4 == 3 ? 2 : st.arg(6) % 2;
		char fk = st.fk;
		i64 fn = st.fn;
		int tries = fk == '-' ? 0 : 1 + st.arg(7) % 3;
		u64 ls = st.arg(2);
		id += " on " + std::to_string(e.s.size()) + " sites, hamiltonian " + std::to_string(h.kind) + ", centre " + std::to_string(centre(e.s));
		for (int k = 0; k < tries; ++k)
		{
			long at = 0;
			{
				S tmp = e.s;
				O tH = H;
				Log l(*this, 1);
				l.reset(&h, ls);
				l.watch = false;
				KernelHook kh;
				Clock ck(l);
				Outcome oc = attempt('-', 0, [&] { call(tH, tmp, o, &l); });
				if (oc != Outcome::ok) break; // reported below
				at = fk == 'c' ? 1 + long(fn % i64(l.ev.size())) : fault_at(fn, event_counts().of(fk));
			}
			if (at <= 0) break;
			if (st.arg(7) % 4 == 0)
			{
				long lt = live_tensors(), leak;
				{
					S tmp = e.s;
					O tH = H;
					Log l(*this, 1);
					l.reset(&h, ls);
					l.watch = false;
					l.ev.reserve(64), l.dur.reserve(64);
					if (fk == 'c') l.fail_at = at - 1;
					track_begin();
					{
						KernelHook kh;
						Clock ck(l);
						attempt(fk == 'c' ? '-' : fk, at, [&] { call(tH, tmp, o, &l); });
					}
				}
				leak = track_end();
				need("C09", leak <= 0 && live_tensors() <= lt, "leak", std::to_string(leak) + " allocations and " + std::to_string(live_tensors() - lt) + " tensors remain after a failure " + std::string(1, fk) + " at " + std::to_string(at));
			}
			log.reset(&h, ls);
			if (fk == 'c') log.fail_at = at - 1;
			S was = e.s;
			Outcome oc;
			std::string what;
			Res res;
			{
				KernelHook kh;
				Clock ck(log);
				oc = attempt(fk == 'c' ? '-' : fk, at, [&] { res = call(H, e.s, o, &log); }, &what);
			}
			bool ours = what.find("[simulated fault]") != std::string::npos;
			if (fk == 'c' && oc == Outcome::other && ours) oc = Outcome::injected;
			need("C09", oc != Outcome::other, "spurious", "an exception without an injected failure: " + what);
			if (fk == 'c') need("C09", oc == Outcome::injected, "swallowed", "the failure of a callback did not reach the caller");
			id += " (interrupted by " + std::string(1, fk) + " at " + std::to_string(at) + (oc == Outcome::ok ? ", survived" : "") + ")";
			auto sw = log.sweeps();
			c.log("interrupted after " + std::to_string(sw.size()) + " sweeps");
			need("C09", train_bits(H) == keepH, "hamiltonian", "the Hamiltonian changed");
			need("C15", train_bits(before) == keepS, "copy", "a copy of the state changed");
			inspect(e.s, before, "interrupted_");
			outside(e, "interrupted_outside");
			auto [E, norm] = energy(e.s, h);
			need("C09", std::isfinite(norm) && norm > 1e-12, "interrupted_norm", "the state has squared norm " + fmtd(norm));
			if (canonical) isometries(e.s, "C09", "interrupted_canonical");
			if (oc == Outcome::injected)
			{
				c.probe(std::string("fault.") + (fk == 'n' ? "allocation" : fk == 't' ? "tensor" : fk == 'c' ? "callback" : "kernel"));
				if (log.ev.empty() && fk != 'c') c.probe("stopped_before_the_first_sweep");
				else if (sw.empty()) c.probe("stopped_in_the_first_sweep");
				else c.probe("stopped_after_a_sweep");
				if (!log.ev.empty())
				{
					need("C10", log.ev[0].kind == 'i', "init", "the logger was not initialised first");
					for (size_t z = 0; z < sw.size(); ++z) need("C10", sw[z].step == z, "step", "sweep " + std::to_string(z) + " was reported as " + std::to_string(sw[z].step));
					for (size_t z = 1; z < log.ev.size(); ++z) need("C10", log.ev[z].kind != 'i' && (log.ev[z].kind != 'e' || z + 1 == log.ev.size()), "init", "callbacks out of order");
				}
			}
			if (lossless)
			{
				if (!sw.empty()) bound = std::min(bound, sw.back().E);
				if (std::isfinite(bound)) need("C09", E <= bound + tol(h), "interrupted_energy", "the state has energy " + fmtd(E) + " after energies " + es(sw) + " (start " + fmtd(start.first) + ")");
			}
			if (oc == Outcome::injected && !canonical && sw.empty()) { e.broken = true; }
			if (!sw.empty()) canonical = e.canonical = true;
			if (!canonical) bound = INFINITY;
			fn = (fn * 7919 + 13) % 1000000;
			ls = mix64(ls);
			if (st.arg(8) % 4 == 0) { ++done; return; } // left as it is
		}
		// undisturbed
		auto s0 = energy(e.s, h);
		S was = e.s;
		log.reset(&h, ls);
		std::string what;
		Res res;
		Outcome oc;
		{
			Clock ck(log);
			oc = attempt('-', 0, [&] { res = call(H, e.s, o, &log); }, &what);
		}
		for (auto pr : {"C08", "C09", "C10", "C15"}) need(pr, oc == Outcome::ok, "exception", "unexpected exception: " + what);
		if (oc != Outcome::ok) throw 0;
		for (auto pr : {"C08", "C09"}) need(pr, train_bits(H) == keepH, "hamiltonian", "the Hamiltonian changed");
		need("C15", train_bits(before) == keepS, "copy", "a copy of the state changed");
		inspect(e.s, before, "");
		outside(e, "outside");
		completed(e, was, canonical, s0, h, o, lossless, log, res.E, res.Eim);
		if (tries && lossless && std::isfinite(bound)) { c.probe("resumed"); need("C09", res.E <= bound + tol(h), "resumed_energy", "the resumed run ends at " + fmtd(res.E) + ", above " + fmtd(bound) + " reported before"); }
		if (log.sweeps().size()) e.canonical = true;
		c.sim_seconds += double(g_now_ns) * 1e-9;
		++done;
		// a run is a function of its arguments: the same without a logger
		if (st.arg(8) % 5 == 1)
		{
			S twin = was;
			Res r2 = call(H, twin, o, nullptr);
			for (auto pr : {"C08", "C10"}) need(pr, r2.E == res.E, "twin", "without the logger the energy is " + fmtd(r2.E) + " instead of " + fmtd(res.E));
		}
	}
	// the entry points that start from a random state
	void fromscratch(const Step &st, Entry &e, size_t hi)
	{
		bool lossless;
		auto o = options(st, lossless);
		O &H = ops[hi];
		Ham &h = hams[hi];
		auto keepH = train_bits(H);
		Log log(*this, 1);
		log.reset(&h, st.arg(2));
		torch::manual_seed(st.arg(2));
		u64 es_ = mix64(st.arg(2));
		g_entropy = [&es_] { return unsigned((es_ = mix64(es_)) >> 32); };
		struct Undo { ~Undo() { g_entropy = nullptr; } } undo;
		std::string what;
		Outcome oc;
		double E = 0, Eim = 0;
		S s;
		{
			Clock ck(log);
			oc = attempt('-', 0, [&] {
				if constexpr (block)
				{
					auto q = spec.g.lib(spec.g.zero());
					// a sector that can be reached from neutral edges
					Charge t = spec.g.zero();
					for (size_t i = 0; i < spec.L(); ++i) t = spec.g.add(t, spec.pq[i][st.arg(8 + 0) / (1 + i) % spec.pq[i].size()]);
					auto [x, y] = quantit::dmrg(H, spec.g.lib(t), o, log);
					E = number_of(x), Eim = imag_of(x), s = y;
				}
				else
				{
					auto [x, y] = quantit::dmrg(H, o, log);
					E = number_of(x), Eim = imag_of(x), s = y;
				}
			}, &what);
		}
		if (oc != Outcome::ok)
		{
			// the random state may not exist
			for (auto pr : {"C08", "C15"}) need(pr, block && what.find("[simulated") == std::string::npos && train_bits(H) == keepH, "exception", "unexpected exception: " + what);
			c.probe("no_random_state");
			c.log("refused: " + what);
			return;
		}
		need("C08", train_bits(H) == keepH, "hamiltonian", "the Hamiltonian changed");
		Entry n;
		n.s = s;
		for (auto pr : {"C08", "C15"})
		{
			needs(pr, train_sound(s, 3), "structure");
			need(pr, s.size() == spec.L(), "structure", "length");
			for (size_t i = 0; i < s.size(); ++i)
			{
				need(pr, site_type(s[i]) == spec.dt, "dtype", "a state of another element type than the Hamiltonian's");
				need(pr, s[i].sizes()[1] == e.s[i].sizes()[1], "physical", "physical dimension");
			}
		}
		if (o.maximum_iterations == 0) return;
		sector_of(n);
		outside(n, "outside");
		completed(n, s, false, {INFINITY, 1}, h, o, lossless, log, E, Eim);
		n.canonical = true;
		bool same = true;
		for (size_t i = 0; i < s.size(); ++i) same = same && same_site_leg(s[i], 1, e.s[i], 1, false).empty();
		if (same && same_site_leg(s.front(), 0, e.s.front(), 0, false).empty() && same_site_leg(s.back(), 2, e.s.back(), 2, false).empty()) e = n;
		++done;
	}
	void refused(const Step &st, Entry &e, size_t hi)
	{
		O H = ops[hi];
		S s = e.s;
		dmrg_options o(1e-8, 1e-5, size_t(-1), 1, 3);
		int how = (int)(st.arg(3) % 5);
		id += " " + std::to_string(how);
		if (how == 0) s = S(e.s.begin(), e.s.end() - 1);
		else if (how == 1) { auto v = std::vector<T>(e.s.begin(), e.s.end() - 1); H = O(std::vector<T>(ops[hi].begin(), ops[hi].end() - 1)); }
		else if (how == 2)
		{
			// a chain of one site
			Quiet q;
			s = S(e.s.begin(), e.s.begin() + 1);
			H = O(std::vector<T>(ops[hi].begin(), ops[hi].begin() + 1));
		}
		else if (how == 3) { s = S(); H = O(); }
		else
		{
			// nothing to optimise
			for (auto &t : s) t = t.mul(at::Scalar(0.));
		}
		auto ks = train_bits(s), kh = train_bits(H);
		size_t oc0 = s.size() ? centre(s) : 0;
		bool thrown = false, right = false;
		std::string what;
		try { quantit::dmrg(H, s, o); }
		catch (std::invalid_argument &x) { thrown = right = true; }
		catch (std::exception &x) { thrown = true; what = x.what(); }
		need("C08", thrown, "accepted", "a run that cannot be done was accepted");
		need("C08", right, "error_type", "not reported as an invalid argument: " + what);
		need("C08", train_bits(s) == ks && train_bits(H) == kh && (s.empty() || centre(s) == oc0), "refused_changed", "a refused run changed its arguments");
	}
	void main()
	{
		Group g;
		g.kind = (int)p.get("group");
		static const at::ScalarType TT[] = {at::kDouble, at::kComplexDouble, at::kFloat, at::kComplexFloat};
		auto dt = TT[p.get("dtype") % 4];
		default_type(p.get("ddt") ? at::kFloat : at::kDouble);
		Rng r(p.get("init"));
		int kind = (int)p.get("ham");
		bool ok = false;
		for (int tr = 0; tr < 20 && !ok; ++tr)
		{
			pool.clear(), ops.clear(), hams.clear();
			int L = (int)p.get("L");
			spec = random_chain(r, g, dt, block, L, kind == 2 || r.chance(0.5), false);
			if (kind == 2)
				for (size_t i = 0; i < spec.L(); ++i)
				{
					spec.psz[i] = block ? IL{1, 1} : IL{p.get("electrons") ? 4 : 2};
					if (block && spec.pq[i].size() < 2) spec.pq[i] = {g.random(r), g.random(r)};
					if (block) spec.pq[i] = {spec.pq[0][0], spec.pq[0][1]};
					else spec.pq[i] = {spec.pq[0][0]};
				}
			int64_t n = 1;
			size_t keep = 0;
			for (auto &s : spec.psz)
			{
				int64_t d = std::accumulate(s.begin(), s.end(), int64_t(0));
				if (n * d > 130) break;
				n *= d;
				++keep;
			}
			if (keep < 2) continue;
			spec.psz.resize(keep), spec.pq.resize(keep);
			total = g.add(spec.lq[0], spec.rq[0]);
			for (auto &q : spec.pq) total = g.add(total, q[r.below((i64)q.size())]);
			for (int k = 0; k < 2; ++k)
				if (!make_ham(r, k == 0 ? kind : (int)r.below(2)) && !make_ham(r, 0)) {}
			ok = ops.size() == 2;
			for (int k = 0; k < 2 && ok; ++k)
			{
				Entry e;
				ok = make_state(r, e);
				pool.push_back(e);
			}
		}
		if (!ok) { c.probe("no_system"); return; }
		c.probe(std::string("ham") + char('0' + hams[0].kind));
		Log lg(*this, 3);
		logger = &lg;
		try
		{
			for (auto &st : p.steps)
			{
				set_label(st.op);
				id = st.op;
				auto &n = st.op;
				c.probe("op." + n);
				Rng rr(u64(st.arg(2)) * 31 + 7);
				auto &e = pool[st.arg(0) % pool.size()];
				auto &f = pool[(st.arg(0) + 1) % pool.size()];
				size_t hi = st.arg(1) % ops.size();
				u64 kf = train_bits(f.s);
				bool touch = false;
				if (n == "run") run(st, e, hi);
				else if (n == "scratch") fromscratch(st, e, hi);
				else if (n == "refused") refused(st, e, hi);
				else if (n == "move")
				{
					auto before = e.s;
					int to = (int)(st.arg(3) % e.s.size());
					if (st.fk != '-' && st.fk != 'c')
					{
						KernelHook kh;
						auto oc = attempt(st.fk, 1 + st.fn % 60, [&] { e.s.move_oc(to); });
						id += oc == Outcome::ok ? "" : " (interrupted)";
						if (oc == Outcome::injected) c.probe("interrupted_move");
						need("C15", oc != Outcome::other, "exception", "unexpected exception");
					}
					else e.s.move_oc(to);
					inspect(e.s, before, "moved_");
					outside(e, "moved_outside");
				}
				else if (n == "scale")
				{
					static const double X[] = {2, 0.5, -1, 1e-3, 37};
					double x = X[st.arg(3) % 5];
					auto before = e.s;
					auto &t = e.s[centre(e.s)];
					if (st.arg(4) % 2) t = t.mul(at::Scalar(x));
					else { t = t.mul(at::Scalar(1.)); t.mul_(at::Scalar(x)); }
					inspect(e.s, before, "scaled_");
					outside(e, "scaled_outside");
				}
				else if (n == "copy") { f = e; touch = true; }
				else if (n == "new") { Entry x; if (make_state(rr, x)) e = x; }
				if (!touch) for (auto pr : {"C15"}) need(pr, train_bits(f.s) == kf, "other", "another state changed");
				c.log("after " + id + " " + std::to_string(train_bits(e.s)));
				for (auto &x : pool) c.note(id + " state", [&] { u64 h = centre(x.s); for (auto &t : x.s) h = mix64(h ^ bt::observe(t)); return h; });
			}
		}
		catch (int) { c.probe("stopped_early"); } // something another property is about
		if (done >= 1) c.probe("nontrivial");
	}
};
void run_dmrg(const Plan &p, Ctx &c)
{
	if (p.get("block")) { Runner<bMPS> r(p, c); r.main(); }
	else { Runner<MPS> r(p, c); r.main(); }
}
template <int prop>
void gen_dmrg(Rng &r, Plan &p, bool thorough)
{
	p.cfg["block"] = prop == 15 ? 1 : r.chance(0.55);
	p.cfg["group"] = r.chance(0.35) ? 0 : r.range(0, 5);
	p.cfg["dtype"] = r.chance(0.5) ? 0 : r.range(0, 3);
	p.cfg["ddt"] = r.chance(0.25);
	p.cfg["L"] = r.chance(0.2) ? 2 : r.range(3, thorough ? 7 : 5);
	p.cfg["ham"] = r.chance(0.55) ? 0 : r.range(1, 2);
	p.cfg["electrons"] = r.chance(0.2);
	p.cfg["init"] = r.below(1000000000);
	int n = (int)r.range(2, thorough ? 8 : 4);
	for (int k = 0; k < n; ++k)
	{
		Step s;
		double x = r.unit();
		s.op = x < 0.6 ? "run" : x < (prop == 10 ? 0.64 : 0.68) ? "scratch" : x < 0.8 ? "move" : x < 0.88 ? "scale" : x < 0.92 ? "copy" : x < 0.97 ? "new" : prop == 8 ? "refused" : "run";
		for (int z = 0; z < 9; ++z) s.a.push_back(r.below(1000000));
		double pf = prop == 9 ? 0.9 : prop == 15 ? 0.5 : prop == 10 ? 0.25 : 0.1;
		if (r.chance(pf))
		{
			s.fk = "cnto"[r.below(4)];
			s.fn = r.below(1000000);
		}
		p.steps.push_back(s);
	}
}
#define REALS "dmrg (both versions), its environments, two-site updates, svd, contractions, move_oc, loggers and every btensor operation they use, compiled from /repo; libtorch kernels and LAPACK"
#define STUBS "the steady clock (simulated), libtorch's CPU memory allocator (simulated), operator new of library code (failing), kernel dispatch (a hook that may throw before a kernel), std::random_device"
Register r8({"C08", gen_dmrg<8>, run_dmrg, 2000, 60000, REALS, STUBS, "one evaluation is one simulated run (one plan: Hamiltonians and states on one chain, a history of dmrg runs with changing options, centre moves and rescalings); distinct_nontrivial counts distinct execution hashes among runs in which at least one dmrg run completed"});
Register r9({"C09", gen_dmrg<9>, run_dmrg, 1500, 50000, REALS, STUBS, "one evaluation is one simulated run (one plan: a history of dmrg runs interrupted at chosen callbacks, allocations or kernels, abandoned or resumed); distinct_nontrivial counts distinct execution hashes among runs in which at least one interrupted run was judged"});
Register r10({"C10", gen_dmrg<10>, run_dmrg, 1500, 50000, REALS, STUBS, "one evaluation is one simulated run (one plan: a history of dmrg runs observed by the library's loggers on a simulated clock that stalls and jumps); distinct_nontrivial counts distinct execution hashes among runs in which at least one dmrg run was judged"});
Register r15({"C15", gen_dmrg<15>, run_dmrg, 1500, 50000, REALS, STUBS, "one evaluation is one simulated run (one plan: a history of moves, rescalings, copies and dmrg runs with interruptions on block states); distinct_nontrivial counts distinct execution hashes among runs in which at least one dmrg run was judged"});
} // namespace

