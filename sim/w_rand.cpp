// C13: random states honour their seed, shape and symmetry sector.
#include "mpsmodel.h"
using namespace bt;
namespace
{
const at::ScalarType DT[] = {at::kDouble, at::kFloat, at::kComplexDouble, at::kComplexFloat};
struct Runner
{
	const Plan &p;
	Ctx &c;
	std::string id;
	Group g;
	int done = 0;
	Runner(const Plan &p_, Ctx &c_) : p(p_), c(c_) {}
	void need(bool ok, const char *cls, const std::string &m) { if (!ok) c.fail(std::string("C13:") + cls, id + ": " + m); }
	void needs(const std::string &m, const char *cls) { need(m.empty(), cls, m); }

	// ---- what is asked for
	struct Ask
	{
		bool block = true;
		int how = 0; // 0: one physical space for all sites, 1: a list, 2: an operator
		size_t L = 1, bond = 1;
		std::vector<IL> sz;
		std::vector<std::vector<Charge>> q;
		Charge total;
		unsigned seed = 0;
		bool seeded = true, alias = false;
		bool typed = true, grad = false;
		at::ScalarType dt = at::kDouble;
		// built objects
		std::vector<btensor> phys;
		std::vector<int64_t> dims;
		bMPO bop;
		MPO op;
		any_quantity qn;
	};
	torch::TensorOptions opts(const Ask &a)
	{
		torch::TensorOptions o;
		if (a.typed) o = o.dtype(a.dt);
		if (a.grad) o = o.requires_grad(true);
		return o;
	}
	btensor phys_of(Rng &r, const IL &sz, const std::vector<Charge> &q, at::ScalarType dt, bool odd)
	{
		MT m;
		m.g = g;
		m.sz = {sz};
		m.q = {q};
		m.rule = odd ? g.random(r) : g.zero();
		return r.chance(0.5) ? random_fill(r, m, dt, 1) : btensor(m.spec(), g.lib(m.rule), torch::TensorOptions().dtype(dt));
	}
	Ask make(Rng &r, const Step &st)
	{
		Quiet quiet;
		Ask a;
		a.block = p.get("block");
		a.how = st.arg(0) % 3;
		a.L = r.chance(0.12) ? 1 : r.chance(0.05) ? r.range(10, 30) : r.range(2, 7);
		a.bond = r.chance(0.2) ? 1 : r.range(2, r.chance(0.1) ? 20 : 6);
		a.seed = r.chance(0.1) ? 0 : r.chance(0.1) ? 0xffffffffu : unsigned(r.next());
		a.seeded = st.arg(1) % 4 != 0;
		a.alias = st.arg(2) % 2;
		a.dt = DT[r.below(4)];
		a.typed = st.arg(3) % 4 != 0 || p.get("typed");
		a.grad = st.arg(4) % 12 == 0;
		bool uniform = a.how == 0 || r.chance(0.4);
		int style = (int)r.below(3); // 0: anything, 1: a ladder, 2: same ladder, several orders
		int step = (int)r.range(1, 2);
		for (size_t i = 0; i < a.L; ++i)
		{
			if (uniform && i) { a.sz.push_back(a.sz[0]); a.q.push_back(a.q[0]); continue; }
			int ns = (int)r.range(1, 4);
			IL s;
			std::vector<Charge> q;
			int base = (int)r.range(-2, 1) * step;
			for (int k = 0; k < ns; ++k)
			{
				s.push_back(r.chance(0.7) ? 1 : r.range(1, 3));
				q.push_back(style && g.kind == 0 ? Charge{base + k * step} : g.random(r, r.chance(0.8) ? 1 : 3));
			}
			if (style == 2) for (size_t k = q.size(); k > 1; --k) std::swap(q[k - 1], q[r.below(k)]);
			a.sz.push_back(s);
			a.q.push_back(q);
		}
		a.total = g.zero();
		for (auto &q : a.q) a.total = g.add(a.total, q[r.below((i64)q.size())]);
		if (r.chance(0.15)) a.total = g.add(a.total, g.random(r, 5));
		a.qn = g.lib(a.total);
		auto pdt = r.chance(0.7) ? a.dt : DT[r.below(4)];
		if (!a.block)
		{
			for (auto &s : a.sz) a.dims.push_back(s[0] + (i64)s.size() - 1);
			ChainSpec cs;
			cs.g = g;
			cs.dt = a.dt;
			for (auto d : a.dims) cs.psz.push_back({d});
			cs.pq = a.q;
			if (a.how == 2) a.op = random_dense_op(r, cs, 3);
		}
		else
		{
			bool odd = st.arg(5) % 8 == 0;
			for (size_t i = 0; i < a.L; ++i) a.phys.push_back(uniform && i ? a.phys[0] : phys_of(r, a.sz[i], a.q[i], pdt, odd));
			if (a.how == 2)
			{
				ChainSpec cs;
				cs.g = g;
				cs.dt = a.dt;
				cs.block = true;
				cs.psz = a.sz;
				cs.pq = a.q;
				a.bop = random_block_op(r, cs, 3, 2, 1);
			}
		}
		return a;
	}
	// ---- which totals exist, and whether the search is bound to find them
	bool reachable(const Ask &a)
	{
		std::set<Charge> s{g.zero()};
		for (auto &q : a.q)
		{
			std::set<Charge> n;
			for (auto &x : s)
				for (auto &y : q) n.insert(g.add(x, y));
			s = n;
		}
		return s.count(g.norm(a.total));
	}
	bool easy(const Ask &a)
	{
		for (auto &q : a.q)
			if (q != a.q[0]) return false;
		if (g.kind == 1) return true;
		if (g.kind != 0) return false;
		std::set<int> s;
		for (auto &x : a.q[0]) s.insert(x[0]);
		if (s.size() < 2) return true;
		int st = *std::next(s.begin()) - *s.begin(), prev = *s.begin() - st;
		for (int x : s)
		{
			if (x - prev != st) return false;
			prev = x;
		}
		return true;
	}
	bMPS call_block(const Ask &a, const torch::TensorOptions &o)
	{
		using namespace quantit;
		if (!a.seeded)
		{
			if (a.how == 0) return a.alias ? random_MPS(a.L, a.bond, a.phys[0], a.qn, o) : random_bMPS(a.L, a.bond, a.phys[0], a.qn, o);
			if (a.how == 1) return a.alias ? random_MPS(a.bond, a.phys, a.qn, o) : random_bMPS(a.bond, a.phys, a.qn, o);
			return a.alias ? random_MPS(a.bond, a.bop, a.qn, o) : random_bMPS(a.bond, a.bop, a.qn, o);
		}
		if (a.how == 0) return a.alias ? random_MPS(a.L, a.bond, a.phys[0], a.qn, o, a.seed) : random_bMPS(a.L, a.bond, a.phys[0], a.qn, o, a.seed);
		if (a.how == 1) return a.alias ? random_MPS(a.bond, a.phys, a.qn, o, a.seed) : random_bMPS(a.bond, a.phys, a.qn, o, a.seed);
		return a.alias ? random_MPS(a.bond, a.bop, a.qn, o, a.seed) : random_bMPS(a.bond, a.bop, a.qn, o, a.seed);
	}
	MPS call_dense(const Ask &a, const torch::TensorOptions &o)
	{
		using namespace quantit;
		if (a.how == 0) return random_MPS(a.L, a.bond, (size_t)a.dims[0], o);
		if (a.how == 1) return random_MPS(a.bond, a.dims, o);
		return random_MPS(a.bond, a.op, o);
	}
	// norm, without ever building the whole vector
	template <class S>
	double norm2(const S &s)
	{
		Quiet q;
		at::Tensor e;
		for (auto &t : sites_of(s))
		{
			auto w = t.to(torch::kComplexDouble);
			if (!e.defined()) e = torch::eye(w.size(0), w.options());
			e = torch::tensordot(torch::tensordot(e, w, {0}, {0}), w.conj(), {0, 1}, {0, 1});
		}
		return torch::real(e.diagonal(0, 0, 1).sum()).item().toDouble();
	}
	u64 args_bits(const Ask &a)
	{
		u64 h = 1;
		for (auto &x : a.phys) h = mix64(h ^ bits(x));
		h = mix64(h ^ train_bits(a.op)), h = mix64(h ^ train_bits(a.bop));
		for (auto d : a.dims) h = mix64(h ^ u64(d));
		return h;
	}
	void inspect(const Ask &a, const bMPS &s)
	{
		Quiet quiet;
		need(s.size() == a.L, "length", "the state has " + std::to_string(s.size()) + " sites instead of " + std::to_string(a.L));
		needs(train_sound(s, 3), "structure");
		auto neutral = g.lib(g.zero());
		for (size_t i = 0; i < a.L; ++i)
		{
			auto l = leg_of(s[i], 1);
			need(l.sz == a.sz[i], "physical", "site " + std::to_string(i) + " has physical sections " + str(l.sz) + " instead of " + str(a.sz[i]));
			for (size_t k = 0; k < l.q.size(); ++k) need(l.q[k] == g.lib(a.q[i][k]), "physical", "site " + std::to_string(i) + " has the wrong quantity on section " + std::to_string(k));
			for (int e : {0, 2})
			{
				auto b = leg_of(s[i], e);
				int64_t d = std::accumulate(b.sz.begin(), b.sz.end(), int64_t(0));
				bool edge = (e == 0 && i == 0) || (e == 2 && i + 1 == a.L);
				need(d == (edge ? 1 : (int64_t)a.bond), "bond", std::string(edge ? "edge" : "bond") + " of site " + std::to_string(i) + " has dimension " + std::to_string(d) + " for a requested bond dimension of " + std::to_string(a.bond));
				if (edge) for (auto &x : b.q) need(x == neutral, "edge", "an edge carries a quantity");
			}
			if (a.typed) need(site_type(s[i]) == a.dt, "dtype", "site " + std::to_string(i) + " does not have the element type asked for");
			if (a.how == 2 && !a.typed) need(site_type(s[i]) == a.dt, "dtype", "site " + std::to_string(i) + " does not have the element type of the operator");
			need(site_type(s[i]) == site_type(s[0]), "dtype", "sites of several element types");
			for (auto &kv : s[i].blocks()) need(kv.second.scalar_type() == site_type(s[i]), "dtype", "a block of another element type");
			need(!s[i].blocks().empty() || s[i].begin() != s[i].end(), "empty", "site " + std::to_string(i) + " has no block");
		}
		need(total_of(s) == a.qn, "sector", "the state is not in the sector asked for");
		need(s.orthogonality_center < a.L, "centre", "centre outside of the chain");
		double n = norm2(s);
		need(n > 0 && std::isfinite(n), "zero", "the state has norm squared " + fmtd(n));
	}
	void inspect(const Ask &a, const MPS &s)
	{
		Quiet quiet;
		need(s.size() == a.L, "length", "the state has " + std::to_string(s.size()) + " sites instead of " + std::to_string(a.L));
		needs(train_sound(s, 3), "structure");
		for (size_t i = 0; i < a.L; ++i)
		{
			need(s[i].size(1) == a.dims[i], "physical", "site " + std::to_string(i) + " has physical dimension " + std::to_string(s[i].size(1)) + " instead of " + std::to_string(a.dims[i]));
			need(s[i].size(0) == (i ? (int64_t)a.bond : 1) && s[i].size(2) == (i + 1 < a.L ? (int64_t)a.bond : 1), "bond", "site " + std::to_string(i) + " is " + str(s[i].sizes().vec()) + " for a requested bond dimension of " + std::to_string(a.bond));
			if (a.typed) need(s[i].scalar_type() == a.dt, "dtype", "site " + std::to_string(i) + " does not have the element type asked for");
		}
		need(s.orthogonality_center < a.L, "centre", "centre outside of the chain");
		double n = norm2(s);
		need(n > 0 && std::isfinite(n), "zero", "the state has norm squared " + fmtd(n));
	}
	std::string same_shape(const bMPS &x, const bMPS &y)
	{
		Quiet quiet;
		if (x.size() != y.size()) return "lengths differ";
		for (size_t i = 0; i < x.size(); ++i)
		{
			for (size_t d = 0; d < 3; ++d)
			{
				auto e = same_leg(leg_of(x[i], d), leg_of(y[i], d), false);
				if (!e.empty()) return "site " + std::to_string(i) + " dimension " + std::to_string(d) + ": " + e;
			}
			if (any_quantity(static_cast<const quantit::vquantity &>(x[i].selection_rule)) != any_quantity(static_cast<const quantit::vquantity &>(y[i].selection_rule))) return "site " + std::to_string(i) + ": selection rules differ";
			auto p0 = x[i].blocks().begin(), p1 = y[i].blocks().begin();
			for (; p0 != x[i].blocks().end() && p1 != y[i].blocks().end(); ++p0, ++p1)
				if (p0->first != p1->first) return "site " + std::to_string(i) + ": other blocks";
			if (p0 != x[i].blocks().end() || p1 != y[i].blocks().end()) return "site " + std::to_string(i) + ": other blocks";
		}
		return "";
	}
	// another world: memory, clock, entropy, libtorch's generator and default type
	void ambient(Rng &r)
	{
		set_fill(r.chance(0.3) ? 256 : (int)r.below(256), r.chance(0.3) ? 256 : (int)r.below(256));
		g_now_ns += r.range(0, 1000000000000);
		u64 s = r.next();
		int mode = (int)r.below(3);
		g_entropy = [s, mode, n = u64(0)]() mutable { return mode == 0 ? unsigned(s) : mode == 1 ? 0u : unsigned(mix64(s + ++n)); };
		if (r.chance(0.5)) torch::manual_seed(r.next());
	}
	bool may_refuse(const Ask &a, std::string &why)
	{
		bool re = reachable(a);
		if (!re) { c.probe("unreachable"); return true; }
		if (!easy(a)) return true;
		why = "the requested quantity is reachable from every starting point";
		return false;
	}
	template <class S, class F>
	void generate(const Step &st, Rng &r, Ask &a, F &&call)
	{
		auto o = opts(a);
		auto kb = args_bits(a);
		std::string why;
		bool refuse = a.block && may_refuse(a, why);
		id += std::string(a.block ? " block" : " dense") + " how " + std::to_string(a.how) + " L " + std::to_string(a.L) + " bond " + std::to_string(a.bond) + " total " + str(a.total) + (a.typed ? "" : " untyped") + (a.grad ? " grad" : "");
		long lt0 = live_tensors();
		// a failing source of entropy: an exception and nothing else
		if (!a.seeded && a.block && st.arg(6) % 3 == 0)
		{
			g_entropy = []() -> unsigned { throw std::runtime_error("no entropy"); };
			S s;
			long reads = g_entropy_reads;
			auto oc = attempt('-', 0, [&] { s = call(a, o); });
			if (g_entropy_reads > reads) { need(oc != Outcome::ok, "entropy", "the failing source of entropy was ignored"); c.probe("fault.entropy"); }
			need(args_bits(a) == kb, "arguments", "a failed generation changed its arguments");
			ambient(r);
		}
		long events = 0;
		S s;
		std::string what;
		Outcome oc;
		{
			KernelHook kh;
			oc = attempt('-', 0, [&] { s = call(a, o); }, &what);
			events = event_counts().of(st.fk == '-' ? 'n' : st.fk);
		}
		need(args_bits(a) == kb, "arguments", "the arguments changed");
		if (oc != Outcome::ok)
		{
			need(refuse, "refused", "refused (" + what + ") although " + (a.block ? why : "nothing is wrong"));
			c.probe(reachable(a) ? "search_gave_up" : "refused_unreachable");
			long leak;
			long lt = live_tensors();
			track_begin();
			attempt('-', 0, [&] { S x = call(a, o); });
			leak = track_end();
			need(leak <= 0 && live_tensors() <= lt, "leak", std::to_string(leak) + " allocations remain after a refusal");
			++done;
			return;
		}
		if (a.block) need(reachable(a), "impossible", "a state was made although the requested quantity is out of reach");
		inspect(a, s);
		c.note(id + " state", [&] { u64 h = s.orthogonality_center; for (auto &t : s) h = mix64(h ^ bt::observe(t)); return h; });
		c.probe("made");
		++done;
		// contraction with the operator it was made for
		if (a.how == 2 && (a.typed || a.block) && !a.grad)
		{
			auto oc2 = attempt('-', 0, [&] { if constexpr (std::is_same_v<S, bMPS>) contract(s, s, a.bop); else contract(s, s, a.op); }, &what);
			need(oc2 == Outcome::ok, "fits", "the state does not fit the operator it was made for: " + what);
		}
		// other surroundings, other history, same state
		if constexpr (std::is_same_v<S, bMPS>)
			if (a.seeded)
			{
				ambient(r);
				int n = (int)r.below(3);
				for (int k = 0; k < n; ++k)
				{
					Step dummy = st;
					dummy.a[0] = r.below(3);
					Ask b = make(r, dummy);
					attempt('-', 0, [&] { call(b, opts(b)); });
				}
				ambient(r);
				S t;
				oc = attempt('-', 0, [&] { t = call(a, o); }, &what);
				need(oc == Outcome::ok, "repeat", "a second call was refused: " + what);
				needs(same_shape(s, t), "repeat");
				inspect(a, t);
				c.probe("repeated");
				if (st.arg(7) % 3 == 0) // with other threads
				{
					int nt = (int)r.range(2, 3);
					std::vector<S> out(nt);
					std::vector<std::string> err(nt);
					std::vector<std::function<void()>> tasks;
					for (int k = 0; k < nt; ++k) tasks.push_back([&, k] {
						KernelHook kh;
						try { out[k] = call(a, o); }
						catch (std::exception &e) { err[k] = e.what(); if (err[k].empty()) err[k] = "?"; }
					});
					std::vector<std::pair<i64, i64>> sched;
					i64 at = 0, gap = r.chance(0.5) ? 40 : 3000;
					for (int k = 0; k < 40; ++k) sched.push_back({at += r.range(1, gap), r.below(nt)});
					auto res = run_tasks(tasks, p.sched.empty() ? sched : p.sched, r.below(nt));
					c.probe("threads");
					c.probe("switches", res.switches);
					c.fold(res.trace_hash);
					for (int k = 0; k < nt; ++k)
					{
						need(err[k].empty(), "threads", "refused in a thread: " + err[k]);
						needs(same_shape(s, out[k]), "threads");
						inspect(a, out[k]);
					}
				}
			}
		// failures
		if (st.fk != '-' && events > 0)
		{
			long at = fault_at(st.fn, events);
			long leak, lt = live_tensors();
			track_begin();
			Outcome f;
			{
				KernelHook kh;
				f = attempt(st.fk, at, [&] { S x = call(a, o); }, &what);
			}
			leak = track_end();
			need(f != Outcome::other || !a.seeded, "spurious", "an exception without an injected failure: " + what);
			need(args_bits(a) == kb, "arguments", "a failed generation changed its arguments");
			need(leak <= 0 && live_tensors() <= lt, "leak", std::to_string(leak) + " allocations and " + std::to_string(live_tensors() - lt) + " tensors remain after a failure");
			if (f == Outcome::injected) c.probe(std::string("fault.") + (st.fk == 'n' ? "allocation" : st.fk == 't' ? "tensor" : "kernel"));
			S t;
			f = attempt('-', 0, [&] { t = call(a, o); }, &what);
			if (a.seeded || !a.block) need(f == Outcome::ok, "retry", "refused after a failure: " + what);
			if (f == Outcome::ok) inspect(a, t);
			if constexpr (std::is_same_v<S, bMPS>)
				if (a.seeded) needs(same_shape(s, t), "retry");
		}
		(void)lt0;
	}
	void degenerate(const Step &st, Rng &r)
	{
		Ask a = make(r, st);
		int kind = (int)(st.arg(8) % 6);
		id += std::string(a.block ? " block" : " dense") + " kind " + std::to_string(kind) + " how " + std::to_string(a.how);
		auto o = opts(a);
		bool empty_ok = false;
		auto other = a.qn;
		switch (kind)
		{
		case 0: // no site
			a.L = 0;
			a.phys.resize(a.how == 0 ? 1 : 0), a.dims.resize(a.how == 0 ? 1 : 0);
			a.bop = bMPO(), a.op = MPO();
			empty_ok = true;
			break;
		case 1: a.bond = 0; break;
		case 2: // a site without any state
		{
			size_t i = a.how == 0 ? 0 : (size_t)r.below((i64)a.L);
			if (a.how == 2) a.how = 1;
			if (a.block)
			{
				MT m;
				m.g = g;
				m.rule = g.zero();
				m.sz.resize(1), m.q.resize(1);
				a.phys[i] = btensor(m.spec(), g.lib(m.rule));
			}
			else { a.dims.resize(a.L, 1); a.dims[i] = 0; }
			break;
		}
		case 3: // physical space of the wrong rank
		{
			if (!a.block) return;
			if (a.how == 2) a.how = 1;
			MT m = random_structure(r, g, r.chance(0.3) ? 0 : 2, 2, 2);
			Quiet q;
			a.phys[a.how == 0 ? 0 : r.below((i64)a.L)] = random_fill(r, m, a.dt, 1);
			break;
		}
		case 4: // quantity of another kind
		{
			if (!a.block) return;
			Group h;
			h.kind = (g.kind + 1 + (int)r.below(5)) % 6;
			a.qn = h.lib(h.random(r));
			break;
		}
		case 5: // element type that cannot hold a random number
			o = torch::TensorOptions().dtype(r.chance(0.5) ? torch::kLong : torch::kBool);
			break;
		}
		auto kb = args_bits(a);
		std::string what;
		size_t n = 99;
		long lt = live_tensors();
		track_begin();
		Outcome oc = attempt('-', 0, [&] { if (a.block) { auto s = call_block(a, o); n = s.size(); } else { auto s = call_dense(a, o); n = s.size(); } }, &what);
		long leak = track_end();
		c.log(id + ": " + what);
		need(oc != Outcome::ok || (empty_ok && n == 0), "nonsense", "a request that no state satisfies was accepted, a state of " + std::to_string(n) + " sites came out");
		need(args_bits(a) == kb, "arguments", "the arguments changed");
		need(leak <= 0 && live_tensors() <= lt, "leak", std::to_string(leak) + " allocations remain after a refusal");
		c.probe("refused_nonsense");
	}
	void main()
	{
		g.kind = (int)p.get("group");
		torch::manual_seed(p.get("init"));
		auto was = torch::get_default_dtype();
		struct Restore { caffe2::TypeMeta w; ~Restore() { default_type(c10::typeMetaToScalarType(w)); } } restore{was};
		default_type(p.get("ddt") ? torch::kFloat : torch::kDouble);
		g_entropy = [n = u64(p.get("init"))]() mutable { return unsigned(mix64(++n)); };
		for (auto &st : p.steps)
		{
			set_label(st.op);
			id = st.op;
			c.probe("op." + st.op);
			Rng r(u64(st.arg(9)) * 31 + 7);
			if (st.op == "make")
			{
				Ask a = make(r, st);
				if (a.block) generate<bMPS>(st, r, a, [&](const Ask &x, const torch::TensorOptions &o) { return call_block(x, o); });
				else generate<MPS>(st, r, a, [&](const Ask &x, const torch::TensorOptions &o) { return call_dense(x, o); });
			}
			else degenerate(st, r);
			c.log(id);
		}
		if (done) c.probe("nontrivial");
	}
};
void run_rand(const Plan &p, Ctx &c) { Runner(p, c).main(); }
void gen_rand(Rng &r, Plan &p, bool thorough)
{
	p.cfg["block"] = r.chance(0.85);
	p.cfg["group"] = r.chance(0.4) ? 0 : r.range(0, 5);
	p.cfg["ddt"] = r.chance(0.3);
	p.cfg["init"] = r.below(1000000000);
	int n = (int)r.range(2, thorough ? 10 : 5);
	for (int k = 0; k < n; ++k)
	{
		Step s;
		s.op = r.chance(0.85) ? "make" : "degenerate";
		for (int z = 0; z < 10; ++z) s.a.push_back(r.below(1000000));
		if (r.chance(0.5))
		{
			s.fk = "nto"[r.below(3)];
			s.fn = r.below(1000000);
		}
		p.steps.push_back(s);
	}
}
Register r1({"C13", gen_rand, run_rand, 3000, 100000,
             "random_MPS, random_bMPS and every btensor operation they use, compiled from /repo; libtorch's random generator and kernels",
             "std::random_device (simulated: constant, repeating, failing), libtorch's CPU memory allocator, operator new of library code (failing), kernel dispatch (a hook that may throw before a kernel), thread scheduler",
             "one evaluation is one simulated run (one plan: a history of state generations under changing surroundings, failures and threads); distinct_nontrivial counts distinct execution hashes among runs that judged at least one generation"});
} // namespace
