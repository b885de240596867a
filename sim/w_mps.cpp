// C07: moving the orthogonality centre and compressing operators is a gauge choice: the state and the operator never change.
#include "LinearAlgebra.h"
#include "blockTensor/LinearAlgebra.h"
#include "mpsmodel.h"
using namespace bt;
namespace
{
double tol7(at::ScalarType t) { return t == at::kFloat || t == at::kComplexFloat ? 1e-3 : 1e-9; }
template <class S>
struct Entry
{
	S s;
	at::Tensor psi; // what the state is
	double scale;   // size of the terms that make it up, for rounding
	std::vector<char> left, right; // sites known to be isometries
	at::ScalarType dt;
};
template <class S, class O, class T>
struct Runner
{
	const Plan &p;
	Ctx &c;
	ChainSpec spec;
	Charge total;
	std::vector<Entry<S>> pool;
	std::vector<O> ops;
	std::string id;
	int done = 0;
	Runner(const Plan &p_, Ctx &c_) : p(p_), c(c_) {}
	void need(bool ok, const char *cls, const std::string &m) { if (!ok) c.fail(std::string("C07:") + cls, id + ": " + m); }
	void needs(const std::string &m, const char *cls) { need(m.empty(), cls, m); }
	static constexpr bool block = std::is_same_v<T, btensor>;
	void refresh(Entry<S> &e, bool forget = true)
	{
		e.psi = full_state(e.s);
		e.scale = abs_scale(e.s);
		e.dt = e.s.size() ? site_type(e.s[0]) : spec.dt;
		if (forget) e.left.assign(e.s.size(), 0), e.right.assign(e.s.size(), 0);
	}
	Entry<S> make(Rng &r)
	{
		Entry<S> e;
		size_t oc = r.below((i64)spec.L());
		static const double ps[] = {1, 1, 0.8, 0.5};
		if constexpr (block) e.s = random_block_state(r, spec, r.chance(0.3) ? 3 : 2, 2, ps[r.below(4)], total, oc);
		else e.s = random_dense_state(r, spec, 5, oc);
		refresh(e);
		return e;
	}
	static size_t centre(const S &s) { return s.orthogonality_center; }
	// everything that must hold of a state at any moment
	void inspect(const Entry<S> &e, const S &ref)
	{
		Quiet q;
		needs(train_sound(e.s, 3), "structure");
		need(e.s.size() == ref.size(), "structure", "length changed");
		if (e.s.empty()) return;
		need(centre(e.s) < e.s.size(), "centre", "centre " + std::to_string(centre(e.s)) + " outside of the chain");
		for (size_t i = 0; i < e.s.size(); ++i)
		{
			need(site_type(e.s[i]) == e.dt, "dtype", "element type of site " + std::to_string(i) + " changed");
			needs(same_site_leg(e.s[i], 1, ref[i], 1, false), "physical");
		}
		needs(same_site_leg(e.s.front(), 0, ref.front(), 0, false), "edge");
		needs(same_site_leg(e.s.back(), 2, ref.back(), 2, false), "edge");
		if constexpr (block) need(total_of(e.s) == total_of(ref), "sector", "the total quantum number changed");
		auto psi = full_state(e.s);
		double err = maxabs(psi - e.psi);
		need(err <= tol7(e.dt) * e.scale, "state", "the state changed by " + fmtd(err) + " (terms of size " + fmtd(e.scale) + "): " + show(psi) + " instead of " + show(e.psi));
		for (size_t i = 0; i < e.s.size(); ++i)
		{
			if (e.left[i]) need(iso_defect(e.s[i], true) <= tol7(e.dt), "isometry", "site " + std::to_string(i) + " left of the centre " + std::to_string(centre(e.s)) + " is not an isometry, defect " + fmtd(iso_defect(e.s[i], true)));
			if (e.right[i]) need(iso_defect(e.s[i], false) <= tol7(e.dt), "isometry", "site " + std::to_string(i) + " right of the centre " + std::to_string(centre(e.s)) + " is not an isometry, defect " + fmtd(iso_defect(e.s[i], false)));
		}
	}
	// the sites passed by the centre became isometries, those outside of the way did not move
	void passed(Entry<S> &e, size_t from, const S &before, bool failed, size_t target)
	{
		size_t to = centre(e.s);
		if (!failed) need(to == target, "centre", "the centre is reported at " + std::to_string(to) + " instead of " + std::to_string(target));
		else need(to >= std::min(from, target) && to <= std::max(from, target), "centre", "after a failure the centre is reported at " + std::to_string(to) + ", not between " + std::to_string(from) + " and " + std::to_string(target));
		size_t lo = std::min(from, to), hi = std::max(from, to);
		for (size_t i = 0; i < e.s.size(); ++i)
			if (i < lo || i > hi) need(site_bits(e.s[i]) == site_bits(before[i]), "outside", "site " + std::to_string(i) + " outside of the way " + std::to_string(from) + "-" + std::to_string(to) + " changed");
		if (to == from) { if (failed) for (size_t i = 0; i < e.s.size(); ++i) need(site_bits(e.s[i]) == site_bits(before[i]), "partial", "the centre did not move but site " + std::to_string(i) + " changed"); return; }
		for (size_t i = lo; i <= hi; ++i) e.left[i] = e.right[i] = 0;
		for (size_t i = lo; i < hi; ++i)
			if (to > from) e.left[i] = 1;
		for (size_t i = lo + 1; i <= hi; ++i)
			if (to < from) e.right[i] = 1;
	}
	void move(const Step &st, Entry<S> &e, int target)
	{
		if (e.s.empty()) return;
		S before = e.s; // shares the tensors
		auto keep = train_bits(before);
		id += " to " + std::to_string(target) + " from " + std::to_string(centre(e.s)) + " of " + std::to_string(e.s.size()) + " sites";
		char fk = st.fk;
		i64 fn = st.fn;
		int tries = fk == '-' ? 0 : 1 + st.arg(4) % 2;
		while (tries-- > 0)
		{
			size_t from = centre(e.s);
			S was = e.s;
			long at;
			{
				S tmp = e.s;
				KernelHook kh;
				attempt('-', 0, [&] { tmp.move_oc(target); });
				at = fault_at(fn, event_counts().of(fk));
			}
			if (at <= 0) break;
			if (st.arg(5) % 3 == 0)
			{
				long lt = live_tensors(), leak;
				track_begin();
				{
					S tmp = e.s;
					KernelHook kh;
					attempt(fk, at, [&] { tmp.move_oc(target); });
				}
				leak = track_end();
				need(leak <= 0 && live_tensors() <= lt, "leak", std::to_string(leak) + " allocations and " + std::to_string(live_tensors() - lt) + " tensors remain after a failure");
			}
			Outcome oc;
			{
				KernelHook kh;
				oc = attempt(fk, at, [&] { e.s.move_oc(target); });
			}
			need(oc != Outcome::other, "spurious", "an exception without an injected failure");
			if (oc == Outcome::injected)
			{
				c.probe(std::string("fault.") + (fk == 'n' ? "allocation" : fk == 't' ? "tensor" : "kernel"));
				c.probe("interrupted_move");
				if (centre(e.s) != from && (int)centre(e.s) != target) c.probe("stopped_on_the_way");
			}
			c.log("failure " + std::string(1, fk) + " leaves the centre at " + std::to_string(centre(e.s)));
			passed(e, from, was, oc != Outcome::ok, target);
			id += " (interrupted)";
			inspect(e, before);
			fn = (fn * 7919 + 13) % 1000000;
			if (st.arg(4) % 5 == 4) target = (int)(st.arg(3) % e.s.size()); // changes its mind
		}
		size_t from = centre(e.s);
		S was = e.s;
		std::string what;
		auto oc = attempt('-', 0, [&] { e.s.move_oc(target); }, &what);
		need(oc == Outcome::ok, "exception", "unexpected exception: " + what);
		passed(e, from, was, false, target);
		inspect(e, before);
		need(train_bits(before) == keep, "copy", "a copy of the state changed when the centre moved");
		// known canonical form: the norm is in the centre
		bool canon = true;
		for (size_t i = 0; i < e.s.size(); ++i) canon = canon && (i < centre(e.s) ? e.left[i] : i > centre(e.s) ? e.right[i] : 1);
		if (canon && e.s.size() > 1)
		{
			c.probe("canonical");
			Quiet q;
			double n = e.psi.abs().pow(2).sum().item().toDouble(), nc = wide_site(e.s[centre(e.s)]).abs().pow(2).sum().item().toDouble();
			need(std::abs(n - nc) <= tol7(e.dt) * std::max(n, e.scale * e.scale), "norm", "squared norm " + fmtd(n) + " but the centre tensor has " + fmtd(nc));
		}
		c.log("moved to " + std::to_string(target));
		++done;
	}
	void refused(Entry<S> &e, int target)
	{
		id += " to " + std::to_string(target) + " of " + std::to_string(e.s.size()) + " sites";
		auto k = train_bits(e.s);
		size_t oc0 = centre(e.s);
		bool thrown = false, right = false;
		try { e.s.move_oc(target); }
		catch (std::invalid_argument &) { thrown = right = true; }
		catch (std::exception &) { thrown = true; }
		need(thrown, "accepted", "a centre outside of the chain was accepted");
		need(right, "error_type", "not reported as an invalid argument");
		need(train_bits(e.s) == k && centre(e.s) == oc0, "partial", "a refused move changed the state");
	}
	c10::complex<double> number(const at::Tensor &t)
	{
		Quiet q;
		auto z = t.to(torch::kComplexDouble);
		return z.item().toComplexDouble();
	}
	c10::complex<double> number(const btensor &t)
	{
		Quiet q;
		needs(sound(t), "structure");
		need(t.dim() == 0, "contract", "the contraction has rank " + std::to_string(t.dim()));
		return number(assemble(t, torch::kComplexDouble));
	}
	void contraction(Entry<S> &a, Entry<S> &b, O *op)
	{
		if (a.dt != b.dt || a.s.empty()) return;
		if (op && site_type((*op)[0]) != a.dt) return;
		if (op && ((*op).front().sizes()[0] != 1 || (*op).back().sizes()[2] != 1)) return; // the contraction's edges are only unambiguous for one-dimensional ones
		auto ka = train_bits(a.s), kb = train_bits(b.s);
		c10::complex<double> want, got;
		double scale;
		{
			Quiet q;
			auto A = a.psi.reshape({-1});
			auto B = b.psi.reshape({-1});
			if (op)
			{
				auto H = full_op(*op);
				// [l, o1, i1, ..., r] -> act on the physical legs of a, edges of the operator are one-dimensional
				int64_t L = a.s.size();
				IL perm, din, dout;
				for (int64_t i = 0; i < L; ++i) perm.push_back(1 + 2 * i);
				for (int64_t i = 0; i < L; ++i) perm.push_back(2 + 2 * i);
				perm.insert(perm.begin(), 0);
				perm.push_back(1 + 2 * L);
				int64_t d = 1;
				for (int64_t i = 0; i < L; ++i) d *= a.psi.size(1 + i);
				auto M = H.permute(perm).reshape({d, d});
				auto P = a.psi.reshape({a.psi.size(0), d, a.psi.size(L + 1)});
				A = torch::matmul(M, P).reshape({-1});
				scale = a.scale * b.scale * std::max(1., maxabs(M)) * double(d) * double(A.numel());
			}
			else scale = a.scale * b.scale * double(A.numel());
			want = number((A * B.conj()).sum());
		}
		std::string what;
		auto oc = attempt('-', 0, [&] {
			auto x = op ? contract(a.s, b.s, *op) : contract(a.s, b.s);
			c.note(id + " contraction", [&] { return bt::observe(x); });
			got = number(x);
		}, &what);
		need(oc == Outcome::ok, "exception", "unexpected exception: " + what);
		need(std::abs(want.real() - got.real()) + std::abs(want.imag() - got.imag()) <= tol7(a.dt) * scale, "contract", "the contraction is " + fmtd(got.real()) + " " + fmtd(got.imag()) + " instead of " + fmtd(want.real()) + " " + fmtd(want.imag()));
		need(train_bits(a.s) == ka && train_bits(b.s) == kb, "copy", "an operand of a contraction changed");
		++done;
	}
	void coalesce(const Step &st, O &op)
	{
		if constexpr (block)
		{
			O before = op;
			auto keep = train_bits(before);
			auto H = full_op(op);
			const double scale = abs_scale(op);
			auto look = [&] {
				Quiet q;
				needs(train_sound(op, 4), "structure");
				for (size_t i = 0; i < op.size(); ++i)
				{
					need(site_type(op[i]) == spec.dt, "dtype", "element type of an operator site changed");
					needs(same_site_leg(op[i], 1, before[i], 1, false), "physical");
					needs(same_site_leg(op[i], 3, before[i], 3, false), "physical");
				}
				needs(same_site_leg(op.front(), 0, before.front(), 0, false), "edge");
				needs(same_site_leg(op.back(), 2, before.back(), 2, false), "edge");
				auto H2 = full_op(op);
				double err = maxabs(H2 - H);
				need(err <= tol7(spec.dt) * scale, "operator", "the operator changed by " + fmtd(err) + " (terms of size " + fmtd(scale) + ")");
			};
			if (st.fk != '-')
			{
				long at;
				{
					O tmp = op;
					KernelHook kh;
					attempt('-', 0, [&] { tmp.coalesce(); });
					at = fault_at(st.fn, event_counts().of(st.fk));
				}
				if (at > 0)
				{
					Outcome oc;
					{
						KernelHook kh;
						oc = attempt(st.fk, at, [&] { op.coalesce(); });
					}
					need(oc != Outcome::other, "spurious", "an exception without an injected failure");
					if (oc == Outcome::injected) c.probe(std::string("fault.") + (st.fk == 'n' ? "allocation" : st.fk == 't' ? "tensor" : "kernel")), c.probe("interrupted_coalesce");
					id += " (interrupted)";
					look();
				}
			}
			std::string what;
			O *res = nullptr;
			auto oc = attempt('-', 0, [&] { res = st.arg(3) % 2 ? &op.coalesce() : &op.coalesce(0.); }, &what);
			need(oc == Outcome::ok, "exception", "unexpected exception: " + what);
			need(res == &op, "returned", "the returned reference is not the operator");
			look();
			for (size_t i = 0; i + 1 < op.size(); ++i)
			{
				int64_t was = before[i].sizes()[2], is = op[i].sizes()[2];
				need(is <= was, "grown", "bond " + std::to_string(i) + " grew from " + std::to_string(was) + " to " + std::to_string(is));
			}
			need(train_bits(before) == keep, "copy", "a copy of the operator changed");
			++done;
		}
	}
	void bad(Rng &r)
	{
		// construction from tensors that do not make a state
		int how = (int)r.below(5);
		id += " " + std::to_string(how);
		Entry<S> e = make(r);
		std::vector<T> v(e.s.begin(), e.s.end());
		bool thrown = false, right = false;
		auto tryit = [&](std::function<void()> f) {
			try { f(); }
			catch (std::invalid_argument &) { thrown = right = true; }
			catch (std::exception &) { thrown = true; }
		};
		{
			// a valid chain first, with allocations that fail on the way
			auto bits = train_bits(e.s);
			std::vector<T> w(v);
			for (int k = 0; k < 2; ++k)
			{
				i64 at = 1 + r.below(40);
				auto oc = attempt(r.chance(0.5) ? 'n' : 'o', at, [&] { S x(w, w.size() - 1); need(x.check_ranks(), "check_ranks", "a valid chain is refused"); need(train_bits(x) == bits && centre(x) == w.size() - 1, "copy", "not the tensors given"); });
				need(oc != Outcome::other, "accepted", "a valid chain is refused");
				if (oc == Outcome::injected) c.probe("fault.construction");
			}
		}
		if (how == 0) tryit([&] { S x(v, v.size() + r.below(3)); });
		else if (how == 1 && !block)
		{
			size_t i = r.below((i64)v.size());
			v[i] = v[i].permute({1, 0, 2}).transpose(0, 1).reshape({v[i].sizes()[0] * v[i].sizes()[1], v[i].sizes()[2]}); // rank 2

			tryit([&] { S x(v); });
		}
		else if (how == 2)
		{
			if (v.size() < 2) return;
			Entry<S> o = make(r);
			size_t i = r.below((i64)v.size() - 1);
			if (same_site_leg(v[i], 2, o.s[i + 1], 0, true).empty()) return;
			v[i + 1] = o.s[i + 1];
			tryit([&] { S x(v); });
		}
		else if (how == 3) { v[0] = T(); if constexpr (!block) v[0] = torch::zeros({2}); tryit([&] { S x(v); }); }
		else
		{
			// an empty chain: nothing to refuse, nothing to crash on
			std::string what;
			auto oc = attempt('-', 0, [&] { std::vector<T> none; S x(none); need(x.empty(), "empty", "not empty"); bool b = x.check_ranks(); (void)b; }, &what);
			(void)oc;
			return;
		}
		need(thrown, "accepted", "tensors that are no chain were accepted");
		need(right, "error_type", "not reported as an invalid argument");
	}
	// every way to build a chain takes the tensors that make one, as they are, and refuses the others
	template <class X, class MT_>
	void built_of(Rng &r, const std::vector<T> &good, const std::vector<T> &other, bool state)
	{
		using I = std::initializer_list<T>;
		std::vector<T> v = good;
		int way = (int)r.below(5), fault = (int)r.below(4);
		size_t n = v.size(), oc = state ? (size_t)r.below((i64)n) : 0;
		bool bad = false;
		if (fault == 1 && n > 1)
		{ // a bond that doesn't fit
			size_t i = (size_t)r.below((i64)n - 1);
			if (!same_site_leg(v[i], 2, other[i + 1], 0, true).empty()) v[i + 1] = other[i + 1], bad = true;
		}
		if (fault == 2)
		{ // a tensor of another rank
			size_t i = (size_t)r.below((i64)n);
			T x = v[i];
			if constexpr (block)
			{
				auto d = x.dim();
				x = state ? x.reshape({1}) : x.reshape({1, 2});
				need(x.dim() < d, "harness", "rank");
			}
			else x = r.chance(0.5) ? x.flatten(0, 1) : x.unsqueeze(0);
			v[i] = x;
			bad = true;
		}
		if (fault == 3 && state && way != 4) { oc = n + (size_t)r.below(3); bad = true; }
		if (fault == 3 && !state) fault = 0;
		T one = v[(size_t)r.below((i64)n)];
		size_t count = (size_t)r.range(1, 4);
		if (way == 4)
		{
			// copies of one tensor: its bonds have to fit each other
			bad = true;
			oc = 0;
			size_t rank = state ? 3 : 4;
			if (size_t(one.dim()) == rank) bad = !same_site_leg(one, 0, one, 2, true).empty();
			if (state && r.chance(0.2)) oc = count + (size_t)r.below(2), bad = true;
			if (state && oc == 0 && r.chance(0.5)) oc = (size_t)r.below((i64)count);
			v.assign(count, one);
		}
		if (way == 2 && n > 3) way = 0;
		id += std::string(state ? " state" : " operator") + " way " + std::to_string(way) + " fault " + std::to_string(fault) + (bad ? " (no chain)" : "");
		std::string what;
		auto bits = [](const auto &x) { u64 h = 1; for (auto &t : x) h = mix64(h ^ site_bits(t)); return h; };
		auto kept = bits(v);
		bool invalid = false;
		auto make_it = [&]() -> X {
			if constexpr (std::is_same_v<X, S>)
			{
				if (way == 0) return X(v, oc);
				if (way == 1) { MT_ m(v.begin(), v.end()); X x(m, oc); need(bits(m) == kept, "copy", "building a state changed its source"); return x; }
				if (way == 2) return n == 1 ? X(I{v[0]}, oc) : n == 2 ? X(I{v[0], v[1]}, oc) : X(I{v[0], v[1], v[2]}, oc);
				if (way == 3) return X(MT_(v.begin(), v.end()), oc);
				return X(count, one, oc);
			}
			else
			{
				if (way == 0) return X(v);
				if (way == 1) { MT_ m(v.begin(), v.end()); X x(m); need(bits(m) == kept, "copy", "building an operator changed its source"); return x; }
				if (way == 2) return n == 1 ? X(I{v[0]}) : n == 2 ? X(I{v[0], v[1]}) : X(I{v[0], v[1], v[2]});
				if (way == 3) return X(MT_(v.begin(), v.end()));
				return X(count, one);
			}
		};
		if (!bad && r.chance(0.5))
		{
			auto o = attempt(r.chance(0.5) ? 'n' : 'o', 1 + r.below(30), [&] { auto x = make_it(); need(bits(x) == kept, "copy", "not the tensors given"); });
			need(o != Outcome::other, "accepted", "a valid chain is refused");
			if (o == Outcome::injected) c.probe("fault.construction");
		}
		auto o = attempt('-', 0, [&] {
			try
			{
				auto x = make_it();
				need(!bad, "accepted", "tensors that are no chain, or a centre outside of it, were accepted");
				need(x.size() == v.size() && bits(x) == kept && x.check_ranks(), "copy", "not the tensors given");
				if constexpr (std::is_same_v<X, S>) need(centre(x) == oc, "centre", "not the centre that was given");
			}
			catch (std::invalid_argument &) { invalid = true; }
		}, &what);
		need(o == Outcome::ok, "error_type", "refused with another error than an invalid argument: " + what);
		need(invalid == bad, "accepted", "a valid chain is refused");
		need(bits(v) == kept, "copy", "construction changed the tensors given");
		c.probe(bad ? "refused_chain" : "built_chain");
	}
	void built(Rng &r, const Entry<S> &e, const Entry<S> &f, const O &h, const O &k)
	{
		using MT_ = std::conditional_t<block, bMPT, MPT>;
		if (e.s.empty()) return;
		std::vector<T> a(e.s.begin(), e.s.end()), b(f.s.begin(), f.s.end()), x(h.begin(), h.end()), y(k.begin(), k.end());
		if (r.chance(0.5)) built_of<S, MT_>(r, a, b, true);
		else built_of<O, MT_>(r, x, y, false);
	}
	void main()
	{
		Group g;
		g.kind = (int)p.get("group");
		static const at::ScalarType TT[] = {at::kDouble, at::kComplexDouble, at::kFloat, at::kComplexFloat};
		auto dt = TT[p.get("dtype") % 4];
		default_type(p.get("ddt") ? at::kFloat : at::kDouble);
		Rng r(p.get("init"));
		spec = random_chain(r, g, dt, block, (int)p.get("L"), r.chance(0.5), p.get("edges"));
		total = g.zero();
		// a total that the chain can reach
		total = g.add(g.add(spec.lq[0], spec.rq[0]), total);
		for (auto &q : spec.pq) total = g.add(total, q[r.below((i64)q.size())]);
		for (int i = 0; i < 3; ++i) pool.push_back(make(r));
		for (int i = 0; i < 2; ++i)
		{
			if constexpr (block) ops.push_back(random_block_op(r, spec, 3, 2, r.chance(0.5) ? 1 : 0.6));
			else ops.push_back(random_dense_op(r, spec, 3));
		}
		for (auto &st : p.steps)
		{
			set_label(st.op);
			id = st.op;
			auto &n = st.op;
			c.probe("op." + n);
			Rng rr(u64(st.arg(2)) * 31 + 7);
			auto &e = pool[st.arg(0) % pool.size()];
			auto &f = pool[st.arg(1) % pool.size()];
			if (n == "move") move(st, e, e.s.empty() ? 0 : int(st.arg(3) % e.s.size()));
			else if (n == "end") move(st, e, st.arg(3) % 2 ? int(e.s.size()) - 1 : 0);
			else if (n == "refused") refused(e, st.arg(3) % 3 == 0 ? -1 - int(st.arg(4) % 3) : int(e.s.size() + st.arg(4) % 3));
			else if (n == "copy") { if (&e != &f) { S x(e.s); Entry<S> y = e; y.s = x; f = y; } }
			else if (n == "swap") { if (&e != &f) { if (st.arg(3) % 2) e.s.swap(f.s); else swap(e.s, f.s); std::swap(e.psi, f.psi); std::swap(e.scale, f.scale); std::swap(e.left, f.left); std::swap(e.right, f.right); std::swap(e.dt, f.dt); inspect(e, e.s); inspect(f, f.s); } }
			else if (n == "movec")
			{
				size_t oc = centre(e.s);
				S x(std::move(e.s));
				e.s = S(std::move(x));
				need(centre(e.s) == oc, "centre", "moving the object lost the centre");
				inspect(e, e.s);
			}
			else if (n == "mpt")
			{
				// to a bare chain and back: the centre is what is said
				using MT_ = std::conditional_t<block, bMPT, MPT>;
				auto m = static_cast<MT_>(e.s);
				size_t oc = centre(e.s);
				S x(m, oc);
				need(centre(x) == oc, "centre", "not the centre that was given");
				e.s = x;
				inspect(e, e.s);
			}
			else if (n == "range")
			{
				S x(e.s.begin(), e.s.end());
				need(x.size() == e.s.size() && centre(x) == 0, "centre", "a state made of a range of tensors has its centre at " + std::to_string(centre(x)) + " instead of 0");
				need(train_bits(x) == train_bits(e.s), "copy", "tensors differ");
			}
			else if (n == "sized")
			{
				S x(size_t(st.arg(3) % 4), size_t(st.arg(4) % 4));
				if (x.size()) need(centre(x) < x.size() || !block, "centre", "a state of " + std::to_string(x.size()) + " sites has its centre at " + std::to_string(centre(x)));
			}
			else if (n == "to")
			{
				static const at::ScalarType R[] = {at::kDouble, at::kFloat}, C[] = {at::kComplexDouble, at::kComplexFloat};
				auto nd = at::isComplexType(e.dt) ? C[st.arg(3) % 2] : st.arg(4) % 3 == 0 ? C[st.arg(3) % 2] : R[st.arg(3) % 2];
				auto k = train_bits(e.s);
				size_t oc = centre(e.s);
				S x;
				if (st.arg(5) % 2) x = e.s.to(nd);
				else x = e.s.to(torch::TensorOptions().dtype(nd));
				need(train_bits(e.s) == k && centre(e.s) == oc, "copy", "the original changed by a conversion");
				need(centre(x) == oc, "centre", "the conversion lost the centre");
				auto old = e.psi;
				double sc = e.scale, t = std::max(tol7(e.dt), tol7(nd));
				if (st.arg(5) % 4 == 0) { e.s.to_(nd); need(centre(e.s) == oc, "centre", "the conversion lost the centre"); }
				else e.s = x;
				refresh(e, false);
				need(e.dt == nd, "dtype", "not the element type asked for");
				need(maxabs(e.psi - old) <= t * sc, "state", "the conversion changed the state");
				{ /* flags hold up to the coarser rounding */ std::fill(e.left.begin(), e.left.end(), 0); std::fill(e.right.begin(), e.right.end(), 0); }
				inspect(e, e.s);
			}
			else if (n == "overlap") contraction(e, f, nullptr);
			else if (n == "expect") contraction(e, f, &ops[st.arg(3) % ops.size()]);
			else if (n == "coalesce") coalesce(st, ops[st.arg(3) % ops.size()]);
			else if (n == "newop") { if constexpr (block) ops[st.arg(3) % ops.size()] = random_block_op(rr, spec, 3, 2, rr.chance(0.5) ? 1 : 0.6); else ops[st.arg(3) % ops.size()] = random_dense_op(rr, spec, 3); }
			else if (n == "new") e = make(rr);
			else if (n == "bad") bad(rr);
			else if (n == "built") built(rr, e, f, ops[0], ops[1]);
			for (auto &x : pool) inspect(x, x.s);
			c.log("after " + id + " " + std::to_string(train_bits(e.s)));
			for (auto &x : pool) c.note(id + " state", [&] { u64 h = centre(x.s); for (auto &t : x.s) h = mix64(h ^ bt::observe(t)); return h; });
			for (auto &x : ops) c.note(id + " operator", [&] { u64 h = 5; for (auto &t : x) h = mix64(h ^ bt::observe(t)); return h; });
		}
		if (done >= 2) c.probe("nontrivial");
	}
};
void run_mps(const Plan &p, Ctx &c)
{
	if (p.get("block")) { Runner<bMPS, bMPO, btensor> r(p, c); r.main(); }
	else { Runner<MPS, MPO, at::Tensor> r(p, c); r.main(); }
}
void gen_mps(Rng &r, Plan &p, bool thorough)
{
	p.cfg["block"] = r.chance(0.65);
	p.cfg["group"] = r.chance(0.35) ? 0 : r.range(0, 5);
	p.cfg["dtype"] = r.chance(0.5) ? 0 : r.range(0, 3);
	p.cfg["ddt"] = r.chance(0.25);
	p.cfg["L"] = r.chance(0.1) ? 1 : r.range(2, thorough ? 6 : 5);
	p.cfg["edges"] = r.chance(0.25);
	p.cfg["init"] = r.below(1000000000);
	static const std::pair<const char *, int> OPS[] = {{"move", 14}, {"end", 4}, {"refused", 1}, {"copy", 2}, {"swap", 1}, {"movec", 1}, {"mpt", 1}, {"range", 1}, {"sized", 1}, {"to", 1}, {"overlap", 3}, {"expect", 3}, {"coalesce", 4}, {"newop", 1}, {"new", 2}, {"bad", 1}, {"built", 2}};
	int total = 0;
	for (auto &o : OPS) total += o.second;
	int n = (int)r.range(4, thorough ? 24 : 12);
	for (int k = 0; k < n; ++k)
	{
		Step s;
		i64 x = r.below(total);
		for (auto &o : OPS)
		{
			x -= o.second;
			if (x < 0) { s.op = o.first; break; }
		}
		for (int z = 0; z < 6; ++z) s.a.push_back(r.below(1000000));
		if (r.chance(0.4))
		{
			s.fk = r.chance(0.4) ? 'n' : r.chance(0.5) ? 't' : 'o';
			s.fn = r.below(1000000);
		}
		p.steps.push_back(s);
	}
}
Register r1({"C07", gen_mps, run_mps, 5000, 150000,
             "MPS/bMPS/MPO/bMPO, move_oc, contract, coalesce, svd and every btensor operation they use, compiled from /repo; libtorch kernels and LAPACK",
             "libtorch's CPU memory allocator (simulated), operator new of library code (failing), kernel dispatch (a hook that may throw before a kernel)",
             "one evaluation is one simulated run (one plan: a pool of states and operators on one chain, a history of centre moves that get interrupted, abandoned and resumed); distinct_nontrivial counts distinct execution hashes among runs that completed at least 2 moves, contractions or compressions"});
} // namespace
