// C11: threads that share read-only data, or work on data of their own, do not interfere. Two or three real threads run
// one at a time; the plan's schedule decides at which basic block of library code (or dense kernel) which one goes on.
// What each of them observes has to be what it observes when it runs alone, and the shared data must not change.
#include "LinearAlgebra.h"
#include "blockTensor/LinearAlgebra.h"
#include "dmrg.h"
#include "dmrg_options.h"
#include "hamil.h"
#include "models.h"
#include "operators.h"
#include "tensorgdot.h"
#include "torch_formatter.h"
#include <cstring>
using namespace bt;
using quantit::any_quantity_vector;
namespace
{
const char *INNER[] = {"C01", "C12", "C07", "C03", "C16"}; // plans on data of the thread's own
constexpr int NOWN = 5;
const Workload *inner(const std::string &prop)
{
	for (auto &w : workloads())
		if (prop == w.prop) return &w;
	return nullptr;
}
std::string pre(int k) { return "T" + std::to_string(k) + "|"; }
u64 text(const std::string &s)
{
	u64 h = 14695981039346656037ull;
	for (unsigned char x : s) h = (h ^ x) * 1099511628211ull;
	return h;
}
u64 see(const at::Tensor &t) { return bt::observe(t); }
u64 see(any_quantity_cref q) { return text(quantit::qformat(q)); }
u64 see(const any_quantity_vector &v)
{
	Quiet quiet;
	u64 h = v.size();
	for (size_t i = 0; i < v.size(); ++i) h = mix64(h ^ see(v[i]));
	return h;
}
// structure, quantities, rule, element type, content
u64 see(const btensor &t)
{
	Quiet quiet;
	u64 h = bt::observe(t);
	for (int64_t i = 0; i < t.dim(); ++i)
	{
		auto [s0, s1, q0, q1] = t.section_sizes_cqtts(i);
		for (; s0 != s1; ++s0, ++q0) h = mix64(h ^ text(quantit::qformat(*q0)));
		h = mix64(h ^ 0x77);
	}
	bool g = false;
	for (auto &kv : t.blocks()) g |= kv.second.defined() && kv.second.requires_grad();
	return mix64(h ^ text(quantit::qformat(t.selection_rule)) ^ (g ? 5 : 9));
}
template <class T>
u64 see_train(const T &s)
{
	u64 h = s.size();
	for (auto &t : s) h = mix64(h ^ see(t));
	return h;
}
u64 see(const MPS &s) { return mix64(see_train(s) ^ s.orthogonality_center); }
u64 see(const bMPS &s) { return mix64(see_train(s) ^ s.orthogonality_center); }
u64 see(const MPO &s) { return see_train(s); }
u64 see(const bMPO &s) { return see_train(s); }
u64 see(bool b) { return b ? 3 : 4; }
u64 see(const std::string &s) { return text(s); }
template <class... X>
u64 see(const std::tuple<X...> &t)
{
	u64 h = 1;
	std::apply([&](auto &...x) { ((h = mix64(h ^ see(x))), ...); }, t);
	return h;
}

struct Shared
{
	Group g;
	at::ScalarType dt;
	MT ma;
	btensor a, b, c, m, other; // a and b of one structure, c contracts with a, m: a matrix
	at::Tensor d, e;
	ChainSpec spec;
	bMPS bs, br;
	bMPO bH;
	MPS s, r;
	MPO H;
	any_quantity_vector q;
	any_quantity total;
	Shared(const Plan &p)
	{
		Quiet quiet;
		Rng x(u64(p.get("shared")));
		g.kind = (int)p.get("group");
		static const at::ScalarType DT[] = {at::kDouble, at::kComplexDouble, at::kFloat, at::kComplexFloat};
		dt = DT[p.get("dtype") % 4];
		double ps = x.chance(0.4) ? 1 : 0.6;
		ma = random_structure(x, g, (int)x.range(2, 3), 3, 2);
		MT mb = ma, mc = ma;
		a = random_fill(x, ma, dt, ps);
		b = random_fill(x, mb, dt, ps);
		for (auto &l : mc.q)
			for (auto &y : l) y = g.neg(y);
		mc.rule = g.neg(mc.rule);
		c = random_fill(x, mc, dt, ps);
		other = random_fill(x, mb, dt, ps);
		// a square matrix that commutes with the charges
		MT mm;
		mm.g = g;
		mm.sz = {ma.sz[0], ma.sz[0]};
		mm.q = {ma.q[0], mc.q[0]};
		mm.rule = g.zero();
		m = random_fill(x, mm, dt, 0.9);
		d = random_dense(x, {3, 2, 4}, dt);
		e = random_dense(x, {4, 2, 3}, dt);
		int L = (int)x.range(2, 4);
		spec = random_chain(x, g, dt, true, L, x.chance(0.5), false);
		spec.lq = {g.zero()};
		spec.rq = {g.zero()};
		Charge tot = g.zero();
		for (auto &l : spec.pq) tot = g.add(tot, l[x.below((i64)l.size())]);
		total = g.lib(tot);
		bs = random_block_state(x, spec, 2, 2, 1, tot, x.below(L));
		br = random_block_state(x, spec, 2, 2, 1, tot, x.below(L));
		auto ham = [&](const ChainSpec &cs) {
			auto A = random_op_model(x, cs, 2, 2, 1, false);
			std::vector<MT> B;
			for (auto &y : A) B.push_back(adjoint(y));
			return direct_sum(A, B);
		};
		std::vector<btensor> v;
		for (auto &y : ham(spec)) v.push_back(realise(x, y, dt));
		bH = bMPO(v);
		ChainSpec ds = random_chain(x, g, dt, false, L, x.chance(0.5), false);
		s = random_dense_state(x, ds, 4, x.below(L));
		r = random_dense_state(x, ds, 4, x.below(L));
		std::vector<at::Tensor> w;
		for (auto &y : ham(ds)) w.push_back(y.d.contiguous());
		H = MPO(w);
		for (int k = 0; k < 6; ++k) q.push_back(g.lib(g.random(x)));
		if (p.get("grad"))
		{
			for (auto &y : bH)
				for (auto &kv : y) kv.second.requires_grad_(true);
			for (auto &y : H) y.requires_grad_(true);
		}
	}
	u64 all() const
	{
		u64 h = 3;
		for (auto *t : {&a, &b, &c, &m, &other}) h = mix64(h ^ see(*t));
		h = mix64(h ^ see(d) ^ mix64(see(e)));
		for (auto &t : H) h = mix64(h ^ (t.requires_grad() ? 1 : 2));
		return mix64(h ^ see(bs) ^ mix64(see(br) ^ see(bH)) ^ mix64(mix64(see(s) ^ mix64(see(r))) ^ see(H)) ^ mix64(see(q)) ^ see(total));
	}
};

// one read-only call on the shared data
template <class N>
void one(const Shared &w, Shared &m, const Step &st, N &&note)
{
	const i64 k = st.arg(0), z = st.arg(1);
	const std::string &n = st.op;
	const btensor &a = z % 2 ? w.a : w.b, &b = z % 3 ? w.other : w.a;
	double al = double(k % 7) - 3;
	if (al == 0) al = 0.5;
	IL all;
	for (int64_t i = 0; i < a.dim(); ++i) all.push_back(i);
	if (n == "alg")
		switch (k % 22)
		{
		case 0: return note(see(a.add(b, al)));
		case 1: return note(see(a.sub(b, al)));
		case 2: return note(see(a + b));
		case 3: return note(see(a - b));
		case 4: return note(see(a.add(btensor(b), al)));
		case 5: return note(see(a.mul(b)));
		case 6: return note(see(a.mul(al)));
		case 7: return note(see(a.div(al)));
		case 8: return note(see(a.add(torch::Scalar(al))));
		case 9: return note(see(-a));
		case 10: return note(see(a.tensordot(w.c, all, all)));
		case 11: { int64_t i = z % a.dim(); return note(see(a.tensordot(w.c, {i}, {i}))); }
		case 12: return note(see(w.m.tensordot(a, {1}, {0})));
		case 13: return note(see(a.eq(b)));
		case 14: return note(see(a.pow(2)));
		case 15: return note(see(a.abs()));
		case 16: return note(see(a.conj()));
		case 17: return note(see(a.conj().mul(a.conj())));
		case 18: { btensor t = a.mul(al); t.add_(b, al); return note(see(t)); }
		case 19: { btensor t = zeros_like(a); t += b; t.mul_(al); return note(see(t)); }
		case 20: return note(see(quantit::tensorgdot(torch::tensordot(w.d, w.e, IL{2}, IL{0}), w.d, w.e, IL{2}, IL{0}, al, torch::Scalar(1))));
		default: return note(see(a.ge(torch::Scalar(1.5))));
		}
	if (n == "shape")
		switch (k % 20)
		{
		case 0: { IL p(all.rbegin(), all.rend()); return note(see(a.permute(p))); }
		case 1: return note(see(a.transpose(0, z % a.dim())));
		case 2: return note(see(a.reshape({1})));
		case 3: return note(see(a.reshape({1}).reshape_as(a)));
		case 4: return note(see(a.reshape({})));
		case 5: return note(see(a.inverse_cvals()));
		case 6: return note(see(a.conj_only()));
		case 7: return note(see(a.cval_shift(w.q[z % 6], z % a.dim())));
		case 8: { IL v(a.dim(), -1); v[z % a.dim()] = 0; return note(see(btensor(z % 2 ? m.a : m.b).basic_create_view(v))); }
		case 9: { IL v(a.dim(), -1); v[z % a.dim()] = 0; return note(see(btensor(z % 2 ? m.a : m.b).basic_create_view(v, true))); }
		case 10: { IL v(a.dim(), 0); v[z % a.dim()] = -1; return note(see(a.shape_from(v))); }
		case 11: { btensor x = a, y = b; return note(see(quantit::shape_from(x, y))); }
		case 12: return note(see(a.tensor_product_shape(b)));
		case 13: return note(see(a.neutral_shape()));
		case 14: return note(see(quantit::full_like(a, torch::Scalar(al))));
		case 15: return note(see(quantit::sparse_zeros_like(a)));
		case 16: return note(see(quantit::ones_like(a, torch::TensorOptions().dtype(at::kComplexDouble))));
		case 17: return note(see(quantit::eye_like(w.m)));
		case 18: return note(see(a.to(at::kComplexDouble)));
		default: return note(see(a.squeeze()));
		}
	if (n == "red")
		switch (k % 9)
		{
		case 0: return note(see(a.to_dense()));
		case 1: return note(see(a.sum()));
		case 2: return note(see(a.any()));
		case 3: return note(see(quantit::allclose(a, b)));
		case 4: return note(see(a.anynan()));
		case 5: return note(see(a.isnan()));
		case 6: return note(see(quantit::to_string(a)));
		case 7: return note(see(quantit::from_basic_tensor_like(a, a.to_dense())));
		default: return note(see(btensor::check_tensor(a)));
		}
	if (n == "lin")
		switch (k % 9)
		{
		case 0: return note(see(quantit::svd(a, size_t(1))));
		case 1: return note(see(quantit::svd(a, size_t(1), 0.5, size_t(1), size_t(3))));
		case 2: return note(see(quantit::svd(w.m)));
		case 3: { auto h = w.m + w.m.permute({1, 0}).conj(); return note(see(quantit::eigh(h, size_t(1)))); }
		case 4: { auto h = w.m + w.m.permute({1, 0}).conj(); return note(see(quantit::eigh(h, size_t(1), 0.1, size_t(1), size_t(2)))); }
		case 5: return note(see(quantit::svd(w.d, size_t(1))));
		case 6: return note(see(quantit::svd(w.d, size_t(2), 0.1, size_t(1), size_t(3))));
		case 7: { auto f = w.d.reshape({6, 4}); auto h = torch::matmul(f, f.t().conj()); return note(see(quantit::eigh(h, size_t(1), 0.1))); }
		default: return note(see(quantit::LA_helpers::reorder_by_cvals(w.m).size() ? std::string("some") : std::string("none")));
		}
	if (n == "net")
		switch (k % 8)
		{
		case 0: return note(see(contract(w.bs, w.br)));
		case 1: return note(see(contract(w.bs, w.bs, w.bH)));
		case 2: return note(see(contract(w.s, w.r)));
		case 3: return note(see(contract(w.s, w.r, w.H)));
		case 4: { bMPO t = w.bH; t.coalesce(); return note(see(t)); }
		case 5: { bMPO t = w.bH; t.coalesce(0.01); return note(see(t)); }
		case 6: { bMPS t = w.bs; return note(see(t)); }
		default: return note(see(contract(w.br, w.bs, w.bH)));
		}
	if (n == "move")
	{ // a copy shares the tensors
		if (k % 2) { bMPS t = w.bs; t.move_oc(int(z % (i64)t.size())); note(see(t)); t.move_oc(int(st.arg(2) % (i64)t.size())); return note(see(t)); }
		MPS t = w.s;
		t.move_oc(int(z % (i64)t.size()));
		note(see(t));
		t.move_oc(int(st.arg(2) % (i64)t.size()));
		return note(see(t));
	}
	if (n == "dmrg")
	{
		quantit::dmrg_options o;
		o.cutoff = 1e-6;
		o.convergence_criterion = 1e-6;
		o.maximum_bond = 1 + st.arg(3) % 6;
		o.minimum_bond = 1;
		o.maximum_iterations = 1 + st.arg(2) % 3;
		o.hamil_gradient = o.state_gradient = false;
		if (k % 2)
		{
			bMPS t = w.bs;
			t.move_oc(0);
			auto E = quantit::dmrg(m.bH, t, o);
			note(see(E));
			return note(see(t));
		}
		MPS t = w.s;
		t.move_oc(0);
		auto E = quantit::dmrg(m.H, t, o);
		note(see(E));
		return note(see(t));
	}
	if (n == "qty")
		switch (k % 8)
		{
		case 0: return note(see(w.q));
		case 1: { auto t = w.q; t.push_back(w.total); return note(see(t)); }
		case 2: { IL p{5, 4, 3, 2, 1, 0}; return note(see(w.q.permute(p.data(), p.data() + 6, IL(6, 1)))); }
		case 3: { any_quantity t = w.q[z % 6] * w.total; return note(see(t)); }
		case 4: return note(see(any_quantity(w.q[z % 6].inverse())));
		case 5: return note(see(w.q[z % 6] == w.q[k / 8 % 6]));
		case 6: { auto t = w.q; t.erase(t.begin() + z % 6); t.insert(t.begin(), w.q.begin(), w.q.end()); return note(see(t)); }
		default: return note(see(w.total.neutral()));
		}
	if (n == "rnd")
	{ // with a seed of its own the structure depends on the arguments only
		auto t = quantit::random_bMPS(3 + z % 3, w.bH, w.total, torch::TensorOptions().dtype(w.dt), unsigned(k));
		u64 h = t.size();
		for (auto &x : t) h = mix64(h ^ bt::observe(x, false));
		return note(h);
	}
	if (n == "model")
		switch (k % 5)
		{
		case 0: return note(see_train(quantit::Heisenberg(torch::tensor(al, w.dt), 2 + z % 3)));
		case 1: return note(see_train(quantit::Hubbard(torch::tensor(al, at::kDouble), torch::tensor(0.5, at::kDouble), 2 + z % 3)));
		case 2: { auto [x, y, f, i] = quantit::fermions(); return note(see(x) ^ mix64(see(y) ^ mix64(see(f) ^ see(i)))); }
		case 3: { auto [x, y, f, i, j] = quantit::pauli(); return note(see(x) ^ mix64(see(y) ^ mix64(see(f) ^ see(i))) ^ see(j)); }
		default:
		{
			btensor sh({{{1, w.total.neutral()}, {1, w.q[0]}}}, w.total.neutral(), torch::TensorOptions().dtype(w.dt));
			return note(see(quantit::find_selection_rule(torch::eye(2, w.dt), quantit::shape_from(sh, sh.conj()))));
		}
		}
}
struct Seen
{
	Record rec;
	std::string cls, msg;
	u64 hash = 0;
	long ops = 0;
};
struct Script
{
	Plan p;
	const Workload *w = nullptr; // null: calls on the shared data
};
void life(const Script &s, Shared *w, Seen &seen)
{
	KernelHook kh;
	if (s.w)
	{
		Ctx c;
		c.rec = &seen.rec;
		try { s.w->run(s.p, c); }
		catch (Violation &v) { seen.cls = v.cls, seen.msg = v.msg; }
		catch (std::exception &e) { seen.cls = "exception", seen.msg = e.what(); }
		disarm();
		seen.hash = c.hash;
		for (auto &kv : c.count)
			if (kv.first.compare(0, 3, "op.") == 0) seen.ops += kv.second;
		return;
	}
	for (auto &st : s.p.steps)
	{
		std::string id = st.op + " " + std::to_string(st.arg(0)) + " " + std::to_string(st.arg(1));
		try
		{
			set_label(id);
			one(*w, *w, st, [&](u64 h) { seen.rec.emplace_back(id, h); });
		}
		catch (std::exception &e) { seen.rec.emplace_back(id + " threw", text(e.what())); }
		++seen.ops;
	}
}
std::string differ(const Seen &A, const Seen &B)
{
	size_t n = std::min(A.rec.size(), B.rec.size());
	for (size_t i = 0; i < n; ++i)
		if (A.rec[i] != B.rec[i])
		{
			std::string at = A.rec[i].first;
			return at == B.rec[i].first ? "the result of " + at + " differs" : at + " became " + B.rec[i].first;
		}
	if (A.cls != B.cls || A.rec.size() != B.rec.size()) return "alone it ends " + (A.cls.empty() ? "well" : "with " + A.cls + " " + A.msg) + ", with the others " + (B.cls.empty() ? "well" : "with " + B.cls + " " + B.msg);
	return A.hash == B.hash ? "" : "an observation differs";
}
void run_conc(const Plan &p, Ctx &c)
{
	int n = (int)std::max<i64>(1, p.get("n"));
	std::vector<Script> scripts(n);
	bool any_shared = false;
	for (int k = 0; k < n; ++k)
	{
		auto &s = scripts[k];
		i64 kind = p.get(pre(k) + "kind");
		if (kind > 0 && kind <= NOWN) s.w = inner(INNER[kind - 1]);
		if (kind > 0 && !s.w) return;
		if (kind == 0) any_shared = true;
		s.p.prop = s.w ? s.w->prop : "C11";
		s.p.seed = p.seed + 31 * k;
		for (auto &kv : p.cfg)
			if (kv.first.compare(0, pre(k).size(), pre(k)) == 0) s.p.cfg[kv.first.substr(pre(k).size())] = kv.second;
		s.p.cfg["norandom"] = s.p.cfg["typed"] = 1;
		s.p.cfg["grad"] = 0; // the engine for the gradients has locks of its own
		for (auto &st : p.steps)
			if (st.op.compare(0, pre(k).size(), pre(k)) == 0)
			{
				Step t = st;
				t.op = st.op.substr(pre(k).size());
				s.p.steps.push_back(t);
			}
	}
	set_fill(0xA5, 0xFF);
	lock_fill(true);
	default_type(at::kDouble);
	lock_default_type(true);
	std::unique_ptr<Shared> w;
	if (any_shared) w = std::make_unique<Shared>(p);
	u64 before = w ? w->all() : 0;
	std::vector<Seen> alone(n), together(n);
	for (int k = 0; k < n; ++k)
	{
		run_tasks({[&, k] { life(scripts[k], w.get(), alone[k]); }}, {}, 0);
		if (w && w->all() != before) c.fail("C11:shared", "the shared data changed while thread " + std::to_string(k) + " ran alone");
		c.fold(alone[k].hash);
		for (auto &x : alone[k].rec) c.fold(x.first), c.fold(x.second);
	}
	std::vector<std::function<void()>> tasks;
	for (int k = 0; k < n; ++k) tasks.push_back([&, k] { life(scripts[k], w.get(), together[k]); });
	auto res = run_tasks(tasks, p.sched, p.get("first"));
	lock_fill(false);
	lock_default_type(false);
	c.probe("events", res.events);
	c.probe("switches", res.switches);
	c.fold(res.trace_hash);
	long ops = 0;
	for (int k = 0; k < n; ++k)
	{
		auto d = differ(alone[k], together[k]);
		std::string who = "thread " + std::to_string(k) + (scripts[k].w ? " (own data, as in " + std::string(scripts[k].w->prop) + ")" : " (shared data)");
		if (!d.empty()) c.fail(scripts[k].w ? "C11:own" : "C11:shared", who + ": " + d + (together[k].cls.empty() ? "" : "; there: " + together[k].cls + " " + together[k].msg) + " (" + std::to_string(res.switches) + " switches)");
		ops += together[k].ops;
		c.probe(scripts[k].w ? std::string("own.") + scripts[k].w->prop : std::string("shared"), together[k].ops);
	}
	if (w && w->all() != before) c.fail("C11:shared", "the shared data changed while the threads ran");
	if (res.deadlock) c.fail("C11:deadlock", "no thread can go on");
	for (auto &x : alone)
		if (!x.cls.empty() && x.cls != "exception") throw Violation{x.cls, x.msg}; // the same alone: another property's business
	if (res.switches > 2 * n && ops >= 4) c.probe("nontrivial");
}
void gen_conc(Rng &r, Plan &p, bool thorough)
{
	int n = r.chance(0.6) ? 2 : 3;
	p.cfg["n"] = n;
	p.cfg["first"] = r.below(n);
	p.cfg["shared"] = r.below(1000000000);
	p.cfg["group"] = r.chance(0.35) ? 0 : r.range(0, 5);
	p.cfg["dtype"] = r.chance(0.5) ? 0 : r.range(0, 3);
	p.cfg["grad"] = r.chance(0.15);
	double pown = r.chance(0.3) ? 0 : r.chance(0.3) ? 1 : 0.5;
	static const std::pair<const char *, int> OPS[] = {{"alg", 22}, {"shape", 20}, {"red", 9}, {"lin", 9}, {"net", 8}, {"move", 5}, {"dmrg", 3}, {"qty", 8}, {"rnd", 3}, {"model", 4}};
	int total = 0;
	for (auto &o : OPS) total += o.second;
	bool same = r.chance(0.25); // everybody does the same
	std::vector<Step> first;
	for (int k = 0; k < n; ++k)
	{
		i64 kind = !r.chance(pown) ? 0 : 1 + r.below(NOWN);
		if (kind && !inner(INNER[kind - 1])) kind = 1;
		p.cfg[pre(k) + "kind"] = kind;
		std::vector<Step> steps;
		if (kind)
		{
			auto *w = inner(INNER[kind - 1]);
			Plan q;
			q.prop = w->prop;
			q.seed = r.next();
			w->gen(r, q, false);
			if (q.steps.size() > 8) q.steps.resize(8);
			for (auto &kv : q.cfg) p.cfg[pre(k) + kv.first] = kv.second;
			steps = q.steps;
		}
		else if (same && !first.empty()) steps = first;
		else
		{
			int m = (int)r.range(2, thorough ? 14 : 8);
			for (int j = 0; j < m; ++j)
			{
				Step s;
				i64 x = r.below(total);
				for (auto &o : OPS)
				{
					x -= o.second;
					if (x < 0) { s.op = o.first; break; }
				}
				for (int y = 0; y < 4; ++y) s.a.push_back(r.below(1000000));
				steps.push_back(s);
			}
			if (first.empty()) first = steps;
		}
		for (auto s : steps)
		{
			s.op = pre(k) + s.op;
			p.steps.push_back(s);
		}
	}
	// the schedule: bursts of switches at geometric distances of a chosen mean, anywhere in the run, or a few switches
	std::vector<i64> v;
	double span = std::exp(std::log(3000.) + r.unit() * std::log(150.));
	int bursts = r.chance(0.2) ? 0 : (int)r.range(1, 6);
	for (int k = 0; k < bursts; ++k)
	{
		static const double MEAN[] = {8, 40, 200, 1000, 5000};
		double mean = MEAN[r.below(5)], at = r.chance(0.3) ? 0 : r.unit() * span;
		int m = (int)r.range(5, thorough ? 200 : 80);
		for (int j = 0; j < m; ++j) v.push_back(i64(at += 1 - std::log(1 - r.unit()) * mean));
	}
	for (int m = bursts ? 3 : (int)r.range(3, 12); m > 0; --m) v.push_back(i64(std::exp(r.unit() * std::log(300000.))));
	std::sort(v.begin(), v.end());
	for (auto x : v) p.sched.push_back({x, r.below(n)});
}
Register r1({"C11", gen_conc, run_conc, 3000, 100000,
             "all of the library the threads use: block tensor operations, decompositions, quantity lists, states, operators, dmrg, random block states, models, compiled from /repo; libtorch kernels and LAPACK; real threads",
             "the thread scheduler (one thread runs at a time, the plan's schedule switches at basic blocks of library code and before dense kernels), locks and initialisation guards taken by library code (they yield), the default type and the contents of fresh memory (fixed), in threads on their own data: operator new, tensor memory and kernels that fail",
             "one evaluation is one simulated run (one plan: two or three threads, their operations, one schedule): each thread alone, then all together; distinct_nontrivial counts distinct execution hashes (results and switch points) among runs with more than twice as many switches as threads and at least 4 operations"});
} // namespace
