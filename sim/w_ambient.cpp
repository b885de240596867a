// C14: results do not depend on ambient process state. The same plan of another workload is carried out twice in one
// process, in two different surroundings; everything observed has to be the same.
#include "dmrg.h"
#include "dmrg_options.h"
#include "mpsmodel.h"
#include <cstring>
using namespace bt;
namespace
{
const char *INNER[] = {"C01", "C12", "C07", "C08", "C13", "C16"};
const Workload *inner(const std::string &prop)
{
	for (auto &w : workloads())
		if (prop == w.prop) return &w;
	return nullptr;
}
struct Seen
{
	Record rec;
	std::string cls, msg;
};
void flip_default()
{
	Quiet q;
	bool was = c10::typeMetaToScalarType(torch::get_default_dtype()) == at::kDouble;
	torch::set_default_dtype(c10::scalarTypeToTypeMeta(was ? at::kFloat : at::kDouble));
}
struct Flip
{
	static u64 s;
	static i64 gap;
	static void event()
	{
		flip_default();
		arm();
	}
	static void arm() { set_step_event(1 + i64(mix64(s++) % u64(gap)), &event); }
};
u64 Flip::s = 0;
i64 Flip::gap = 1;
struct Surroundings
{
	int fnew, ften;
	at::ScalarType ddt;
	i64 now, gap; // gap: library basic blocks between two changes of the default type, 0: none
	u64 seed;
};
// objects that nobody gave a value to, built in memory that was used before
template <class T, class F>
void fresh_object(Ctx &c, const Surroundings &s, const char *what, F &&look)
{
	alignas(T) unsigned char mem[sizeof(T)];
	memset(mem, s.ften & 255, sizeof mem);
	T *t = new (mem) T();
	c.note(std::string("a fresh ") + what, [&] { return look(*t); });
	t->~T();
}
void objects(Ctx &c, const Surroundings &s)
{
	fresh_object<btensor>(c, s, "block tensor", [](btensor &t) { return mix64(u64(t.dim())) ^ mix64(t.sizes().size() * 3 + t.blocks().size()); });
	fresh_object<bMPS>(c, s, "block state", [](bMPS &t) { return mix64(t.size() * 131 + t.orthogonality_center); });
	fresh_object<MPS>(c, s, "state", [](MPS &t) { return mix64(t.size() * 131 + t.orthogonality_center); });
	fresh_object<quantit::dmrg_options>(c, s, "set of options", [](quantit::dmrg_options &o) {
		u64 h = o.maximum_bond;
		for (double x : {o.cutoff, o.convergence_criterion}) { u64 b; memcpy(&b, &x, 8); h = mix64(h ^ b); }
		return mix64(mix64(h ^ o.minimum_bond) ^ (o.maximum_iterations * 2 + o.state_gradient * 7 + o.hamil_gradient * 13));
	});
}
Seen live(const Workload &w, const Plan &p, Ctx &outer, const Surroundings &s, bool trace)
{
	Seen seen;
	Ctx c;
	c.rec = &seen.rec;
	c.trace = trace;
	lock_fill(false);
	set_fill(s.fnew, s.ften);
	lock_fill(true);
	lock_default_type(false);
	default_type(s.ddt);
	lock_default_type(true);
	g_now_ns = s.now;
	g_entropy = [n = s.seed]() mutable { return unsigned(mix64(++n)); };
	if (s.gap) { Flip::s = s.seed; Flip::gap = s.gap; Flip::arm(); }
	try { w.run(p, c); }
	catch (Violation &v) { seen.cls = v.cls, seen.msg = v.msg; }
	set_step_event(0, nullptr);
	objects(c, s);
	lock_fill(false);
	lock_default_type(false);
	default_type(at::kDouble);
	g_on_clock_read = nullptr;
	disarm();
	for (auto &kv : c.count)
		if (kv.first.compare(0, 3, "op.") == 0) outer.probe(std::string("inner.") + w.prop, kv.second);
	return seen;
}
void run_ambient(const Plan &p, Ctx &c)
{
	auto *w = inner(INNER[p.get("inner")]);
	if (!w) return;
	Plan q = p;
	q.prop = w->prop;
	auto fill = [&](const char *k) { i64 x = p.get(k); return x < 0 ? 256 : int(x % 256); };
	Surroundings a{0, 0, at::kDouble, 1000000000, 0, 1};
	Surroundings b{fill("fill_new"), fill("fill_tensor"), p.get("float") ? at::kFloat : at::kDouble, 1000000000 + p.get("now"), p.get("gap"), u64(p.get("wseed"))};
	auto A = live(*w, q, c, a, c.trace);
	if (p.get("before") && inner(INNER[p.get("before_inner")]))
	{ // another history before the second life
		auto *w2 = inner(INNER[p.get("before_inner")]);
		Rng r(u64(p.get("before")));
		Plan h;
		h.prop = w2->prop;
		h.seed = r.next();
		w2->gen(r, h, false);
		h.cfg["grad"] = 0;
		if (h.steps.size() > 4) h.steps.resize(4);
		live(*w2, h, c, a, false);
		c.probe("other_history");
	}
	auto B = live(*w, q, c, b, c.trace);
	std::string how = std::string(" (default type ") + (b.ddt == at::kFloat ? "float" : "double") + (b.gap ? ", changing" : "") + ", fresh memory " + std::to_string(b.fnew) + "/" + std::to_string(b.ften) + ")";
	size_t n = std::min(A.rec.size(), B.rec.size());
	for (size_t i = 0; i < n; ++i)
		if (A.rec[i] != B.rec[i])
			c.fail(std::string("C14:") + w->prop, A.rec[i].first + (A.rec[i].first == B.rec[i].first ? " is observed to differ" : " became " + B.rec[i].first) + " in other surroundings" + how + (B.cls.empty() ? "" : "; there: " + B.cls + " " + B.msg) + (A.cls.empty() ? "" : "; at first: " + A.cls + " " + A.msg));
	if (A.cls != B.cls || A.rec.size() != B.rec.size())
		c.fail(std::string("C14:") + w->prop, "one life ends " + (A.cls.empty() ? "well" : "with " + A.cls + " " + A.msg) + ", the other " + (B.cls.empty() ? "well" : "with " + B.cls + " " + B.msg) + how);
	if (!A.cls.empty()) throw Violation{A.cls, A.msg}; // the same in both: another property's business
	for (auto &x : A.rec) c.fold(x.first), c.fold(x.second);
	c.probe("compared", (long)A.rec.size());
	if (b.gap) c.probe("changing_default");
	if (A.rec.size() >= 3) c.probe("nontrivial");
}
void gen_ambient(Rng &r, Plan &p, bool thorough)
{
	static const int W[] = {40, 16, 14, 10, 10, 10};
	i64 x = r.below(100), k = 0;
	while (x >= W[k]) x -= W[k++];
	auto *w = inner(INNER[k]);
	p.cfg["inner"] = k;
	if (!w) return;
	Plan q = p;
	q.prop = w->prop;
	w->gen(r, q, thorough);
	q.prop = p.prop;
	p = q;
	for (auto &s : p.steps) s.fk = '-';
	p.cfg["typed"] = 1;
	p.cfg["grad"] = 0;
	p.cfg["fill_new"] = r.chance(0.3) ? -1 : r.below(256);
	p.cfg["fill_tensor"] = r.chance(0.3) ? -1 : r.chance(0.4) ? 0xFF : r.chance(0.3) ? 0x7F : r.below(256);
	p.cfg["float"] = r.chance(0.65);
	p.cfg["now"] = r.below(1000000000000000);
	p.cfg["gap"] = r.chance(0.5) ? 0 : r.chance(0.5) ? 50 : 2000;
	p.cfg["wseed"] = r.below(1000000000);
	p.cfg["before"] = r.chance(0.25) ? 1 + r.below(1000000) : 0;
	p.cfg["before_inner"] = r.below(6);
}
Register r1({"C14", gen_ambient, run_ambient, 4000, 120000,
             "all of the library the inner workloads use: block tensor operations, decompositions, states and operators, dmrg, random states, compiled from /repo; libtorch kernels and LAPACK",
             "fresh memory of library code and of tensors (filled with chosen patterns), the process-wide default type (changed between and inside calls at chosen basic blocks), the clock, std::random_device",
             "one evaluation is one simulated run: one plan carried out twice in different surroundings, every observation compared; distinct_nontrivial counts distinct execution hashes among runs with at least 3 observations"});
} // namespace
