// Deterministic simulator core: PRNG, plans (ops + faults + schedule), fault engine, scheduler, seams.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace sim
{
using i64 = int64_t;
using u64 = uint64_t;

inline u64 mix64(u64 z)
{
	z += 0x9E3779B97F4A7C15ull;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
struct Rng
{
	u64 s;
	explicit Rng(u64 seed) : s(mix64(seed ^ 0xA0761D6478BD642Full)) {}
	u64 next()
	{
		s += 0x9E3779B97F4A7C15ull;
		return mix64(s);
	}
	i64 below(i64 n) { return n <= 0 ? 0 : i64(next() % u64(n)); }
	i64 range(i64 lo, i64 hi) { return lo + below(hi - lo + 1); }
	double unit() { return double(next() >> 11) / 9007199254740992.0; }
	bool chance(double p) { return unit() < p; }
};

// One step of a run. fk: fault kind ('-' none, 'n' operator new, 't' tensor storage, 'o' dense kernel, 'c' callback),
// fn: position of the fault as a fraction (parts per million) of the events the undisturbed step would make.
struct Step
{
	std::string op;
	std::vector<i64> a;
	char fk = '-';
	i64 fn = 0;
	i64 arg(size_t i) const { return i < a.size() ? a[i] : 0; }
};
struct Plan
{
	std::string prop;
	u64 seed = 0;
	std::map<std::string, i64> cfg;
	std::vector<Step> steps;
	std::vector<std::pair<i64, i64>> sched; // (event number, task to switch to)
	i64 get(const std::string &k, i64 d = 0) const
	{
		auto it = cfg.find(k);
		return it == cfg.end() ? d : it->second;
	}
	std::string text() const;
	static Plan parse(const std::string &);
};

struct Violation
{
	std::string cls, msg;
};

// what a run observed, in order (filled only when somebody compares runs)
using Record = std::vector<std::pair<std::string, u64>>;
struct Ctx
{
	Record *rec = nullptr;
	template <class F>
	void note(const std::string &what, F &&value)
	{
		if (rec) rec->emplace_back(what, value());
	}
	u64 hash = 1469598103934665603ull;
	std::map<std::string, long> count; // probes and fault counters
	bool trace = false;
	std::vector<std::string> tail;
	double sim_seconds = 0;
	void fold(u64 x) { hash = mix64(hash ^ x) + 0x1234567; }
	void fold(const std::string &s)
	{
		u64 h = 14695981039346656037ull;
		for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
		fold(h);
	}
	void log(const std::string &s)
	{
		fold(s);
		if (rec) rec->emplace_back(s, 0);
		if (trace) { fprintf(stdout, "  %s\n", s.c_str()); fflush(stdout); }
	}
	void probe(const std::string &k, long n = 1) { count[k] += n; }
	[[noreturn]] void fail(const std::string &cls, const std::string &msg) { throw Violation{cls, msg}; }
	void check(bool ok, const std::string &cls, const std::string &msg)
	{
		if (!ok) fail(cls, msg);
	}
};
std::string fmtd(double x);

struct Workload
{
	const char *prop;
	void (*gen)(Rng &, Plan &, bool thorough);
	void (*run)(const Plan &, Ctx &);
	long quick_runs, thorough_runs; // number of simulated runs per tier
	const char *real_components;
	const char *stubs;
	const char *rule;
};
std::vector<Workload> &workloads();
struct Register
{
	Register(Workload w) { workloads().push_back(w); }
};

// ---------------------------------------------------------------- label of what is running (for crash reports)
void set_label(const std::string &);
const char *label();

// ---------------------------------------------------------------- fault engine
struct Counts
{
	long n = 0, t = 0, o = 0; // operator new from library code, tensor storage allocations, dense kernel calls
	long of(char k) const { return k == 'n' ? n : k == 't' ? t : k == 'o' ? o : 0; }
};
enum class Outcome
{
	ok,       // completed
	injected, // an exception came out and the fault had fired
	other     // an exception came out without any fault
};
void arm(char kind, long at);
void disarm();
bool fault_fired();
Counts event_counts();
template <class F>
Outcome attempt(char kind, long at, F &&f, std::string *what = nullptr)
{
	arm(kind, at);
	try
	{
		f();
		disarm();
		return Outcome::ok;
	}
	catch (Violation &)
	{
		disarm();
		throw;
	}
	catch (std::exception &e)
	{
		disarm();
		if (what) *what = e.what();
		return fault_fired() ? Outcome::injected : Outcome::other;
	}
	catch (...)
	{
		disarm();
		if (what) *what = "exception not derived from std::exception";
		return fault_fired() ? Outcome::injected : Outcome::other;
	}
}
// position of the fault from a fraction
inline long fault_at(i64 ppm, long events) { return events <= 0 ? 0 : 1 + long(double(ppm % 1000000) * double(events) / 1e6); }

// ---------------------------------------------------------------- leak tracking
void track_begin();
void count_std_allocations(bool on); // until the run ends
long track_end(); // allocations made by library code since track_begin that are still live
long live_tensors();
void set_fill(int new_pattern, int tensor_pattern); // contents of fresh memory; -1: leave as is; >=256: pseudo-random
void reset_seams();
void lock_fill(bool); // set_fill() has no effect while locked

// ---------------------------------------------------------------- simulated clock and entropy
extern i64 g_now_ns;
extern i64 g_clock_reads;
extern std::function<void()> g_on_clock_read;
extern std::function<unsigned()> g_entropy; // may throw
extern long g_entropy_reads;

// ---------------------------------------------------------------- scheduler: real threads, one runs at a time
struct SchedResult
{
	i64 events = 0;
	i64 switches = 0;
	u64 trace_hash = 0;
	bool deadlock = false;
};
SchedResult run_tasks(std::vector<std::function<void()>> tasks, const std::vector<std::pair<i64, i64>> &sched, i64 first);
void sched_point(u64 where);
i64 lib_steps(); // basic blocks of library code executed so far in this process
void set_step_budget(i64);
void set_step_event(i64 in_steps, void (*f)()); // call f once after that many basic blocks of library code
bool in_task();

extern unsigned char *g_cov; // shared coverage bitmap, 65536 bytes
void fold_double(Ctx &, double);
} // namespace sim
