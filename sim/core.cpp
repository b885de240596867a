#include "core.h"
#include <link.h>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <mutex>
#include <new>
#include <pthread.h>
#include <random>
#include <semaphore.h>
#include <sstream>
#include <thread>
#include <unistd.h>

extern "C" char __executable_start, etext;

namespace sim
{
std::string fmtd(double x)
{
	char b[64];
	snprintf(b, sizeof b, "%.12g", x);
	return b;
}
std::vector<Workload> &workloads()
{
	static std::vector<Workload> w;
	return w;
}
std::string Plan::text() const
{
	std::ostringstream o;
	o << "prop " << prop << "\nseed " << seed << "\n";
	for (auto &kv : cfg) o << "cfg " << kv.first << " " << kv.second << "\n";
	for (auto &s : steps)
	{
		o << "step " << s.op;
		for (auto x : s.a) o << " " << x;
		if (s.fk != '-') o << " ! " << s.fk << " " << s.fn;
		o << "\n";
	}
	for (auto &p : sched) o << "sched " << p.first << " " << p.second << "\n";
	return o.str();
}
Plan Plan::parse(const std::string &t)
{
	Plan p;
	std::istringstream in(t);
	std::string line;
	while (std::getline(in, line))
	{
		if (line.empty() || line[0] == '#') continue;
		std::istringstream l(line);
		std::string w;
		l >> w;
		if (w == "prop") l >> p.prop;
		else if (w == "seed") l >> p.seed;
		else if (w == "cfg")
		{
			std::string k;
			i64 v;
			l >> k >> v;
			p.cfg[k] = v;
		}
		else if (w == "step")
		{
			Step s;
			l >> s.op;
			std::string x;
			while (l >> x)
			{
				if (x == "!")
				{
					std::string k;
					l >> k >> s.fn;
					s.fk = k[0];
					break;
				}
				s.a.push_back(std::stoll(x));
			}
			p.steps.push_back(s);
		}
		else if (w == "sched")
		{
			std::pair<i64, i64> e;
			l >> e.first >> e.second;
			p.sched.push_back(e);
		}
	}
	return p;
}

static char g_label[256] = "start";
void set_label(const std::string &s)
{
	strncpy(g_label, s.c_str(), sizeof g_label - 1);
}
const char *label() { return g_label; }

// ------------------------------------------------------------------ faults, memory
struct FaultState
{
	bool armed = false, fired = false;
	char kind = '-';
	long at = 0;
	Counts c;
};
static thread_local FaultState F; // faults belong to the thread that asked for them
void arm(char kind, long at)
{
	F = FaultState{};
	F.kind = kind;
	F.at = at;
	F.armed = true;
}
void disarm() { F.armed = false; }
bool fault_fired() { return F.fired; }
Counts event_counts() { return F.c; }
bool fault_tick(char kind) // called by the seams; true: this event must fail
{
	if (!F.armed) return false;
	long &c = kind == 'n' ? F.c.n : kind == 't' ? F.c.t : F.c.o;
	++c;
	if (F.kind == kind && !F.fired && c == F.at)
	{
		F.fired = true;
		return true;
	}
	return false;
}

static int g_fill_new = -1;
int g_fill_tensor = -1;
u64 g_fill_state = 88172645463325252ull;
void fill_memory(void *p, size_t n, int pattern)
{
	if (pattern < 0) return;
	if (pattern < 256)
	{
		memset(p, pattern, n);
		return;
	}
	unsigned char *q = (unsigned char *)p;
	while (n)
	{
		g_fill_state ^= g_fill_state << 13;
		g_fill_state ^= g_fill_state >> 7;
		g_fill_state ^= g_fill_state << 17;
		size_t k = n < 8 ? n : 8;
		memcpy(q, &g_fill_state, k);
		q += k;
		n -= k;
	}
}
static bool g_fill_locked = false;
void lock_fill(bool b) { g_fill_locked = b; }
void set_fill(int a, int b)
{
	if (g_fill_locked) return;
	g_fill_new = a;
	g_fill_tensor = b;
	g_fill_state = 88172645463325252ull ^ (u64(unsigned(a)) << 32) ^ u64(unsigned(b));
}

static constexpr size_t TRK = 1 << 17;
static void *g_trk[TRK];
static size_t g_trk_used = 0;
static bool g_tracking = false;
static long g_trk_live = 0;
static void *const TOMB = (void *)1;
static size_t hslot(void *p) { return size_t(mix64(u64(p))) & (TRK - 1); }
static void trk_add(void *p)
{
	if (g_trk_used > TRK * 3 / 4) return;
	size_t i = hslot(p);
	while (g_trk[i] && g_trk[i] != TOMB) i = (i + 1) & (TRK - 1);
	if (!g_trk[i]) ++g_trk_used;
	g_trk[i] = p;
	++g_trk_live;
}
static void trk_del(void *p)
{
	size_t i = hslot(p);
	while (g_trk[i])
	{
		if (g_trk[i] == p)
		{
			g_trk[i] = TOMB;
			--g_trk_live;
			return;
		}
		i = (i + 1) & (TRK - 1);
	}
}
void track_begin()
{
	if (in_task()) return; // other threads allocate too
	memset(g_trk, 0, sizeof g_trk);
	g_trk_used = 0;
	g_trk_live = 0;
	g_tracking = true;
}
long track_end()
{
	if (in_task()) return 0;
	g_tracking = false;
	return g_trk_live;
}
static inline bool in_exe(void *ra) { return (char *)ra >= &__executable_start && (char *)ra < &etext; }
// the standard library's own allocations (strings, string streams) on behalf of the code under test count as well, if asked for
static bool g_count_std = false;
static char *g_std_lo, *g_std_hi;
void count_std_allocations(bool on)
{
	g_count_std = on;
	if (on && !g_std_lo)
		dl_iterate_phdr(
		    [](dl_phdr_info *i, size_t, void *) {
			    if (!i->dlpi_name || !strstr(i->dlpi_name, "libstdc++")) return 0;
			    for (int k = 0; k < i->dlpi_phnum; ++k)
				    if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X))
				    {
					    g_std_lo = (char *)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
					    g_std_hi = g_std_lo + i->dlpi_phdr[k].p_memsz;
				    }
			    return 1;
		    },
		    nullptr);
}
// what lies between the end of a block of the code under test and its trailer must still be there when it is given back
struct Trailer
{
	size_t n;
	u64 mark;
};
const char *g_abort_reason = nullptr;
static Trailer *trailer(void *p, size_t usable) { return (Trailer *)((char *)p + ((usable - sizeof(Trailer)) & ~size_t(15))); }
static void fence(void *p, size_t n)
{
	asm volatile("" : "+r"(p)); // the whole usable size is meant, not only what was asked for
	Trailer *t = trailer(p, malloc_usable_size(p));
	memset((char *)p + n, 0xC5, (char *)t - ((char *)p + n));
	t->n = n;
	t->mark = mix64(u64(p) ^ n);
}
static void check_fence(void *p, size_t usable)
{
	if (usable < 2 * sizeof(Trailer)) return;
	Trailer *t = trailer(p, usable);
	if (t->mark != mix64(u64(p) ^ t->n)) return; // not from the code under test
	for (const unsigned char *c = (unsigned char *)p + t->n; c < (unsigned char *)t; ++c)
		if (*c != 0xC5)
		{
			g_abort_reason = "memory written beyond the end of an allocated block";
			abort();
		}
	t->mark = 0;
}
static void *sim_new(size_t n, void *ra)
{
	bool lib = in_exe(ra) || (g_count_std && (char *)ra >= g_std_lo && (char *)ra < g_std_hi);
	if (lib && F.armed && fault_tick('n')) throw std::bad_alloc();
	void *p = malloc(lib ? n + 2 * sizeof(Trailer) : n ? n : 1);
	if (!p) throw std::bad_alloc();
	if (lib)
	{
		fence(p, n);
		fill_memory(p, n, g_fill_new);
		if (g_tracking) trk_add(p);
	}
	return p;
}
static void sim_delete(void *p)
{
	if (!p) return;
	if (g_tracking) trk_del(p);
	size_t usable = malloc_usable_size(p);
	check_fence(p, usable);
	if (g_fill_new >= 0) memset(p, 0xDD, usable);
	free(p);
}

// ------------------------------------------------------------------ clock, entropy
i64 g_now_ns = 1000000000;
i64 g_clock_reads = 0;
std::function<void()> g_on_clock_read;
std::function<unsigned()> g_entropy;
long g_entropy_reads = 0;

// ------------------------------------------------------------------ coverage + scheduler
static unsigned char g_cov_dummy[65536];
unsigned char *g_cov = g_cov_dummy;
static std::atomic<i64> g_steps{0};
static i64 g_budget = -1;
i64 lib_steps() { return g_steps; }
void set_step_budget(i64 n) { g_budget = n < 0 ? -1 : g_steps + n; }
void (*g_on_budget)() = nullptr;
static i64 g_event_at = -1;
static void (*g_on_event)() = nullptr;
void set_step_event(i64 n, void (*f)())
{
	g_on_event = f;
	g_event_at = f ? g_steps + n : -1;
}

struct Task
{
	std::thread th;
	sem_t sem;
	bool done = false;
	bool blocked = false;
};
static std::vector<Task *> *T = nullptr;
static thread_local int my_task = -1;
bool in_task() { return my_task >= 0; }
static i64 ev = 0, nswitch = 0;
static size_t sidx = 0;
static const std::vector<std::pair<i64, i64>> *S = nullptr;
static u64 thash = 0;
static sem_t main_sem;
static bool g_deadlock = false;

static void switch_to(int t)
{
	int me = my_task;
	++nswitch;
	sem_post(&(*T)[t]->sem);
	while (sem_wait(&(*T)[me]->sem)) {}
}
static int next_runnable(int from)
{
	int n = (int)T->size();
	for (int k = 1; k <= n; ++k)
	{
		int t = (from + k) % n;
		if (!(*T)[t]->done && t != from) return t;
	}
	return -1;
}
void sched_point(u64 where)
{
	if (my_task < 0) return;
	++ev;
	if (sidx < S->size() && (*S)[sidx].first <= ev)
	{
		int n = (int)T->size();
		int t = int(((*S)[sidx].second % n + n) % n);
		++sidx;
		if (t == my_task || (*T)[t]->done) t = next_runnable(my_task);
		if (t >= 0 && t != my_task)
		{
			thash = mix64(thash ^ where ^ (u64(t) << 56) ^ (u64(my_task) << 48));
			switch_to(t);
		}
	}
}
// a task that cannot proceed (lock held by a parked task) gives the baton away
static void sched_blocked()
{
	int t = next_runnable(my_task);
	if (t < 0)
	{
		g_deadlock = true;
		usleep(1000);
		return;
	}
	switch_to(t);
}
SchedResult run_tasks(std::vector<std::function<void()>> tasks, const std::vector<std::pair<i64, i64>> &sched, i64 first)
{
	SchedResult r;
	std::vector<Task *> ts;
	for (size_t i = 0; i < tasks.size(); ++i)
	{
		auto *t = new Task;
		sem_init(&t->sem, 0, 0);
		ts.push_back(t);
	}
	T = &ts;
	S = &sched;
	ev = nswitch = 0;
	sidx = 0;
	thash = 0;
	g_deadlock = false;
	sem_init(&main_sem, 0, 0);
	for (size_t i = 0; i < tasks.size(); ++i)
	{
		auto *fn = &tasks[i];
		ts[i]->th = std::thread(
		    [fn, i, &ts]()
		    {
			    while (sem_wait(&ts[i]->sem)) {}
			    my_task = (int)i;
			    (*fn)();
			    my_task = -1;
			    ts[i]->done = true;
			    int n = -1;
			    for (size_t k = 1; k <= ts.size(); ++k)
			    {
				    size_t t = (i + k) % ts.size();
				    if (!ts[t]->done)
				    {
					    n = (int)t;
					    break;
				    }
			    }
			    if (n >= 0) sem_post(&ts[n]->sem);
			    else sem_post(&main_sem);
		    });
	}
	sem_post(&ts[size_t(first) % ts.size()]->sem);
	while (sem_wait(&main_sem)) {}
	for (auto *t : ts)
	{
		t->th.join();
		sem_destroy(&t->sem);
		delete t;
	}
	T = nullptr;
	r.events = ev;
	r.switches = nswitch;
	r.trace_hash = thash;
	r.deadlock = g_deadlock;
	return r;
}
void reset_seams()
{
	F = FaultState{};
	g_tracking = false;
	g_count_std = false;
	g_fill_locked = false;
	set_step_event(0, nullptr);
	set_fill(0xA5, 0xFF);
	g_now_ns = 1000000000;
	g_clock_reads = 0;
	g_on_clock_read = nullptr;
	g_entropy = nullptr;
	g_entropy_reads = 0;
}
void fold_double(Ctx &c, double x)
{
	u64 b;
	memcpy(&b, &x, 8);
	c.fold(b);
}
} // namespace sim

// ------------------------------------------------------------------ global seams
extern "C" void __sanitizer_cov_trace_pc()
{
	char *ra = (char *)__builtin_return_address(0);
	size_t off = size_t(ra - &__executable_start);
	sim::g_cov[(off ^ (off >> 16)) & 0xFFFF] = 1;
	auto s = sim::g_steps.fetch_add(1, std::memory_order_relaxed);
	if (sim::g_event_at >= 0 && s >= sim::g_event_at)
	{
		sim::g_event_at = -1;
		sim::g_on_event();
	}
	if (sim::g_budget >= 0 && s > sim::g_budget && sim::g_on_budget) sim::g_on_budget();
	if (sim::my_task >= 0) sim::sched_point(off);
}
void *operator new(size_t n) { return sim::sim_new(n, __builtin_return_address(0)); }
void *operator new[](size_t n) { return sim::sim_new(n, __builtin_return_address(0)); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return malloc(n ? n : 1); }
void operator delete(void *p) noexcept { sim::sim_delete(p); }
void operator delete[](void *p) noexcept { sim::sim_delete(p); }
void operator delete(void *p, size_t) noexcept { sim::sim_delete(p); }
void operator delete[](void *p, size_t) noexcept { sim::sim_delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim::sim_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim::sim_delete(p); }

namespace std
{
namespace chrono
{
inline namespace _V2
{
steady_clock::time_point steady_clock::now() noexcept
{
	++sim::g_clock_reads;
	if (sim::g_on_clock_read) sim::g_on_clock_read();
	return time_point(duration(sim::g_now_ns));
}
} // namespace _V2
} // namespace chrono
random_device::result_type random_device::_M_getval()
{
	++sim::g_entropy_reads;
	if (sim::g_entropy) return sim::g_entropy();
	return (unsigned)(sim::mix64(0xE17u + (unsigned long)sim::g_entropy_reads) >> 32);
}
} // namespace std

// locks taken by library code: never block the only running thread
extern "C"
{
	int __real_pthread_mutex_lock(pthread_mutex_t *);
	int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
	{
		if (sim::my_task < 0) return __real_pthread_mutex_lock(m);
		int r;
		while ((r = pthread_mutex_trylock(m)) == EBUSY) sim::sched_blocked();
		return r;
	}
	int __real_pthread_rwlock_rdlock(pthread_rwlock_t *);
	int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m)
	{
		if (sim::my_task < 0) return __real_pthread_rwlock_rdlock(m);
		int r;
		while ((r = pthread_rwlock_tryrdlock(m)) == EBUSY) sim::sched_blocked();
		return r;
	}
	int __real_pthread_rwlock_wrlock(pthread_rwlock_t *);
	int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m)
	{
		if (sim::my_task < 0) return __real_pthread_rwlock_wrlock(m);
		int r;
		while ((r = pthread_rwlock_trywrlock(m)) == EBUSY) sim::sched_blocked();
		return r;
	}
	// function-local statics: the guard word's first byte is the "initialised" flag, the second "in progress"
	int __real___cxa_guard_acquire(char *);
	int __wrap___cxa_guard_acquire(char *g)
	{
		if (sim::my_task >= 0)
			while (__atomic_load_n(g, __ATOMIC_ACQUIRE) == 0 && g[1] != 0) sim::sched_blocked();
		return __real___cxa_guard_acquire(g);
	}
}
