// Runner: generates plans, executes each in a forked child of a warmed-up process, aggregates, minimises.
#include "core.h"
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <poll.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

namespace sim
{
extern void (*g_on_budget)();
extern const char *g_abort_reason;
__attribute__((weak)) void warmup();
__attribute__((weak)) void torch_seams_init();
}
using namespace sim;

static double wall()
{
	timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + 1e-9 * t.tv_nsec;
}
struct Shared
{
	char label[256];
	char why[256];
};
static Shared *g_sh = nullptr;

struct Result
{
	u64 hash = 0;
	std::string cls, msg; // empty: no violation
	bool foreign = false; // a violation of another property than the one under check: the run is only cut short
	std::map<std::string, long> count;
	double sim_seconds = 0;
	double wall_s = 0;
};

static void on_signal(int s)
{
	const char *n = s == SIGABRT && g_abort_reason ? g_abort_reason : s == SIGSEGV ? "segmentation fault" : s == SIGABRT ? "abort" : s == SIGFPE ? "arithmetic trap" : s == SIGBUS ? "bus error" : "illegal instruction";
	strncpy(g_sh->label, label(), 255);
	if (!g_sh->why[0]) strncpy(g_sh->why, n, 255);
	_exit(77);
}
static void on_terminate()
{
	const char *w = "std::terminate called";
	strncpy(g_sh->label, label(), 255);
	if (!g_sh->why[0]) strncpy(g_sh->why, w, 255);
	_exit(77);
}
static void on_budget()
{
	strncpy(g_sh->label, label(), 255);
	strncpy(g_sh->why, "no end within the step budget (hang)", 255);
	_exit(77);
}
static const Workload &find(const std::string &p)
{
	for (auto &w : workloads())
		if (p == w.prop) return w;
	fprintf(stderr, "unknown property %s\n", p.c_str());
	exit(2);
}
static std::string one_line(std::string s, size_t cap = 600)
{
	for (auto &c : s)
		if (c == '\n' || c == '\r') c = ' ';
	if (s.size() > cap) s = s.substr(0, cap) + "...";
	return s;
}
static void write_all(int fd, const std::string &s)
{
	size_t o = 0;
	while (o < s.size())
	{
		ssize_t n = write(fd, s.data() + o, s.size() - o);
		if (n <= 0) _exit(78);
		o += size_t(n);
	}
}
// executes the plan in a forked child
static Result execute(const Plan &p, bool trace, double timeout = 100)
{
	const Workload &w = find(p.prop);
	memset(g_sh, 0, sizeof *g_sh);
	int fd[2];
	if (pipe(fd)) abort();
	fflush(stdout);
	double t0 = wall();
	pid_t pid = fork();
	if (pid == 0)
	{
		close(fd[0]);
		rlimit nocore{0, 0};
		setrlimit(RLIMIT_CORE, &nocore);
		static char alt[1 << 16];
		stack_t ss{};
		ss.ss_sp = alt;
		ss.ss_size = sizeof alt;
		sigaltstack(&ss, nullptr);
		struct sigaction sa{};
		sa.sa_handler = on_signal;
		sa.sa_flags = SA_ONSTACK;
		for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(s, &sa, nullptr);
		std::set_terminate(on_terminate);
		g_on_budget = on_budget;
		reset_seams();
		set_step_budget(400000000);
		Ctx c;
		c.trace = trace;
		std::string cls, msg;
		try
		{
			w.run(p, c);
		}
		catch (Violation &v)
		{
			cls = v.cls;
			msg = v.msg;
		}
		catch (std::exception &e)
		{
			cls = p.prop + ":exception";
			msg = std::string("while ") + label() + ": " + e.what();
		}
		catch (...)
		{
			cls = p.prop + ":exception";
			msg = std::string("while ") + label() + ": unknown exception";
		}
		disarm();
		reset_seams();
		c.fold(cls);
		std::ostringstream o;
		o << "hash " << c.hash << "\n";
		if (!cls.empty()) o << "cls " << one_line(cls) << "\nmsg " << one_line(msg) << "\n";
		o << "sim " << c.sim_seconds << "\n";
		for (auto &kv : c.count) o << "n " << kv.second << " " << kv.first << "\n";
		write_all(fd[1], o.str());
		_exit(0);
	}
	close(fd[1]);
	std::string buf;
	bool timed_out = false;
	char b[4096];
	while (true)
	{
		pollfd pf{fd[0], POLLIN, 0};
		double left = timeout - (wall() - t0);
		if (left <= 0)
		{
			timed_out = true;
			kill(pid, SIGKILL);
			break;
		}
		int r = poll(&pf, 1, int(left * 1000) + 1);
		if (r <= 0) continue;
		ssize_t n = read(fd[0], b, sizeof b);
		if (n <= 0) break;
		buf.append(b, size_t(n));
	}
	close(fd[0]);
	int st = 0;
	waitpid(pid, &st, 0);
	Result r;
	r.wall_s = wall() - t0;
	if (timed_out)
	{
		r.cls = "harness:timeout";
		r.msg = "run exceeded the wall clock safety limit";
		return r;
	}
	if (WIFEXITED(st) && WEXITSTATUS(st) == 77)
	{
		r.cls = p.prop + ":crash";
		r.msg = std::string(g_sh->why) + " while " + g_sh->label;
		r.hash = mix64(std::hash<std::string>()(r.msg));
		return r;
	}
	if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
	{
		r.cls = "harness:child";
		r.msg = "child ended with status " + std::to_string(st);
		return r;
	}
	std::istringstream in(buf);
	std::string line;
	while (std::getline(in, line))
	{
		std::istringstream l(line);
		std::string k;
		l >> k;
		if (k == "hash") l >> r.hash;
		else if (k == "cls") r.cls = line.substr(4);
		else if (k == "msg") r.msg = line.substr(4);
		else if (k == "sim") l >> r.sim_seconds;
		else if (k == "n")
		{
			long v;
			std::string key;
			l >> v;
			std::getline(l, key);
			r.count[key.substr(1)] = v;
		}
	}
	if (!r.cls.empty() && r.cls.compare(0, p.prop.size() + 1, p.prop + ":") != 0 && r.cls.compare(0, 8, "harness:") != 0) r.foreign = true;
	return r;
}
static Plan generate(const Workload &w, u64 seed, bool thorough)
{
	Plan p;
	p.prop = w.prop;
	p.seed = seed;
	u64 h = seed;
	for (const char *c = w.prop; *c; ++c) h = mix64(h ^ u64(*c));
	Rng r(h);
	w.gen(r, p, thorough);
	return p;
}
static std::string slurp(const char *f)
{
	std::ifstream i(f);
	std::stringstream s;
	s << i.rdbuf();
	return s.str();
}
static std::string jstr(const std::string &s)
{
	std::string o = "\"";
	for (char c : s)
	{
		if (c == '"' || c == '\\') o += '\\';
		if (c == '\n') o += "\\n";
		else if (c == '\t') o += "\\t";
		else if ((unsigned char)c < 32) o += ' ';
		else o += c;
	}
	return o + "\"";
}

static int cmd_run(int argc, char **argv)
{
	bool v = argc > 3 && !strcmp(argv[3], "-v");
	Plan p = Plan::parse(slurp(argv[2]));
	Result r = execute(p, v);
	printf("hash %016llx\n", (unsigned long long)r.hash);
	if (v)
		for (auto &kv : r.count) printf("count %s %ld\n", kv.first.c_str(), kv.second);
	if (r.cls.empty())
	{
		printf("held\n");
		return 0;
	}
	printf("%s %s\n%s\n", r.foreign ? "other-property" : "violated", r.cls.c_str(), r.msg.c_str());
	return r.cls.compare(0, 8, "harness:") == 0 ? 3 : r.foreign ? 4 : 1;
}

static int cmd_batch(int argc, char **argv)
{
	// batch prop seed0 nruns workers timecap thorough outdir
	const Workload &w = find(argv[2]);
	u64 seed0 = strtoull(argv[3], nullptr, 10);
	long nruns = atol(argv[4]);
	int W = atoi(argv[5]);
	double cap = atof(argv[6]);
	bool thorough = atoi(argv[7]);
	std::string out = argv[8];
	if (nruns <= 0) nruns = thorough ? w.thorough_runs : w.quick_runs;
	double t0 = wall();
	std::vector<pid_t> kids;
	for (int k = 0; k < W; ++k)
	{
		pid_t pid = fork();
		if (pid == 0)
		{
			g_sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
			std::ofstream f(out + "/w" + std::to_string(k));
			std::map<std::string, long> total;
			long done = 0, viol = 0, foreign = 0, trouble = 0;
			double sims = 0, slow = 0;
			u64 acc = 0, slow_seed = 0;
			std::map<std::string, int> seen;
			for (long i = k; i < nruns; i += W)
			{
				if (wall() - t0 > cap) break;
				u64 seed = mix64(seed0 * 1000003ull + u64(i)) >> 1;
				Plan p = generate(w, seed, thorough);
				Result r = execute(p, false);
				++done;
				acc ^= mix64(r.hash + mix64(u64(i)));
				sims += r.sim_seconds;
				if (r.wall_s > slow) slow = r.wall_s, slow_seed = seed;
				for (auto &kv : r.count) total[kv.first] += kv.second;
				f << "h " << i << " " << r.hash << " " << (r.count.count("nontrivial") ? 1 : 0) << "\n";
				if (!r.cls.empty())
				{
					if (r.foreign) ++foreign;
					else if (r.cls.compare(0, 8, "harness:") == 0) ++trouble;
					else ++viol;
					if (seen[r.cls]++ < 3) f << "v " << (r.foreign ? 1 : 0) << " " << seed << "\t" << r.cls << "\t" << r.msg << "\n";
					if (seen[r.cls] > 40) { break; } // enough evidence
				}
			}
			f << "done " << done << " " << viol << " " << foreign << " " << trouble << " " << acc << " " << sims << " " << slow << " " << slow_seed << "\n";
			for (auto &kv : total) f << "n " << kv.second << " " << kv.first << "\n";
			f.close();
			_exit(0);
		}
		kids.push_back(pid);
	}
	for (auto pid : kids) waitpid(pid, nullptr, 0);
	// merge
	std::unordered_set<u64> distinct, distinct_nt;
	long done = 0, viol = 0, foreign = 0, trouble = 0;
	double sims = 0, slow = 0;
	u64 acc = 0, slow_seed = 0;
	std::map<std::string, long> total;
	std::vector<std::string> vs;
	for (int k = 0; k < W; ++k)
	{
		std::ifstream f(out + "/w" + std::to_string(k));
		std::string line;
		while (std::getline(f, line))
		{
			std::istringstream l(line);
			std::string t;
			l >> t;
			if (t == "h")
			{
				long i;
				u64 h;
				int nt;
				l >> i >> h >> nt;
				distinct.insert(h);
				if (nt) distinct_nt.insert(h);
			}
			else if (t == "v") vs.push_back(line.substr(2));
			else if (t == "n")
			{
				long v;
				std::string key;
				l >> v;
				std::getline(l, key);
				total[key.substr(1)] += v;
			}
			else if (t == "done")
			{
				long a, b, c, d;
				u64 x, ss;
				double s, sl;
				l >> a >> b >> c >> d >> x >> s >> sl >> ss;
				done += a;
				viol += b;
				foreign += c;
				trouble += d;
				acc ^= x;
				sims += s;
				if (sl > slow) slow = sl, slow_seed = ss;
			}
		}
	}
	long cov = 0;
	for (int i = 0; i < 65536; ++i) cov += g_cov[i] != 0;
	std::sort(vs.begin(), vs.end());
	std::ofstream j(out + "/batch.json");
	j << "{\"runs\":" << done << ",\"wanted\":" << nruns << ",\"violations\":" << viol << ",\"foreign\":" << foreign << ",\"trouble\":" << trouble
	  << ",\"distinct\":" << distinct.size() << ",\"distinct_nontrivial\":" << distinct_nt.size() << ",\"acc\":\"" << acc << "\",\"sim_seconds\":" << sims << ",\"slowest\":" << slow
	  << ",\"slowest_seed\":\"" << slow_seed << "\",\"wall\":" << wall() - t0 << ",\"cov\":" << cov << ",\"counts\":{";
	bool first = true;
	for (auto &kv : total)
	{
		j << (first ? "" : ",") << jstr(kv.first) << ":" << kv.second;
		first = false;
	}
	j << "},\"found\":[";
	first = true;
	for (auto &v : vs)
	{
		j << (first ? "" : ",") << jstr(v);
		first = false;
	}
	j << "],\"real\":" << jstr(w.real_components) << ",\"stubs\":" << jstr(w.stubs) << ",\"rule\":" << jstr(w.rule) << "}\n";
	j.close();
	return done == 0 ? 2 : 0;
}

// ddmin over steps, then over schedule entries, then faults, then single arguments
static int cmd_min(int argc, char **argv)
{
	Plan p = Plan::parse(slurp(argv[2]));
	double cap = argc > 4 ? atof(argv[4]) : 30;
	double t0 = wall();
	Result r0 = execute(p, false);
	if (r0.cls.empty()) return 2;
	std::string cls = r0.cls;
	auto bad = [&](const Plan &q) { return wall() - t0 < cap && execute(q, false).cls == cls; };
	auto ddmin = [&](auto get)
	{
		size_t n = 2;
		while (get(p).size() >= 1 && wall() - t0 < cap)
		{
			size_t sz = get(p).size();
			if (n > sz) n = sz;
			bool ok = false;
			size_t chunk = (sz + n - 1) / n;
			for (size_t i = 0; i < sz && !ok; i += chunk)
			{
				Plan q = p;
				auto &v = get(q);
				v.erase(v.begin() + i, v.begin() + std::min(i + chunk, sz));
				if (bad(q))
				{
					p = q;
					ok = true;
					n = std::max<size_t>(n - 1, 2);
				}
			}
			if (!ok)
			{
				if (chunk == 1) break;
				n = std::min(n * 2, sz);
			}
		}
	};
	ddmin([](Plan &q) -> auto & { return q.sched; });
	ddmin([](Plan &q) -> auto & { return q.steps; });
	ddmin([](Plan &q) -> auto & { return q.sched; });
	for (size_t i = 0; i < p.steps.size(); ++i)
		if (p.steps[i].fk != '-')
		{
			Plan q = p;
			q.steps[i].fk = '-';
			if (bad(q)) p = q;
		}
	for (size_t i = 0; i < p.steps.size(); ++i)
		for (size_t k = 0; k < p.steps[i].a.size(); ++k)
			for (i64 v : {i64(0), i64(1)})
			{
				if (p.steps[i].a[k] == v || (v == 1 && p.steps[i].a[k] == 0)) continue;
				Plan q = p;
				q.steps[i].a[k] = v;
				if (bad(q))
				{
					p = q;
					break;
				}
			}
	std::ofstream(argv[3]) << p.text();
	printf("%s\n", cls.c_str());
	return 0;
}

int main(int argc, char **argv)
{
	if (!getenv("SIM_NOASLR"))
	{
		int old = personality(0xffffffff);
		setenv("SIM_NOASLR", "1", 1);
		setenv("MALLOC_ARENA_MAX", "1", 1);
		setenv("OMP_NUM_THREADS", "1", 1);
		setenv("MKL_NUM_THREADS", "1", 1);
		setenv("MKL_CBWR", "COMPATIBLE", 1);
		if (old != -1) personality(old | ADDR_NO_RANDOMIZE);
		execv("/proc/self/exe", argv);
	}
	if (argc < 2) return 2;
	std::string cmd = argv[1];
	if (cmd == "list")
	{
		for (auto &w : workloads()) printf("%s %ld %ld\n", w.prop, w.quick_runs, w.thorough_runs);
		return 0;
	}
	if (cmd == "gen")
	{
		Plan p = generate(find(argv[2]), strtoull(argv[3], nullptr, 10), argc > 4 && atoi(argv[4]));
		printf("%s", p.text().c_str());
		return 0;
	}
	if (torch_seams_init) torch_seams_init();
	g_sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	g_cov = (unsigned char *)mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (warmup) warmup();
	reset_seams();
	memset(g_cov, 0, 65536);
	if (cmd == "run") return cmd_run(argc, argv);
	if (cmd == "batch") return cmd_batch(argc, argv);
	if (cmd == "min") return cmd_min(argc, argv);
	return 2;
}
