// C05: flat_map (the container of the blocks) against std::map, through arbitrary histories with failing
// allocations and throwing handlers.
#include "core.h"
#include "blockTensor/flat_map.h"
#include <algorithm>
#include <memory>
using namespace sim;
namespace
{
// mapped type with a heap payload: copying it can fail, losing it leaks
struct Box
{
	static long live;
	std::unique_ptr<i64> v;
	i64 id() const { return v ? *v : -1; }
	Box() { ++live; }
	explicit Box(i64 x) : v(new i64(x)) { ++live; }
	Box(const Box &o) : v(o.v ? new i64(*o.v) : nullptr) { ++live; }
	Box(Box &&o) noexcept : v(std::move(o.v)) { ++live; }
	Box &operator=(const Box &o)
	{
		if (this != &o) v.reset(o.v ? new i64(*o.v) : nullptr);
		return *this;
	}
	Box &operator=(Box &&o) noexcept
	{
		v = std::move(o.v);
		return *this;
	}
	~Box() { --live; }
	bool operator==(const Box &o) const { return id() == o.id(); }
};
long Box::live = 0;
struct HandlerFault : std::runtime_error
{
	HandlerFault() : std::runtime_error("[simulated fault] handler") {}
};

template <class K>
K make_key(i64);
template <>
int make_key<int>(i64 k) { return int(k); }
template <>
std::vector<int64_t> make_key<std::vector<int64_t>>(i64 k) { return {k / 4, k % 4}; }
std::string ks(int k) { return std::to_string(k); }
std::string ks(const std::vector<int64_t> &k) { return "(" + std::to_string(k[0]) + "," + std::to_string(k[1]) + ")"; }

constexpr int POOL = 3;
template <class K>
struct Engine
{
	using Map = quantit::flat_map<K, Box>;
	using Model = std::map<K, i64>;
	const Plan &p;
	Ctx &c;
	Map m[POOL];
	Model r[POOL];
	i64 next_value = 1000;
	std::string now;

	static std::string show(const Model &x)
	{
		std::string s = "{";
		for (auto &kv : x) s += ks(kv.first) + ":" + std::to_string(kv.second) + " ";
		return s + "}";
	}
	static std::string show(const Map &x)
	{
		std::string s = "{";
		for (auto it = x.begin(); it != x.end(); ++it) s += ks(it->first) + ":" + std::to_string(it->second.id()) + " ";
		return s + "}";
	}
	bool valid(const Map &x)
	{
		for (auto it = x.begin(); it != x.end(); ++it)
		{
			if constexpr (!std::is_same_v<K, int>)
				if (it->first.size() != 2) return false;
			auto n = it;
			++n;
			if (n != x.end() && !(it->first < n->first)) return false;
		}
		return true;
	}
	bool same(const Map &x, const Model &y)
	{
		if (x.size() != y.size()) return false;
		auto it = x.begin();
		for (auto &kv : y)
		{
			if (it->first != kv.first || it->second.id() != kv.second) return false;
			++it;
		}
		return it == x.end();
	}
	void compare_all()
	{
		for (int i = 0; i < POOL; ++i)
		{
			if (!same(m[i], r[i])) c.fail("C05:content", now + ": map " + std::to_string(i) + " holds " + show(m[i]) + " expected " + show(r[i]));
			if (m[i].empty() != r[i].empty()) c.fail("C05:empty", now);
		}
	}
	void sync(int i)
	{
		r[i].clear();
		for (auto it = m[i].begin(); it != m[i].end(); ++it) r[i][it->first] = it->second.id();
	}
	// handlers
	long hcalls = 0, hfail = 0;
	std::vector<std::pair<i64, i64>> coll;
	std::vector<i64> nocoll;
	void htick()
	{
		++hcalls;
		if (hfail && hcalls == hfail)
		{
			hfail = 0;
			throw HandlerFault();
		}
	}

	// body(target map, source map): the operation on clones first (counting events), then for real, possibly failing
	template <class F>
	Outcome perform(const Step &s, int a, int b, F body)
	{
		long at = 0;
		char kind = s.fk;
		if (kind != '-')
		{
			Map ca(m[a]), cb(m[b]);
			Map &rb = a == b ? ca : cb;
			hcalls = 0;
			hfail = 0;
			arm('-', 0);
			body(ca, rb);
			disarm();
			long n = kind == 'c' ? hcalls : event_counts().of(kind);
			at = fault_at(s.fn, n);
			if (at == 0) kind = '-';
		}
		coll.clear();
		nocoll.clear();
		hcalls = 0;
		hfail = kind == 'c' ? at : 0;
		bool fail_armed = hfail != 0;
		std::string what;
		Outcome o = attempt(kind, kind == 'c' ? 0 : at, [&] { body(m[a], m[b]); }, &what);
		if (o == Outcome::other && kind == 'c' && what.find("handler") != std::string::npos) o = Outcome::injected;
		if (o == Outcome::other) c.fail("C05:exception", now + " threw " + what);
		if (o == Outcome::injected)
		{
			c.probe(std::string("fault.") + (kind == 'n' ? "allocation" : "callback"));
			c.probe("nontrivial");
		}
		else if (kind == 'c' ? fail_armed && hfail == 0 : kind != '-' && fault_fired())
			c.fail("C05:swallowed", now + ": a failure inside the operation was swallowed");
		return o;
	}
	// after a failed operation on map a with source keys
	void after_fault(int a, const Model &own, const Model &src, bool strong)
	{
		if (!valid(m[a])) c.fail("C05:invalid-after-failure", now + ": failed operation left " + show(m[a]));
		std::set<K> keys;
		for (auto it = m[a].begin(); it != m[a].end(); ++it)
		{
			keys.insert(it->first);
			if (!own.count(it->first) && !src.count(it->first)) c.fail("C05:foreign-key", now + ": failed operation invented " + ks(it->first) + " in " + show(m[a]));
			if (it->second.id() < 0 && !(own.count(it->first) && own.at(it->first) < 0)) c.fail("C05:lost-value", now + ": failed operation left an empty value in " + show(m[a]));
		}
		for (auto &kv : own)
			if (!keys.count(kv.first)) c.fail("C05:lost-key", now + ": failed operation lost " + ks(kv.first) + ", map is " + show(m[a]) + " was " + show(own));
		if (strong && !same(m[a], own)) c.fail("C05:changed-after-failure", now + ": map is " + show(m[a]) + " was " + show(own));
		sync(a);
	}
	K key(const Step &s, size_t i) { return make_key<K>(((s.arg(i) % 24) + 24) % 24); }

	void step(const Step &s)
	{
		int a = int(((s.arg(0) % POOL) + POOL) % POOL);
		K k = key(s, 1);
		int b = int(((s.arg(2) % POOL) + POOL) % POOL);
		i64 v = next_value++;
		now = s.op + " on map " + std::to_string(a) + " key " + ks(k);
		set_label(now);
		Model own = r[a];
		bool had = own.count(k);
		auto expect_pos = [&](typename Map::iterator it, bool success, bool expect_success) {
			if (success != expect_success) c.fail("C05:report", now + ": reported " + (success ? "inserted" : "present"));
			if (it == m[a].end() || it->first != k) c.fail("C05:position", now + ": returned a wrong position");
		};
		auto hint = [&](Map &x) {
			size_t n = x.size() + 1;
			return typename Map::const_iterator(x.begin() + std::ptrdiff_t(size_t(s.arg(3) < 0 ? -s.arg(3) : s.arg(3)) % n));
		};
		const std::string &op = s.op;
		auto single = [&](auto f, bool assigns) {
			Outcome o = perform(s, a, a, [&](Map &x, Map &) { f(x); });
			if (o == Outcome::ok)
			{
				if (!had || assigns) r[a][k] = v;
			}
			else
				after_fault(a, own, {{k, v}}, true);
			return o;
		};
		if (op == "ins")
		{
			std::pair<typename Map::iterator, bool> ret;
			Outcome o = single([&](Map &x) { std::pair<K, Box> e(k, Box(v)); ret = x.insert(static_cast<const std::pair<K, Box> &>(e)); }, false);
			if (o == Outcome::ok) expect_pos(ret.first, ret.second, !had);
		}
		else if (op == "insm")
		{
			std::pair<typename Map::iterator, bool> ret;
			Outcome o = single([&](Map &x) { ret = x.insert(std::pair<K, Box>(k, Box(v))); }, false);
			if (o == Outcome::ok) expect_pos(ret.first, ret.second, !had);
		}
		else if (op == "hins" || op == "hinsm")
		{
			typename Map::iterator ret;
			Outcome o = single(
			    [&](Map &x)
			    {
				    std::pair<K, Box> e(k, Box(v));
				    if (op == "hins") ret = x.insert(hint(x), static_cast<const std::pair<K, Box> &>(e));
				    else ret = x.insert(hint(x), std::move(e));
			    },
			    false);
			if (o == Outcome::ok) expect_pos(ret, !had, !had);
		}
		else if (op == "hemp")
		{
			Outcome o = single([&](Map &x) { x.emplace(hint(x), k, Box(v)); }, false);
			(void)o;
		}
		else if (op == "idx")
		{
			Outcome o = perform(s, a, a, [&](Map &x, Map &) { Box t(v); x[k] = std::move(t); });
			if (o == Outcome::ok) r[a][k] = v;
			else
			{
				after_fault(a, own, {{k, v}}, true);
			}
		}
		else if (op == "look")
		{
			const Map &cm = m[a];
			auto it = m[a].find(k);
			auto cit = cm.find(k);
			if ((it != m[a].end()) != had || (cit != cm.end()) != had) c.fail("C05:find", now);
			if (had && (it->first != k || it->second.id() != own[k] || cit->second.id() != own[k])) c.fail("C05:find", now + " found another element");
			if (cm.count(k) != size_t(had) || cm.contains(k) != had) c.fail("C05:count", now);
			bool thrown = false;
			i64 got = -2;
			try
			{
				got = cm.at(k).id();
			}
			catch (std::out_of_range &)
			{
				thrown = true;
			}
			if (thrown == had || (had && got != own[k])) c.fail("C05:at", now);
			auto er = m[a].equal_range(k);
			if ((er.second - er.first) != (had ? 1 : 0)) c.fail("C05:equal_range", now);
			if (had && er.first->first != k) c.fail("C05:equal_range", now);
			auto same_pos = [&](auto pos, typename Model::iterator want) {
				if (want == r[a].end()) return pos == m[a].end();
				return pos != m[a].end() && pos->first == want->first;
			};
			if (!same_pos(m[a].lower_bound(k), r[a].lower_bound(k))) c.fail("C05:lower_bound", now);
			if (!same_pos(m[a].upper_bound(k), r[a].upper_bound(k))) c.fail("C05:upper_bound", now);
			c.probe("lookups");
		}
		else if (op == "walk")
		{
			std::vector<std::pair<K, i64>> f, g;
			for (auto &x : m[a]) f.emplace_back(x.first, x.second.id());
			for (auto it = m[a].rbegin(); it != m[a].rend(); ++it) g.emplace_back(it->first, it->second.id());
			std::reverse(g.begin(), g.end());
			std::vector<std::pair<K, i64>> want(own.begin(), own.end());
			if (f != want || g != want) c.fail("C05:iteration", now);
			Map copy(m[a]);
			if (!(copy == m[a])) c.fail("C05:equality", now + ": a copy compares different");
			if (!copy.empty())
			{
				copy.begin()->second = Box(v);
				if (copy == m[a]) c.fail("C05:equality", now + ": a changed copy compares equal");
			}
			if (!same(m[a], own)) c.fail("C05:shared-copy", now + ": changing a copy changed the original");
		}
		else if (op == "erk")
		{
			size_t n = 99;
			Outcome o = perform(s, a, a, [&](Map &x, Map &) { n = x.erase(k); });
			if (o == Outcome::ok)
			{
				if (n != size_t(had)) c.fail("C05:erase", now + ": reported " + std::to_string(n));
				r[a].erase(k);
			}
			else after_fault(a, own, {}, true);
		}
		else if (op == "erit")
		{
			if (own.empty()) return;
			size_t i = size_t(s.arg(3) < 0 ? -s.arg(3) : s.arg(3)) % own.size();
			auto mi = r[a].begin();
			std::advance(mi, i);
			mi = r[a].erase(mi);
			auto it = m[a].erase(m[a].begin() + std::ptrdiff_t(i));
			if ((it == m[a].end()) != (mi == r[a].end()) || (mi != r[a].end() && it->first != mi->first)) c.fail("C05:erase", now + ": wrong position returned");
		}
		else if (op == "errange")
		{
			size_t n = own.size();
			size_t i = size_t(s.arg(3) < 0 ? -s.arg(3) : s.arg(3)) % (n + 1);
			size_t j = i + size_t(s.arg(4) < 0 ? -s.arg(4) : s.arg(4)) % (n - i + 1);
			auto x = r[a].begin(), y = r[a].begin();
			std::advance(x, i);
			std::advance(y, j);
			r[a].erase(x, y);
			m[a].erase(typename Map::const_iterator(m[a].begin() + std::ptrdiff_t(i)), typename Map::const_iterator(m[a].begin() + std::ptrdiff_t(j)));
		}
		else if (op == "merge" || op == "mergeh" || op == "mergehn" || op == "insr" || op == "insrh" || op == "insrhn" || op == "mergemhn" || op == "mergemh")
		{
			if (a == b && op.find("mergem") == 0) return;
			Model src = r[b];
			bool h = op.back() == 'h' || op.find("hn") != std::string::npos;
			bool hn = op.find("hn") != std::string::npos;
			auto ch = [&](Box &x, const Box &y) {
				htick();
				coll.emplace_back(x.id(), y.id());
				if (x.v && y.v) *x.v += 1000000 * (y.id() % 1000 + 1);
			};
			auto nh = [&](Box &x) {
				htick();
				nocoll.push_back(x.id());
				if (x.v) *x.v += 500;
			};
			Outcome o = perform(s, a, b,
			                    [&](Map &x, Map &y)
			                    {
				                    if (op == "merge") x.merge(y);
				                    else if (op == "mergeh") x.merge(y, ch);
				                    else if (op == "mergehn") x.merge(y, ch, nh);
				                    else if (op == "mergemh") x.merge(std::move(y), ch);
				                    else if (op == "mergemhn") x.merge(std::move(y), ch, nh);
				                    else if (op == "insr") x.insert(typename Map::const_iterator(y.begin()), typename Map::const_iterator(y.end()));
				                    else if (op == "insrh") x.insert(typename Map::const_iterator(y.begin()), typename Map::const_iterator(y.end()), ch);
				                    else x.insert(typename Map::const_iterator(y.begin()), typename Map::const_iterator(y.end()), ch, nh);
			                    });
			bool moved = op.find("mergem") == 0;
			if (o == Outcome::ok)
			{
				std::vector<std::pair<i64, i64>> wc;
				std::vector<i64> wn;
				Model res = own;
				for (auto &kv : src)
				{
					auto it = res.find(kv.first);
					if (it != res.end())
					{
						wc.emplace_back(it->second, kv.second);
						if (h) it->second += (a == b ? 1000000 * (kv.second % 1000 + 1) : 1000000 * (kv.second % 1000 + 1));
					}
					else
					{
						wn.push_back(kv.second);
						res[kv.first] = kv.second + (hn ? 500 : 0);
					}
				}
				std::sort(wc.begin(), wc.end());
				std::sort(wn.begin(), wn.end());
				std::sort(coll.begin(), coll.end());
				std::sort(nocoll.begin(), nocoll.end());
				if (h && coll != wc) c.fail("C05:collision-handler", now + " with " + show(src) + " into " + show(own) + ": " + std::to_string(coll.size()) + " collision calls instead of " + std::to_string(wc.size()) + " or on wrong elements");
				if (hn && nocoll != wn) c.fail("C05:nocollision-handler", now + " with " + show(src) + " into " + show(own) + ": handler called for " + std::to_string(nocoll.size()) + " elements instead of the " + std::to_string(wn.size()) + " added ones");
				r[a] = res;
				if (wc.size() && wn.size()) c.probe("merge.mixed"), c.probe("nontrivial");
				if (moved)
				{
					m[b].clear(); // moved from: only required to be reusable
					r[b].clear();
				}
			}
			else
			{
				after_fault(a, own, src, false);
				if (moved)
				{
					if (!valid(m[b])) c.fail("C05:invalid-after-failure", now + ": source of a failed merge is " + show(m[b]));
					m[b].clear();
					r[b].clear();
				}
				else if (a != b && !same(m[b], src)) c.fail("C05:source-changed", now);
			}
		}
		else if (op == "insu")
		{
			// unsorted list with duplicates
			std::vector<std::pair<K, Box>> list;
			std::vector<std::pair<K, i64>> ml;
			u64 z = u64(s.arg(3));
			size_t n = z % 30;
			for (size_t i = 0; i < n; ++i)
			{
				z = mix64(z);
				K kk = make_key<K>(i64(z % 24));
				list.emplace_back(kk, Box(v + i64(i) * 7));
				ml.emplace_back(kk, v + i64(i) * 7);
			}
			next_value += 7 * i64(n);
			Model src;
			for (auto &x : ml) src.emplace(x.first, x.second);
			long wantc = 0;
			Model res = own;
			for (auto &x : ml)
				if (!res.emplace(x.first, x.second).second) ++wantc;
			long got = 0;
			Outcome o = perform(s, a, a,
			                    [&](Map &x, Map &)
			                    {
				                    got = 0;
				                    x.insert(list.begin(), list.end(),
				                             [&](auto &, auto &)
				                             {
					                             htick();
					                             ++got;
				                             });
			                    });
			if (o == Outcome::ok)
			{
				if (got != wantc) c.fail("C05:collision-handler", now + ": " + std::to_string(got) + " collision calls instead of " + std::to_string(wantc));
				// an element already present stays; among new duplicates any of them may win
				if (!valid(m[a]) || m[a].size() != res.size()) c.fail("C05:content", now + ": holds " + show(m[a]) + " expected the keys of " + show(res));
				for (auto it = m[a].begin(); it != m[a].end(); ++it)
				{
					if (!res.count(it->first)) c.fail("C05:content", now + ": unexpected key");
					i64 id = it->second.id();
					if (own.count(it->first) ? id != own[it->first] : std::none_of(ml.begin(), ml.end(), [&](auto &x) { return x.first == it->first && x.second == id; }))
						c.fail("C05:content", now + ": key " + ks(it->first) + " holds " + std::to_string(id) + " in " + show(m[a]) + ", before " + show(own));
				}
				sync(a);
				c.probe("nontrivial");
			}
			else
				after_fault(a, own, src, false);
		}
		else if (op == "ctor")
		{
			std::vector<std::pair<K, Box>> list;
			std::set<K> used;
			u64 z = u64(s.arg(3));
			size_t n = z % 24;
			Model res;
			for (size_t i = 0; i < n; ++i)
			{
				z = mix64(z);
				K kk = make_key<K>(i64(z % 24));
				if (!used.insert(kk).second) continue;
				list.emplace_back(kk, Box(v + i64(i)));
				res[kk] = v + i64(i);
			}
			next_value += i64(n);
			Outcome o = perform(s, a, a,
			                    [&](Map &x, Map &)
			                    {
				                    if (s.arg(4) & 1) x = Map(list.begin(), list.end());
				                    else if (s.arg(4) & 2) x = Map(static_cast<const std::vector<std::pair<K, Box>> &>(list));
				                    else
				                    {
					                    auto l2 = list;
					                    x = Map(std::move(l2));
				                    }
			                    });
			if (o == Outcome::ok) r[a] = res;
			else after_fault(a, own, {}, true);
		}
		else if (op == "copy")
		{
			Outcome o = perform(s, a, b, [&](Map &x, Map &y) { x = static_cast<const Map &>(y); });
			if (o == Outcome::ok) r[a] = r[b];
			else
			{
				// assignment: either content, possibly partial, but a valid map
				if (!valid(m[a])) c.fail("C05:invalid-after-failure", now + " (assignment) left " + show(m[a]));
				if (a != b && !same(m[b], r[b])) c.fail("C05:source-changed", now);
				m[a].clear();
				r[a].clear();
			}
		}
		else if (op == "cctor")
		{
			Outcome o = perform(s, a, b, [&](Map &x, Map &y) { Map t(static_cast<const Map &>(y)); x = std::move(t); });
			if (o == Outcome::ok) r[a] = r[b];
			else after_fault(a, own, {}, true);
		}
		else if (op == "move")
		{
			if (a == b) return;
			m[a] = std::move(m[b]);
			r[a] = r[b];
			m[b].clear();
			r[b].clear();
		}
		else if (op == "swap")
		{
			if (a == b) return;
			m[a].swap(m[b]);
			std::swap(r[a], r[b]);
		}
		else if (op == "clear")
		{
			m[a].clear();
			r[a].clear();
		}
		else if (op == "reserve")
		{
			Outcome o = perform(s, a, a, [&](Map &x, Map &) { x.reserve(size_t(s.arg(3) & 63)); });
			if (o == Outcome::injected) after_fault(a, own, {}, true);
		}
		else if (op == "shrink")
		{
			Outcome o = attempt('-', 0, [&] { m[a].shrink_to_fit(); });
			(void)o;
		}
	}
	void run()
	{
		for (auto &s : p.steps)
		{
			step(s);
			compare_all();
			long want = 0;
			for (int i = 0; i < POOL; ++i) want += long(m[i].size());
			if (Box::live != want) c.fail("C05:leak", now + ": " + std::to_string(Box::live) + " values alive, maps hold " + std::to_string(want));
			for (int i = 0; i < POOL; ++i)
				for (auto it = m[i].begin(); it != m[i].end(); ++it) c.fold(u64(it->second.id()));
			c.log(now + " -> " + (c.trace ? show(m[0]) + show(m[1]) + show(m[2]) : std::string()));
			c.probe("ops");
		}
	}
};

void gen(Rng &g, Plan &p, bool thorough)
{
	p.cfg["veckey"] = g.below(2);
	static const char *ops[] = {"ins", "insm", "hins", "hinsm", "hemp", "idx", "look", "walk", "erk", "erk", "erit", "errange", "merge", "mergeh", "mergehn", "mergehn", "mergehn", "mergemhn", "mergemh", "insr", "insrh", "insrhn", "insu", "insu", "ctor", "copy", "cctor", "move", "swap", "clear", "reserve", "shrink"};
	int n = thorough ? 20 + int(g.below(200)) : 15 + int(g.below(60));
	double pf = g.chance(0.3) ? 0 : 0.1 + 0.4 * g.unit();
	// swarm: each run uses a random subset of the operations
	std::vector<const char *> sub;
	for (auto o : ops)
		if (g.chance(0.6)) sub.push_back(o);
	if (sub.empty()) sub.push_back("ins");
	sub.push_back("ctor");
	for (int i = 0; i < n; ++i)
	{
		Step s;
		s.op = i < 3 ? "ctor" : sub[size_t(g.below(i64(sub.size())))];
		if (g.chance(0.25) && i >= 3) s.op = "ins";
		s.a = {i < 3 ? i : g.below(POOL), g.below(24), g.below(POOL), g.below(1 << 20), g.below(64)};
		if (g.chance(pf))
		{
			s.fk = g.chance(0.35) ? 'c' : 'n';
			s.fn = g.below(1000000);
		}
		p.steps.push_back(s);
	}
}
void run(const Plan &p, Ctx &c)
{
	if (p.get("veckey"))
	{
		track_begin();
		{
			Engine<std::vector<int64_t>> e{p, c};
			e.run();
		}
	}
	else
	{
		Engine<int> e{p, c};
		e.run();
	}
	c.check(Box::live == 0, "C05:leak", "values alive after all maps are gone");
}
Register reg(Workload{"C05", gen, run, 24000, 400000, "quantit::flat_map (all members reached by the operation list), libstdc++ containers", "operator new (fails on command), the mapped type (a counted heap cell), user handlers",
                      "distinct hashes of the whole observed history of a run; non-trivial: the run contained a merge with both collisions and additions, an unsorted insertion or an injected failure"});
} // namespace
