// C06: type-erased conserved quantities and lists of them, against plain vectors, with failing allocations and
// operands of mismatched types.
#include "core.h"
#include "Conserved/Composite/cquantity.h"
#include "Conserved/Composite/quantity_vector.h"
#include <algorithm>
#include <memory>
#include <typeinfo>
using namespace sim;
using namespace quantit;
namespace
{
using Elem = std::vector<int>;
using conserved::C;
using conserved::Z;
// ---- the concrete quantity types of the simulation; modulus 0 stands for Z
struct Type
{
	std::vector<int> mods;
	any_quantity (*make)(const Elem &);
	any_quantity_vector (*from_list)(const std::vector<Elem> &, int how);
	any_quantity_vector (*of_two)(const Elem &, const Elem &);
};
template <class G>
struct Mod;
template <class G>
G comp(int x) { return G(int16_t(x > 32767 ? x - Mod<G>::v : x)); }
template <class... G, size_t... I>
quantity<G...> mk(const Elem &e, std::index_sequence<I...>) { return quantity<G...>(comp<G>(e[I])...); }
template <class... G>
quantity<G...> mkq(const Elem &e) { return mk<G...>(e, std::index_sequence_for<G...>()); }
template <>
struct Mod<Z>
{
	static constexpr int v = 0;
};
template <uint16_t N>
struct Mod<C<N>>
{
	static constexpr int v = N;
};
template <class... G>
Type type()
{
	Type t;
	t.mods = {Mod<G>::v...};
	t.make = [](const Elem &e) { return any_quantity(static_cast<const vquantity &>(mkq<G...>(e))); };
	t.of_two = [](const Elem &a, const Elem &b) { return any_quantity_vector({mkq<G...>(a), mkq<G...>(b)}); };
	t.from_list = [](const std::vector<Elem> &l, int how) {
		quantity_vector<quantity<G...>> v;
		for (auto &e : l) v.push_back(mkq<G...>(e));
		if (how == 1) return any_quantity_vector(std::move(v));
		if (how == 2) return any_quantity_vector(static_cast<const vquantity_vector &>(v));
		return any_quantity_vector(static_cast<vquantity_vector &>(v).clone());
	};
	return t;
}
const std::vector<Type> &types()
{
	static const std::vector<Type> t = {type<Z>(), type<Z, Z>(), type<Z, Z, C<2>>(), type<C<2>, C<3>>(), type<C<6>>(), type<C<2>, C<4>>(), type<Z, Z, Z, C<2>, C<5>>(), type<C<1>>(), type<C<2>, Z>(), type<C<30000>>(), type<C<60000>, C<65534>>()};
	return t;
}
Elem norm(int ty, Elem e)
{
	for (size_t i = 0; i < e.size(); ++i)
	{
		int m = types()[size_t(ty)].mods[i];
		e[i] = m ? ((e[i] % m) + m) % m : int(int16_t(uint16_t(unsigned(e[i]))));
	}
	return e;
}
Elem add(int ty, const Elem &a, const Elem &b)
{
	Elem c = a;
	for (size_t i = 0; i < c.size(); ++i) c[i] += b[i];
	return norm(ty, c);
}
Elem neg(int ty, const Elem &a)
{
	Elem c = a;
	for (auto &x : c) x = -x;
	return norm(ty, c);
}
Elem zero(int ty) { return Elem(types()[size_t(ty)].mods.size(), 0); }
i64 dist2(const Elem &a, const Elem &b)
{
	i64 s = 0;
	for (size_t i = 0; i < a.size(); ++i) s += i64(a[i] - b[i]) * (a[i] - b[i]);
	return s;
}
std::string show(const Elem &e)
{
	std::string s = "[";
	for (size_t i = 0; i < e.size(); ++i) s += (i ? "," : "") + std::to_string(e[i]);
	return s + "]";
}
std::string show(const std::vector<Elem> &l)
{
	std::string s = "{";
	for (auto &e : l) s += show(e) + " ";
	return s + "}";
}
// what an element prints as: the only public way to read its value
Elem read(const vquantity &q)
{
	std::string s = to_string(q);
	Elem e;
	for (size_t i = 0; i < s.size(); ++i)
		if (s[i] == '(') e.push_back(std::atoi(s.c_str() + i + 1));
	return e;
}
std::string kind_of(const vquantity &q)
{
	std::string s = to_string(q), o;
	bool in = false;
	for (char ch : s)
	{
		if (ch == '(') in = true;
		if (!in) o += ch;
		if (ch == ')') in = false;
	}
	return o;
}
const std::string &kind_name(int ty)
{
	static const std::vector<std::string> k = [] {
		std::vector<std::string> v;
		for (auto &t : types()) v.push_back(kind_of(t.make(Elem(t.mods.size(), 0)).get()));
		return v;
	}();
	return k[size_t(ty)];
}
Elem draw(int ty, u64 z)
{
	Elem e;
	for (int m : types()[size_t(ty)].mods)
	{
		z = mix64(z);
		int x;
		switch (z % 8)
		{
		case 0: x = 0; break;
		case 1: x = m ? -m * int(1 + (z >> 8) % 3) : int(i64((z >> 8) % 65535) - 32767); break; // multiples of the modulus
		case 2: x = m ? m * int(1 + (z >> 8) % 3) : int((z >> 8) % 2000) - 1000; break;
		default: x = int((z >> 8) % 9) - 4;
		}
		if (x > 32767) x = 32767;
		if (x < -32767) x = -32767;
		e.push_back(x);
	}
	return e;
}

constexpr int POOL = 3;
struct Engine
{
	const Plan &p;
	Ctx &c;
	struct ML
	{
		bool null = true;
		int ty = 0;
		std::vector<Elem> v;
	};
	struct MQ
	{
		bool moved = false;
		int ty = 7;
		Elem e = {0};
	};
	any_quantity_vector l[POOL];
	any_quantity q[POOL];
	ML ml[POOL];
	MQ mq[POOL];
	std::string now;

	void compare_list(int i)
	{
		const any_quantity_vector &x = l[i];
		auto &m = ml[i];
		if (x.size() != m.v.size() || x.empty() != m.v.empty())
			c.fail("C06:size", now + ": list " + std::to_string(i) + " has " + std::to_string(x.size()) + " elements, expected " + show(m.v));
		for (size_t k = 0; k < m.v.size(); ++k)
		{
			Elem e = read(x[k]);
			if (e != m.v[k]) c.fail("C06:content", now + ": list " + std::to_string(i) + " element " + std::to_string(k) + " is " + show(e) + ", expected " + show(m.v));
			if ((k == 0 && kind_of(x[k]) != kind_name(m.ty))) c.fail("C06:type", now + ": list " + std::to_string(i) + " changed the type of its elements");
		}
	}
	void compare_all()
	{
		for (int i = 0; i < POOL; ++i) compare_list(i);
		for (int i = 0; i < POOL; ++i)
		{
			if (mq[i].moved) continue;
			Elem e = read(q[i].get());
			if (e != mq[i].e || kind_of(q[i].get()) != kind_name(mq[i].ty))
				c.fail("C06:quantity", now + ": quantity " + std::to_string(i) + " is " + to_string(q[i].get()) + ", expected " + show(mq[i].e) + " of type " + std::to_string(mq[i].ty));
		}
	}
	// expect: 0 completes, 1 refused for a type mismatch, 2 out_of_range, 3 refused because the list has no type yet
	template <class F>
	Outcome perform(const Step &s, int la, int qa, int expect, F body)
	{
		char kind = s.fk;
		long at = 0;
		if (kind != '-' && expect == 0)
		{
			any_quantity_vector cl(l[la]);
			any_quantity cq(q[qa]);
			arm('-', 0);
			body(cl, cq);
			disarm();
			at = fault_at(s.fn, event_counts().n);
		}
		if (at == 0) kind = '-';
		std::string what;
		bool bad_cast = false, oor = false, rt = false;
		Outcome o = attempt(kind, at, [&] {
			try
			{
				body(l[la], q[qa]);
			}
			catch (std::bad_cast &)
			{
				bad_cast = true;
				throw;
			}
			catch (std::out_of_range &)
			{
				oor = true;
				throw;
			}
			catch (std::runtime_error &)
			{
				rt = true;
				throw;
			}
		}, &what);
		if (o == Outcome::ok && kind != '-' && fault_fired()) c.fail("C06:swallowed", now + ": a failed allocation was swallowed");
		if (o == Outcome::injected) c.probe("fault.allocation"), c.probe("nontrivial");
		if (o == Outcome::other)
		{
			if (expect == 0) c.fail("C06:exception", now + " threw " + what);
			if (expect == 1 && !bad_cast) c.fail("C06:wrong-exception", now + " threw " + what + " for a mismatch of types");
			if (expect == 2 && !oor) c.fail("C06:wrong-exception", now + " threw " + what + " for an index out of range");
			(void)rt;
			c.probe("refused"), c.probe("nontrivial");
		}
		if (o == Outcome::ok && expect != 0) c.fail("C06:not-refused", now + (expect == 1 ? " mixed two types of quantities" : expect == 2 ? " accepted an index out of range" : " worked on a list without a type"));
		return o;
	}
	// after a failed allocation: the list is valid, and holds nothing but what was or would have been there
	void adopt(int i, const ML &before, const std::vector<Elem> &extra, size_t target)
	{
		const any_quantity_vector &x = l[i];
		std::vector<Elem> got;
		size_t n = x.size();
		if (n < std::min(before.v.size(), target) || n > std::max(before.v.size(), target)) c.fail("C06:after-failure", now + ": the failed operation left " + std::to_string(n) + " elements, there were " + std::to_string(before.v.size()));
		for (size_t k = 0; k < n; ++k)
		{
			Elem e = read(x[k]);
			bool known = std::find(before.v.begin(), before.v.end(), e) != before.v.end() || std::find(extra.begin(), extra.end(), e) != extra.end();
			if (!known) c.fail("C06:after-failure", now + ": the failed operation invented " + show(e));
			got.push_back(e);
		}
		ml[i] = before;
		if (n || !before.v.empty()) ml[i].v = got;
	}
	static size_t pick(i64 v, size_t n) { return n ? size_t((v % i64(n) + i64(n)) % i64(n)) : 0; }

	void step(const Step &s)
	{
		int a = int(pick(s.arg(0), POOL)), b = int(pick(s.arg(1), POOL)), k = int(pick(s.arg(2), POOL)), k2 = int(pick(s.arg(3), POOL));
		u64 z = u64(s.arg(4));
		const std::string &op = s.op;
		now = op + " on list " + std::to_string(a) + " with list " + std::to_string(b) + " quantity " + std::to_string(k);
		set_label(now);
		ML before = ml[a];
		ML &m = ml[a];
		size_t n = m.v.size();
		size_t pos = pick(i64(z >> 3), n + 1), pos2 = pos + pick(i64(z >> 17), n - pos + 1);
		size_t at = pick(i64(z >> 7), n);
		size_t cnt = pick(i64(z >> 11), 9);
		MQ &e = mq[k];
		if (e.moved && op != "qassign" && op != "qmake" && op != "qcopy") // anything else may not touch a moved-from quantity
		{
			q[k] = types()[0].make({1});
			e = MQ{false, 0, {1}};
		}
		// a moved-from or default-constructed list takes the type of the first value pushed
		int mism = (!m.null && m.ty != e.ty) ? 1 : 0;
		auto fin = [&](Outcome o, const std::vector<Elem> &extra, size_t target, auto apply) {
			if (o == Outcome::ok) apply();
			else if (o == Outcome::injected) adopt(a, before, extra, target);
		};
		if (op == "ctor")
		{
			int ty = int(pick(i64(z), types().size()));
			std::vector<Elem> src;
			for (size_t i = 0; i < cnt; ++i) src.push_back(draw(ty, z + i));
			int how = int(pick(i64(z >> 23), 4));
			Outcome o = perform(s, a, k, 0, [&](any_quantity_vector &x, any_quantity &) { x = types()[size_t(ty)].from_list(src, how); });
			fin(o, {}, n, [&] {
				m.null = false;
				m.ty = ty;
				m.v.clear();
				for (auto &y : src) m.v.push_back(norm(ty, y));
			});
		}
		else if (op == "two")
		{
			int ty = int(pick(i64(z), types().size()));
			Elem x1 = draw(ty, z), x2 = draw(ty, z + 1);
			Outcome o = perform(s, a, k, 0, [&](any_quantity_vector &x, any_quantity &) { x = types()[size_t(ty)].of_two(x1, x2); });
			fin(o, {}, n, [&] { m = ML{false, ty, {norm(ty, x1), norm(ty, x2)}}; });
		}
		else if (op == "count")
		{
			Outcome o = perform(s, a, k, 0, [&](any_quantity_vector &x, any_quantity &y) { x = any_quantity_vector(cnt, y); });
			fin(o, {}, n, [&] { m = ML{false, e.ty, std::vector<Elem>(cnt, e.e)}; });
		}
		else if (op == "ilist")
		{
			if (mq[k2].moved) return;
			bool mix = mq[k2].ty != e.ty;
			Outcome o = perform(s, a, k, mix, [&](any_quantity_vector &x, any_quantity &y) { x = any_quantity_vector{y, q[k2], y}; });
			fin(o, {}, n, [&] { m = ML{false, e.ty, {e.e, mq[k2].e, e.e}}; });
		}
		else if (op == "copy" || op == "cctor")
		{
			Outcome o = perform(s, a, k, 0, [&](any_quantity_vector &x, any_quantity &) {
				if (op == "copy") x = static_cast<const any_quantity_vector &>(l[b]);
				else
				{
					any_quantity_vector t(static_cast<const any_quantity_vector &>(l[b]));
					x.swap(t);
				}
			});
			fin(o, {}, n, [&] { m = ml[b]; });
		}
		else if (op == "move")
		{
			if (a == b) return;
			if (z & 1) l[a] = std::move(l[b]);
			else
			{
				any_quantity_vector t(std::move(l[b]));
				swap(t, l[a]);
			}
			m = ml[b];
			ml[b] = ML{};
			l[b] = any_quantity_vector();
		}
		else if (op == "swap")
		{
			l[a].swap(l[b]);
			std::swap(ml[a], ml[b]);
		}
		else if (op == "push")
		{
			Outcome o = perform(s, a, k, mism, [&](any_quantity_vector &x, any_quantity &y) { x.push_back(y); });
			fin(o, {e.e}, n + 1, [&] {
				if (m.null) m = ML{false, e.ty, {}};
				m.v.push_back(e.e);
			});
		}
		else if (op == "self_push" || op == "self_ins1" || op == "self_insn" || op == "self_resize")
		{
			// the value inserted is an element of the list itself
			if (!n) return;
			Elem mine = m.v[at];
			size_t c1 = op == "self_insn" ? cnt : 1, want = op == "self_resize" ? cnt * 3 : n + c1;
			Outcome o = perform(s, a, k, 0, [&](any_quantity_vector &x, any_quantity &) {
				const any_quantity_vector &cx = x;
				if (op == "self_push") x.push_back(cx[at]);
				else if (op == "self_resize") x.resize(cnt * 3, cx[at]);
				else if (op == "self_ins1") x.insert(x.cbegin() + std::ptrdiff_t(pos), cx[at]);
				else x.insert(x.cbegin() + std::ptrdiff_t(pos), c1, cx[at]);
			});
			fin(o, {mine}, want, [&] {
				if (op == "self_resize") m.v.resize(cnt * 3, mine);
				else m.v.insert(m.v.begin() + std::ptrdiff_t(op == "self_push" ? n : pos), c1, mine);
				c.probe("self_insertions");
			});
		}
		else if (op == "self_op" || op == "self_set" || op == "self_swap")
		{
			if (!n) return;
			size_t at2 = pick(i64(z >> 21), n);
			any_quantity_vector &x = l[a];
			if (op == "self_op")
			{
				x[at] *= x[at2];
				m.v[at] = add(m.ty, m.v[at], m.v[at2]);
			}
			else if (op == "self_set")
			{
				x[at] = static_cast<const vquantity &>(x[at2]);
				m.v[at] = m.v[at2];
			}
			else
			{
				any_quantity_ref r = x[at], t = x[at2];
				quantit::swap(r, t);
				std::swap(m.v[at], m.v[at2]);
			}
		}
		else if (op == "pop")
		{
			if (!n) return;
			l[a].pop_back();
			m.v.pop_back();
		}
		else if (op == "ins1" || op == "insn")
		{
			if (m.null) return;
			size_t c1 = op == "ins1" ? 1 : cnt;
			size_t ret = 0;
			Outcome o = perform(s, a, k, mism, [&](any_quantity_vector &x, any_quantity &y) {
				auto it = op == "ins1" ? x.insert(x.cbegin() + std::ptrdiff_t(pos), y) : x.insert(x.cbegin() + std::ptrdiff_t(pos), c1, y);
				ret = size_t(it - x.begin());
			});
			fin(o, {e.e}, n + c1, [&] {
				if (ret != pos) c.fail("C06:position", now + ": insertion at " + std::to_string(pos) + " returned " + std::to_string(ret));
				m.v.insert(m.v.begin() + std::ptrdiff_t(pos), c1, e.e);
			});
		}
		else if (op == "insr" || op == "insrr")
		{
			if (m.null || a == b || ml[b].null) return;
			auto &src = ml[b].v;
			size_t f = pick(i64(z >> 29), src.size() + 1), t = f + pick(i64(z >> 37), src.size() - f + 1);
			size_t ret = 0;
			int mis = ml[b].ty != m.ty;
			Outcome o = perform(s, a, k, mis, [&](any_quantity_vector &x, any_quantity &) {
				const any_quantity_vector &y = l[b];
				any_quantity_vector::iterator it;
				if (op == "insr") it = x.insert(x.cbegin() + std::ptrdiff_t(pos), y.cbegin() + std::ptrdiff_t(f), y.cbegin() + std::ptrdiff_t(t));
				else it = x.insert(x.cbegin() + std::ptrdiff_t(pos), any_quantity_vector::const_reverse_iterator(y.cbegin() + std::ptrdiff_t(t)), any_quantity_vector::const_reverse_iterator(y.cbegin() + std::ptrdiff_t(f)));
				ret = size_t(it - x.begin());
			});
			std::vector<Elem> part(src.begin() + std::ptrdiff_t(f), src.begin() + std::ptrdiff_t(t));
			if (op == "insrr") std::reverse(part.begin(), part.end());
			fin(o, part, n + part.size(), [&] {
				if (ret != pos) c.fail("C06:position", now + ": insertion at " + std::to_string(pos) + " returned " + std::to_string(ret));
				m.v.insert(m.v.begin() + std::ptrdiff_t(pos), part.begin(), part.end());
				c.probe("range_insertions");
			});
		}
		else if (op == "erase1")
		{
			if (!n) return;
			size_t ret = size_t(l[a].erase(l[a].cbegin() + std::ptrdiff_t(at)) - l[a].begin());
			if (ret != at) c.fail("C06:position", now + ": erase returned " + std::to_string(ret));
			m.v.erase(m.v.begin() + std::ptrdiff_t(at));
		}
		else if (op == "erase")
		{
			if (m.null)
			{
				if (l[a].erase(l[a].cbegin(), l[a].cend()) != l[a].end()) c.fail("C06:position", now);
				return;
			}
			size_t ret = size_t(l[a].erase(l[a].cbegin() + std::ptrdiff_t(pos), l[a].cbegin() + std::ptrdiff_t(pos2)) - l[a].begin());
			if (ret != pos) c.fail("C06:position", now + ": erase returned " + std::to_string(ret));
			m.v.erase(m.v.begin() + std::ptrdiff_t(pos), m.v.begin() + std::ptrdiff_t(pos2));
		}
		else if (op == "resize")
		{
			if (m.null) return;
			Outcome o = perform(s, a, k, 0, [&](any_quantity_vector &x, any_quantity &) { x.resize(cnt); });
			fin(o, {zero(m.ty)}, cnt, [&] { m.v.resize(cnt, zero(m.ty)); });
		}
		else if (op == "resizev")
		{
			Outcome o = perform(s, a, k, mism, [&](any_quantity_vector &x, any_quantity &y) { x.resize(cnt, y); });
			fin(o, {e.e}, cnt, [&] {
				if (m.null) m = ML{false, e.ty, {}};
				m.v.resize(cnt, e.e);
			});
		}
		else if (op == "reserve")
		{
			if (m.null) return;
			Outcome o = perform(s, a, k, 0, [&](any_quantity_vector &x, any_quantity &) { x.reserve(cnt * 3); });
			fin(o, {}, n, [&] { if (l[a].capacity() < cnt * 3) c.fail("C06:capacity", now); });
		}
		else if (op == "shrink") l[a].shrink_to_fit();
		else if (op == "clear")
		{
			l[a].clear();
			m.v.clear();
		}
		else if (op == "at")
		{
			size_t i = pick(i64(z >> 5), n + 3);
			if (m.null) return;
			Elem got;
			const any_quantity_vector &cx = l[a];
			Outcome o = perform(s, a, k, i < n ? 0 : 2, [&](any_quantity_vector &, any_quantity &) { got = read((z & 1) ? l[a].at(i) : cx.at(i)); });
			if (o == Outcome::ok && got != m.v[i]) c.fail("C06:at", now);
			if (n)
			{
				if (read(l[a].front()) != m.v.front() || read(cx.front()) != m.v.front() || read(l[a].back()) != m.v.back() || read(cx.back()) != m.v.back()) c.fail("C06:at", now + ": wrong end");
				if (read(*l[a].data()) != m.v.front() || read(l[a][at]) != m.v[at]) c.fail("C06:at", now);
			}
		}
		else if (op == "walk")
		{
			std::vector<Elem> f, g, h, r;
			any_quantity_vector &x = l[a];
			const any_quantity_vector &cx = l[a];
			for (auto &y : x) f.push_back(read(y));
			for (auto &y : cx) g.push_back(read(y));
			for (auto it = x.rbegin(); it != x.rend(); ++it) h.push_back(read(*it));
			for (auto it = cx.rbegin(); it != cx.rend(); ++it) r.push_back(read(*it));
			std::reverse(h.begin(), h.end());
			std::reverse(r.begin(), r.end());
			if (f != m.v || g != m.v || h != m.v || r != m.v) c.fail("C06:iteration", now);
			if (!m.null)
			{
				auto it = x.begin() + std::ptrdiff_t(pos);
				auto jt = cx.begin() + std::ptrdiff_t(pos);
				if (size_t(x.end() - it) != n - pos || size_t(cx.end() - jt) != n - pos) c.fail("C06:iteration", now + ": wrong distance");
				if (pos < n && (read(*it) != m.v[pos] || read(*jt) != m.v[pos] || read(x.begin()[std::ptrdiff_t(pos)]) != m.v[pos])) c.fail("C06:iteration", now + ": jump");
			}
			c.probe("walks");
		}
		else if (op == "sort")
		{
			bool desc = z & 1;
			Outcome o = attempt('-', 0, [&] {
				if (desc) std::sort(l[a].begin(), l[a].end(), [](any_quantity_cref x, any_quantity_cref y) { return x > y; });
				else std::sort(l[a].begin(), l[a].end(), [](any_quantity_cref x, any_quantity_cref y) { return x < y; });
			});
			if (o != Outcome::ok) c.fail("C06:exception", now + " threw");
			if (desc) std::sort(m.v.begin(), m.v.end(), std::greater<Elem>());
			else std::sort(m.v.begin(), m.v.end());
		}
		else if (op == "reverse")
		{
			std::reverse(l[a].begin(), l[a].end());
			std::reverse(m.v.begin(), m.v.end());
		}
		else if (op == "permute")
		{
			if (m.null)
			{
				l[a] = l[b].permute(nullptr, nullptr, {});
				if (ml[b].null && !l[a].empty()) c.fail("C06:permute", now);
				l[a] = any_quantity_vector();
				return;
			}
			// split into consecutive groups and shuffle the groups
			std::vector<int64_t> rep, perm;
			size_t left = n;
			u64 y = z;
			while (left || rep.size() < 2)
			{
				y = mix64(y);
				size_t r = pick(i64(y >> 9), std::min<size_t>(left, 4) + 1);
				rep.push_back(i64(r));
				left -= r;
				if (rep.size() > 30) rep.back() += i64(left), left = 0;
			}
			for (size_t i = 0; i < rep.size(); ++i) perm.push_back(i64(i));
			for (size_t i = rep.size(); i > 1; --i)
			{
				y = mix64(y);
				std::swap(perm[i - 1], perm[y % i]);
			}
			any_quantity_vector res;
			Outcome o = perform(s, a, k, 0, [&](any_quantity_vector &x, any_quantity &) { res = x.permute(perm.data(), perm.data() + perm.size(), rep); });
			if (o != Outcome::ok) return;
			std::vector<Elem> want;
			for (auto g : perm)
			{
				size_t st = 0;
				for (i64 i = 0; i < g; ++i) st += size_t(rep[size_t(i)]);
				for (i64 i = 0; i < rep[size_t(g)]; ++i) want.push_back(m.v[st + size_t(i)]);
			}
			compare_list(a);
			l[a] = std::move(res);
			m.v = want;
		}
		else if (op == "eq")
		{
			bool got = false, ne = false;
			if (m.null != ml[b].null) return;
			int mis = !m.null && m.ty != ml[b].ty;
			Outcome o = perform(s, a, k, mis, [&](any_quantity_vector &x, any_quantity &) {
				got = static_cast<const any_quantity_vector &>(x) == l[b];
				ne = static_cast<const any_quantity_vector &>(x) != l[b];
			});
			if (o == Outcome::ok && (got != (m.v == ml[b].v) || ne == got)) c.fail("C06:equality", now + ": " + show(m.v) + " and " + show(ml[b].v) + " compare " + (got ? "equal" : "different"));
			if (!(l[a] == any_quantity_vector(l[a]))) c.fail("C06:equality", now + ": a copy compares different");
		}
		else if (op == "elem_op" || op == "elem_opc" || op == "elem_set" || op == "elem_swap" || op == "elem_add")
		{
			if (!n) return;
			bool cond = z & 2;
			MQ eb = e;
			Outcome o = perform(s, a, k, mism, [&](any_quantity_vector &x, any_quantity &y) {
				if (op == "elem_op") x[at] *= y;
				else if (op == "elem_add") x[at] += y;
				else if (op == "elem_opc") x[at].op(y, cond);
				else if (op == "elem_set") x[at] = static_cast<const vquantity &>(y);
				else
				{
					any_quantity_ref r = y, t = x[at];
					quantit::swap(r, t);
				}
			});
			if (o == Outcome::injected) adopt(a, before, {}, n);
			else if (o == Outcome::ok)
			{
				if (op == "elem_op" || op == "elem_add") m.v[at] = add(m.ty, m.v[at], e.e);
				else if (op == "elem_opc")
				{
					if (cond) m.v[at] = add(m.ty, m.v[at], e.e);
				}
				else if (op == "elem_set") m.v[at] = e.e;
				else std::swap(m.v[at], e.e);
			}
			(void)eb;
		}
		else if (op == "elem_inv")
		{
			if (!n) return;
			Elem got = read(l[a][at].inverse().get());
			if (got != neg(m.ty, m.v[at])) c.fail("C06:inverse", now);
			compare_list(a);
			if (z & 2) l[a][at].inverse_();
			else l[a][at].inv_();
			m.v[at] = neg(m.ty, m.v[at]);
		}
		else if (op == "law")
		{
			// group laws on elements of a list and a free quantity of the same type
			if (!n || mism) return;
			const any_quantity x(l[a][at]);
			const any_quantity &y = q[k];
			any_quantity xy, yx, id, xi, l3, r3;
			Outcome o = perform(s, a, k, 0, [&](any_quantity_vector &, any_quantity &) {
				xy = x * y;
				yx = y * x;
				id = x * x.inverse();
				xi = any_quantity(x).inverse();
				l3 = (x * y) * x;
				r3 = x * (y * x);
			});
			compare_all();
			if (o != Outcome::ok) return;
			Elem want = add(m.ty, m.v[at], e.e);
			if (read(xy.get()) != want || read(yx.get()) != want) c.fail("C06:group", now + ": product of " + show(m.v[at]) + " and " + show(e.e) + " is " + to_string(xy.get()));
			if (!(xy == yx) || xy != yx) c.fail("C06:group", now + ": not commutative");
			if (read(id.get()) != zero(m.ty) || !(id == x.neutral()) || id != y.neutral()) c.fail("C06:group", now + ": inverse of " + show(m.v[at]) + " does not give the neutral element");
			if (read(xi.get()) != neg(m.ty, m.v[at])) c.fail("C06:group", now + ": inverse");
			if (!(l3 == r3)) c.fail("C06:group", now + ": not associative");
			if (!((x * x.neutral()) == x)) c.fail("C06:group", now + ": neutral element");
			const vquantity &vx = x, &vy = y;
			if ((vx < vy) != (m.v[at] < e.e) || (vx > vy) != (m.v[at] > e.e) || (vx == vy) != (m.v[at] == e.e)) c.fail("C06:order", now + ": order of " + show(m.v[at]) + " and " + show(e.e));
			if (distance2(x, y) != dist2(m.v[at], e.e) || std::abs(distance(x, y) - std::sqrt(double(dist2(m.v[at], e.e)))) > 1e-9 * (1 + double(dist2(m.v[at], e.e)))) c.fail("C06:distance", now);
			if (!vx.same_type(vy)) c.fail("C06:type", now);
			any_quantity t(x);
			x.get().op_to(t.get());
			if (read(t.get()) != add(m.ty, m.v[at], m.v[at])) c.fail("C06:group", now + ": op_to");
		}
		else if (op == "qmake")
		{
			int ty = int(pick(i64(z), types().size()));
			Elem x = draw(ty, z >> 7);
			Outcome o = perform(s, a, k, 0, [&](any_quantity_vector &, any_quantity &y) { y = types()[size_t(ty)].make(x); });
			if (o == Outcome::ok) e = MQ{false, ty, norm(ty, x)};
		}
		else if (op == "qassign")
		{
			// documented: assignment may change the type
			if (mq[k2].moved) return;
			Outcome o = perform(s, a, k, 0, [&](any_quantity_vector &, any_quantity &y) {
				if (z & 1) y = static_cast<const any_quantity &>(q[k2]);
				else if (z & 2) y = q[k2].get();
				else y = static_cast<const vquantity &>(q[k2].get());
			});
			if (o == Outcome::ok)
			{
				c.probe(e.ty == mq[k2].ty ? "assign.same_type" : "assign.other_type");
				e = mq[k2];
			}
		}
		else if (op == "qcopy")
		{
			if (mq[k2].moved) return;
			Outcome o = perform(s, a, k, 0, [&](any_quantity_vector &, any_quantity &y) {
				any_quantity t(static_cast<const any_quantity &>(q[k2]));
				y.swap(t);
			});
			if (o == Outcome::ok) e = mq[k2];
		}
		else if (op == "qmove")
		{
			if (k == k2 || mq[k2].moved) return;
			if (z & 1) q[k] = std::move(q[k2]);
			else
			{
				any_quantity t(std::move(q[k2]));
				q[k].swap(t);
			}
			e = mq[k2];
			mq[k2].moved = true;
		}
		else if (op == "qswap")
		{
			if (mq[k2].moved) return;
			swap(q[k], q[k2]);
			std::swap(mq[k], mq[k2]);
		}
		else if (op == "qop")
		{
			if (mq[k2].moved) return;
			int mis = mq[k2].ty != e.ty;
			Outcome o = perform(s, a, k, mis, [&](any_quantity_vector &, any_quantity &y) {
				any_quantity w(q[k2]);
				switch (z % 6)
				{
				case 0: y *= w; break;
				case 1: y += w; break;
				case 2: y = y * w; break;
				case 3: y = y + std::move(w); break;
				case 4: y = any_quantity(y) * w; break;
				default: y = any_quantity(y) * std::move(w);
				}
			});
			if (o == Outcome::ok) e.e = add(e.ty, e.e, mq[k2].e);
		}
		else if (op == "qmix")
		{
			if (mq[k2].moved || mq[k2].ty == e.ty) return;
			any_quantity_cref x = q[k], y = q[k2];
			perform(s, a, k, 1, [&](any_quantity_vector &, any_quantity &) {
				switch (z % 7)
				{
				case 0: (void)(x == y); break;
				case 1: (void)(x != y); break;
				case 2: (void)(x < y); break;
				case 3: (void)(x > y); break;
				case 4: (void)distance2(x, y); break;
				case 5: (void)distance(x, y); break;
				default: quantit::swap(q[k].get(), q[k2].get());
				}
			});
			if (x.same_type(y)) c.fail("C06:type", now + ": two types reported the same");
		}
		else if (op == "qfrom")
		{
			if (!n) return;
			Outcome o = perform(s, a, k, 0, [&](any_quantity_vector &x, any_quantity &y) { y = x[at]; });
			if (o == Outcome::ok) e = MQ{false, m.ty, m.v[at]};
		}
	}
	void run()
	{
		for (auto &s : p.steps)
		{
			step(s);
			compare_all();
			for (int i = 0; i < POOL; ++i)
			{
				c.fold(u64(ml[i].ty));
				for (auto &e : ml[i].v)
					for (int x : e) c.fold(u64(x));
			}
			c.log(now + " -> " + (c.trace ? show(ml[0].v) + show(ml[1].v) + show(ml[2].v) + " q " + show(mq[0].e) + show(mq[1].e) + show(mq[2].e) : std::string()));
			c.probe("ops");
			c.probe("op." + s.op);
		}
	}
};
void gen(Rng &g, Plan &p, bool thorough)
{
	static const char *ops[] = {"ctor", "two", "count", "ilist", "copy", "copy", "cctor", "move", "swap", "push", "push", "push", "self_push", "self_ins1", "self_insn", "self_resize", "self_op", "self_set", "self_swap", "pop", "ins1", "ins1", "insn", "insr", "insr", "insrr", "erase1", "erase", "resize", "resizev", "reserve", "shrink", "clear", "at", "walk", "sort", "reverse", "permute", "permute", "eq", "elem_op", "elem_opc", "elem_set", "elem_swap", "elem_add", "elem_inv", "law", "law", "qmake", "qassign", "qassign", "qcopy", "qmove", "qswap", "qop", "qop", "qmix", "qfrom"};
	int n = thorough ? 20 + int(g.below(150)) : 15 + int(g.below(70));
	double pf = g.chance(0.3) ? 0 : 0.1 + 0.4 * g.unit();
	double mono = g.unit(); // how often the run sticks to one concrete type, so that operations are accepted
	i64 ty = g.below(i64(types().size()));
	std::vector<const char *> sub;
	for (auto o : ops)
		if (g.chance(0.6)) sub.push_back(o);
	sub.push_back("ctor");
	sub.push_back("qmake");
	for (int i = 0; i < n; ++i)
	{
		Step s;
		s.op = i < 2 ? "ctor" : i < 4 ? "qmake" : sub[size_t(g.below(i64(sub.size())))];
		i64 z = g.below(i64(1) << 50);
		if ((s.op == "ctor" || s.op == "two" || s.op == "qmake") && g.chance(mono)) z = z - z % i64(types().size()) + ty;
		s.a = {g.below(POOL), g.below(POOL), g.below(POOL), g.below(POOL), z};
		if (i < 4) s.a[0] = s.a[2] = i % 2;
		if (g.chance(pf))
		{
			s.fk = 'n';
			s.fn = g.below(1000000);
		}
		p.steps.push_back(s);
	}
}
void run(const Plan &p, Ctx &c)
{
	(void)types();
	(void)kind_name(0);
	{
		Engine e{p, c};
		e.run();
	}
	// the same history once more, counting what stays allocated
	track_begin();
	{
		Ctx scratch;
		Engine e{p, scratch};
		e.run();
		set_label("destruction");
	}
	long leaked = track_end();
	c.check(leaked == 0, "C06:leak", std::to_string(leaked) + " allocations are never released");
}
Register reg(Workload{"C06", gen, run, 12000, 300000, "any_quantity, quantity<...>, C<N>, Z, quantity_vector, any_quantity_vector and their iterators; libstdc++ vectors", "operator new (fails on command)",
                      "distinct hashes of the whole observed history of a run; non-trivial: the run contained a failed allocation or a refused operation"});
} // namespace
