// C18: printing. Text of tensors, quantities and chains, written to strings, bounded buffers, streams and the standard
// output, with allocations, dense kernels and the receiving stream failing in the middle, and printed again afterwards.
#include "MPT.h"
#include "bthelp.h"
#include "mpsmodel.h"
#include "torch_formatter.h"
#include <fmt/ostream.h>
#include <fmt/ranges.h>
#include <ostream>
#include <sstream>
#include <streambuf>
using namespace bt;
using quantit::any_quantity_vector;
std::string to_string(quantit::any_quantity_cref);
namespace
{
// a stream whose device takes a number of bytes, at most so many at a time, and then fails
struct Device final : std::streambuf
{
	std::string got;
	i64 room = -1; // -1: no limit
	bool throws = false, failed = false;
	std::streamsize xsputn(const char *s, std::streamsize n) override
	{
		std::streamsize k = room < 0 ? n : std::min<std::streamsize>(n, room);
		got.append(s, k);
		if (room >= 0) room -= k;
		if (k < n)
		{
			failed = true;
			if (throws) throw std::runtime_error("[simulated fault] the device is full");
		}
		return k;
	}
	int_type overflow(int_type ch) override
	{
		if (traits_type::eq_int_type(ch, traits_type::eof())) return traits_type::not_eof(ch);
		char x = traits_type::to_char_type(ch);
		return xsputn(&x, 1) == 1 ? ch : traits_type::eof();
	}
};
// the process' standard output
struct Out
{
	std::string &got;
	i64 room = -1;
	bool failed = false;
	FILE *was, *f;
	static ssize_t write(void *self, const char *b, size_t n)
	{
		auto &o = *(Out *)self;
		size_t k = n;
		if (o.room >= 0) k = std::min<size_t>(k, o.room);
		o.got.append(b, k);
		if (o.room >= 0) o.room -= k;
		if (k < n) { o.failed = true; errno = ENOSPC; }
		return k;
	}
	explicit Out(std::string &buffer) : got(buffer)
	{
		got.clear();
		fflush(stdout);
		cookie_io_functions_t io{nullptr, &Out::write, nullptr, nullptr};
		f = fopencookie(this, "w", io);
		setvbuf(f, nullptr, _IONBF, 0);
		was = stdout;
		stdout = f;
	}
	void end()
	{
		if (!f) return;
		stdout = was;
		fclose(f);
		f = nullptr;
	}
	~Out() { end(); }
};
std::string collapse(const std::string &s)
{
	std::string o;
	for (char ch : s)
		if (isspace((unsigned char)ch)) { if (!o.empty() && o.back() != ' ') o += ' '; }
		else o += ch;
	while (!o.empty() && o.back() == ' ') o.pop_back();
	return o;
}
std::vector<long> numbers(const std::string &s)
{
	std::vector<long> o;
	for (size_t i = 0; i < s.size();)
		if (isdigit((unsigned char)s[i]))
		{
			long v = 0;
			bool neg = i && s[i - 1] == '-';
			while (i < s.size() && isdigit((unsigned char)s[i])) v = v * 10 + (s[i++] - '0');
			o.push_back(neg ? -v : v);
		}
		else ++i;
	return o;
}
std::string shown(const std::vector<long> &v)
{
	std::string s;
	for (auto x : v) s += std::to_string(x) + " ";
	return s;
}
// what libtorch prints for the values of a real tensor, without the line that names its type
std::string values(const at::Tensor &t, int width)
{
	Quiet q;
	std::stringstream s;
	at::print(s, t, width);
	auto x = s.str();
	for (auto &ch : x) ch = ch == '{' ? '(' : ch == '}' ? ')' : ch;
	auto p = x.rfind("[ ");
	return collapse(p == std::string::npos ? x : x.substr(0, p));
}
std::vector<std::string> parts(const at::Tensor &t, int width)
{
	Quiet q;
	if (!t.defined()) return {};
	if (!t.is_complex()) return {values(t.resolve_neg(), width)};
	auto w = torch::view_as_real(t.resolve_conj()).contiguous();
	return {values(w.select(-1, 0).contiguous(), width), values(w.select(-1, 1).contiguous(), width)};
}
struct Obj
{
	int kind = 0; // 0 block tensor, 1 dense tensor, 2 quantity, 3 list of quantities, 4 chain, 5 block chain
	btensor b;
	at::Tensor t;
	any_quantity q;
	any_quantity_vector v;
	quantit::MPS m;
	quantit::bMPS bm;
	Group g;
	Charge ch;
	std::vector<Charge> chs;
	MT s; // structure, when it is known
	bool plain = false; // default constructed block tensor
	std::string name;
};
struct Runner
{
	const Plan &p;
	Ctx &c;
	std::string id;
	std::vector<Obj> pool;
	int done = 0;
	Device dev;
	std::string outbuf;
	std::vector<char> room;
	Runner(const Plan &p_, Ctx &c_) : p(p_), c(c_), room(1000)
	{
		dev.got.reserve(1 << 17);
		outbuf.reserve(1 << 17);
	}
	void need(bool ok, const char *cls, const std::string &m) { if (!ok) c.fail(std::string("C18:") + cls, id + ": " + m); }
	at::ScalarType type(Rng &r)
	{
		static const at::ScalarType T[] = {at::kDouble, at::kDouble, at::kFloat, at::kComplexDouble, at::kComplexFloat, at::kLong, at::kInt, at::kHalf};
		return T[r.below(8)];
	}
	// values that are awkward to print
	void spice(Rng &r, at::Tensor t)
	{
		Quiet q;
		if (!t.defined() || t.numel() == 0) return;
		int how = (int)r.below(8);
		if (at::isIntegralType(t.scalar_type(), true))
		{
			if (how == 0) t.mul_(1000003);
			return;
		}
		if (how == 0) t.mul_(1e-9);
		if (how == 1) t.mul_(1.7e7);
		if (how == 2) t.div_(3);
		if (how == 3) t.select(0, 0).fill_(std::numeric_limits<double>::quiet_NaN());
		if (how == 4) t.select(0, 0).fill_(std::numeric_limits<double>::infinity());
		if (how == 5) t.select(0, 0).mul_(1e12), t.div_(7);
		if (how == 6) t.add_(0.25);
	}
	static Charge spread(Rng &r, const Group &g) { return g.random(r, r.chance(0.3) ? 3000 : 2); }
	Obj make(Rng &r)
	{
		Quiet quiet;
		Obj o;
		double x = r.unit();
		o.kind = x < 0.45 ? 0 : x < 0.65 ? 1 : x < 0.75 ? 2 : x < 0.84 ? 3 : x < 0.92 ? 4 : 5;
		o.g.kind = (int)r.range(0, 5);
		auto dt = type(r);
		if (o.kind == 0)
		{
			if (r.chance(0.06)) { o.plain = true; o.name = "a default constructed block tensor"; return o; }
			o.s = random_structure(r, o.g, (int)r.range(0, 4), 3, 3);
			if (r.chance(0.3))
				for (auto &l : o.s.q)
					for (auto &ch : l) ch = o.g.norm(spread(r, o.g));
			o.b = random_fill(r, o.s, dt, r.chance(0.2) ? 0.0 : r.unit());
			for (auto &kv : o.b)
				if (kv.second.dim() && r.chance(0.5)) spice(r, kv.second);
			o.name = "block tensor " + o.s.desc();
		}
		else if (o.kind == 1)
		{
			if (r.chance(0.05)) { o.name = "an undefined tensor"; return o; }
			IL d;
			for (i64 k = r.range(0, 4); k > 0; --k) d.push_back(r.chance(0.05) ? 0 : r.range(1, d.empty() ? 5 : 9));
			o.t = random_dense(r, d, dt, 9);
			if (o.t.dim()) spice(r, o.t);
			if (o.t.dim() > 1 && r.chance(0.3)) o.t = o.t.transpose(0, o.t.dim() - 1);
			if (o.t.is_complex() && r.chance(0.3)) o.t = o.t.conj();
			if (o.t.is_conj() && r.chance(0.4)) o.t = at::imag(o.t); // a lazily negated tensor
			if ((o.t.is_complex() || at::isFloatingType(o.t.scalar_type())) && !o.t.is_conj() && !o.t.is_neg() && r.chance(0.15)) o.t.requires_grad_(true);
			o.name = "tensor " + str(d);
		}
		else if (o.kind == 2)
		{
			o.ch = spread(r, o.g);
			o.q = o.g.lib(o.ch);
			o.ch = o.g.norm(o.ch);
			o.name = "quantity " + str(o.ch);
		}
		else if (o.kind == 3)
		{
			for (i64 k = r.range(1, 5); k > 0; --k) o.chs.push_back(o.g.norm(spread(r, o.g)));
			o.v = any_quantity_vector(0, o.g.lib(o.chs[0]));
			for (auto &x : o.chs) o.v.push_back(o.g.lib(x));
			o.name = "list of quantities";
		}
		else
		{
			auto spec = random_chain(r, o.g, at::kDouble, o.kind == 5, (int)r.range(1, 5), r.chance(0.5), false);
			if (o.kind == 4) o.m = random_dense_state(r, spec, 3, 0);
			else o.kind = 4, o.m = random_dense_state(r, random_chain(r, o.g, at::kDouble, false, 2, true, false), 3, 0);
			o.name = "chain";
		}
		return o;
	}
	u64 fingerprint(const Obj &o)
	{
		if (o.kind == 0) return o.plain ? 0 : observe(o.b) ^ mix64(o.b.blocks().size());
		if (o.kind == 1) return o.t.defined() ? observe(o.t.detach()) : 1;
		u64 h = 5;
		if (o.kind == 4) for (auto &x : o.m) h = mix64(h ^ observe(x));
		return h;
	}
	// ---- what the text has to show; empty when it does
	std::vector<long> charge(const Obj &o, const Charge &ch)
	{
		std::vector<long> n;
		auto m = o.g.mod();
		for (size_t i = 0; i < m.size(); ++i)
		{
			if (m[i]) n.push_back(m[i]);
			n.push_back(ch[i]);
		}
		return n;
	}
	static size_t after_values(const std::string &x, size_t pos, const std::vector<std::string> &want, std::string &bad)
	{
		for (auto &w : want)
		{
			// each part of the values, whatever words announce it, and the line that names the type
			auto at = x.find(w.empty() ? "[ " : w, pos);
			bool words = at != std::string::npos;
			for (size_t i = pos; words && i < at; ++i) words = !isdigit((unsigned char)x[i]) && x[i] != '-';
			if (!words) { bad = "instead of \"" + w + "\" comes \"" + x.substr(pos, 200) + "\""; return pos; }
			pos = at + w.size();
			while (pos < x.size() && x[pos] == ' ') ++pos;
			if (x.compare(pos, 2, "[ ") == 0)
			{
				auto e = x.find(']', pos);
				pos = e == std::string::npos ? x.size() : e + 1;
			}
		}
		return pos;
	}
	std::string judge(const Obj &o, const std::string &text, int width)
	{
		auto x = collapse(text);
		std::string bad;
		auto same = [&](const std::vector<long> &want, const std::string &where, const std::string &what) {
			auto got = numbers(where);
			if (got != want && bad.empty()) bad = what + ": the numbers " + shown(got) + "instead of " + shown(want) + "in \"" + where.substr(0, 300) + "\"";
		};
		if (o.kind == 0)
		{
			if (o.plain) return x.find("rank 0") == std::string::npos ? "no description of a tensor of rank 0 in \"" + x + "\"" : "";
			std::vector<long> head{(long)o.s.rank()};
			auto put = [&](const std::vector<long> &v) { head.insert(head.end(), v.begin(), v.end()); };
			put(charge(o, o.g.norm(o.s.rule)));
			for (auto &l : o.s.sz) head.push_back((long)l.size());
			for (auto &l : o.s.sz) for (auto s : l) head.push_back(s);
			for (auto &l : o.s.q) for (auto &ch : l) put(charge(o, o.g.norm(ch)));
			size_t pos = std::min(x.find("block at"), x.size());
			same(head, x.substr(0, pos), "the structure");
			for (auto &kv : o.b.blocks())
			{
				if (!bad.empty()) return bad;
				// its position, then its values
				size_t e = pos;
				for (size_t i = 0; i < kv.first.size(); ++i)
				{
					while (e < x.size() && !isdigit((unsigned char)x[e])) ++e;
					while (e < x.size() && isdigit((unsigned char)x[e])) ++e;
				}
				while (e < x.size() && x[e] != ']' && x[e] != ')' && x[e] != '}') ++e;
				if (e >= x.size()) return "block " + str(kv.first) + " isn't shown";
				same(std::vector<long>(kv.first.begin(), kv.first.end()), x.substr(pos, e - pos), "the position of block " + str(kv.first));
				pos = after_values(x, e + 1, parts(kv.second.detach(), 80), bad);
				if (!bad.empty()) return "block " + str(kv.first) + ": " + bad;
			}
			if (bad.empty() && pos < x.size()) same({}, x.substr(pos), "after the last block");
			return bad;
		}
		if (o.kind == 1)
		{
			if (!o.t.defined()) return x.find("undefined") == std::string::npos ? "an undefined tensor is shown as \"" + x + "\"" : "";
			if (width && width < 24) return x.empty() ? "nothing is shown" : "";
			auto pos = after_values(x, 0, parts(o.t.detach(), width ? width : 80), bad);
			if (bad.empty()) same({}, x.substr(std::min(pos, x.size())), "after the values");
			return bad;
		}
		if (o.kind == 2) { same(charge(o, o.ch), x, "the quantity"); return bad; }
		std::vector<long> want;
		if (o.kind == 3) for (auto &ch : o.chs) for (auto v : charge(o, ch)) want.push_back(v);
		if (o.kind == 4) for (auto &t : o.m) for (auto s : t.sizes()) want.push_back(s);
		same(want, x, o.kind == 3 ? "the list" : "the sizes");
		return bad;
	}
	// ---- printing once; the text that arrived
	struct How
	{
		int way = 0, width = 0;
		std::string fmt; // of a width
		i64 room = -1;
		bool throws = false;
		size_t cut = 0;
	};
	struct Res
	{
		std::string text;
		size_t total = 0;
		bool told = false, device = false; // the stream reports a failure; the device failed
	};
	template <class X>
	void into(const How &h, const X &x, Res &res)
	{
		if (h.way == 0) { auto s = fmt::format("{}", x); disarm(); res.text.assign(s.data(), s.size()); }
		else if (h.way == 5)
		{
			auto z = fmt::format_to_n(room.data(), h.cut, "{}", x);
			disarm();
			res.total = z.size;
			res.text.assign(room.data(), std::min(h.cut, z.size));
		}
		else if (h.way == 6)
		{
			fmt::memory_buffer buf;
			fmt::format_to(std::back_inserter(buf), "{}", x);
			disarm();
			res.text.assign(buf.data(), buf.size());
		}
		else
		{
			Device &d = dev;
			d.got.clear();
			d.failed = false;
			d.room = h.room;
			d.throws = h.throws;
			std::ostream os(&d);
			if (h.throws) os.exceptions(std::ios::badbit | std::ios::failbit);
			struct Keep
			{
				Device &d; Res &r; std::ostream &o;
				~Keep() { disarm(); r.text.assign(d.got.data(), d.got.size()); r.device = d.failed; r.told = !o.good(); }
			} keep{d, res, os};
			fmt::print(os, "{}", x);
		}
	}
	void write(const Obj &o, const How &h, Res &res)
	{
		if (h.way == 2)
		{
			Out out(outbuf);
			out.room = h.room;
			struct Keep
			{
				Out &o; Res &r;
				~Keep() { disarm(); o.end(); r.text.assign(o.got.data(), o.got.size()); r.device = o.failed; }
			} keep{out, res};
			if (o.kind == 0) quantit::print(o.b);
			else if (o.kind == 1) quantit::print(o.t);
			else if (o.kind == 4) quantit::print_dims(o.m);
			return;
		}
		if (h.way == 1)
		{
			std::string s;
			if (o.kind == 0) s = quantit::to_string(o.b);
			else if (o.kind == 2) s = ::to_string(o.q);
			else s = fmt::format("{}", o.t);
			disarm();
			res.text.assign(s.data(), s.size());
			return;
		}
		if (o.kind == 0) into(h, o.b, res);
		else if (o.kind == 1)
		{
			if (h.width)
			{
				auto s = fmt::format(fmt::runtime(h.fmt), o.t);
				disarm();
				res.text.assign(s.data(), s.size());
			}
			else into(h, o.t, res);
		}
		else if (o.kind == 2)
		{
			if (h.way == 3) into(h, any_quantity_cref(o.q), res);
			else into(h, o.q, res);
		}
		else if (o.kind == 3)
		{
			std::string s;
			for (size_t i = 0; i < o.v.size(); ++i) s += fmt::format("{} ", o.v[i]);
			disarm();
			res.text.assign(s.data(), s.size());
		}
	}
	void show(const Step &st, Rng &r)
	{
		if (pool.empty()) return;
		auto &o = pool[r.below((i64)pool.size())];
		How h;
		if (o.kind == 4) h.way = 2;
		else if (o.kind == 3) h.way = 0;
		else if (o.kind == 2) { static const int W[] = {0, 1, 3, 5, 6}; h.way = W[r.below(5)]; }
		else { static const int W[] = {0, 0, 1, 2, 2, 3, 5, 6}; h.way = W[r.below(8)]; }
		if (o.kind == 1 && h.way == 0 && r.chance(0.5)) h.width = (int)(r.chance(0.2) ? r.range(1, 23) : r.range(24, 200));
		if (h.width) h.fmt = "{:" + std::to_string(h.width) + "}";
		if (h.way == 5) h.cut = (size_t)r.below(r.chance(0.5) ? 40 : 800);
		static const char *N[] = {"format", "to_string", "print", "ostream", "", "format_to_n", "format_to"};
		id += std::string(" ") + N[h.way] + (h.width ? " width " + std::to_string(h.width) : "") + " of " + o.name;
		set_label(id);
		c.probe(std::string("way.") + N[h.way]);
		auto before = fingerprint(o);
		std::string what;
		// undisturbed
		Res full;
		{
			KernelHook k;
			auto oc = attempt('-', 0, [&] { write(o, h, full); }, &what);
			need(oc == Outcome::ok, "exception", what);
		}
		auto ev = event_counts();
		need(fingerprint(o) == before, "modified", "printing it changed it");
		std::string whole = full.text;
		if (h.way == 5)
		{
			Res all;
			How a;
			auto oc = attempt('-', 0, [&] { write(o, a, all); }, &what);
			need(oc == Outcome::ok, "exception", what);
			need(full.total == all.text.size(), "length", "the length is given as " + std::to_string(full.total) + " instead of " + std::to_string(all.text.size()));
			need(all.text.compare(0, full.text.size(), full.text) == 0 && full.text.size() == std::min(h.cut, all.text.size()), "prefix", "a bounded buffer doesn't hold the beginning of the text");
			whole = all.text;
		}
		auto bad = judge(o, whole, h.width);
		need(bad.empty(), "text", bad);
		++done;
		if (st.fk != '-')
		{
			How f = h;
			Res res;
			long at = 0;
			if (st.fk == 'c')
			{
				if (h.way != 2 && h.way != 3) { c.log(id); return; }
				f.room = i64(double(st.fn) / 1e6 * double(whole.size()));
				f.throws = h.way == 3 && r.chance(0.4);
			}
			else at = fault_at(st.fn, ev.of(st.fk));
			track_begin();
			long live = live_tensors();
			Outcome oc;
			{
				KernelHook k;
				oc = attempt(st.fk == 'c' ? '-' : st.fk, at, [&] { write(o, f, res); }, &what);
			}
			bool fired = st.fk == 'c' ? res.device : fault_fired();
			if (st.fk == 'c' && fired)
			{
				need(oc != Outcome::ok || res.told, "silent", "the stream failed after " + std::to_string(res.text.size()) + " of " + std::to_string(whole.size()) + " bytes and nobody is told");
				need(whole.compare(0, res.text.size(), res.text) == 0, "garbled", "what arrived before the failure isn't the beginning of the text");
			}
			else if (oc == Outcome::other) need(false, "exception", what);
			else if (oc == Outcome::ok && st.fk != 'c' && h.way != 5 && !res.told) need(res.text == whole, "text", "the text differs from the one given before"); // a failure that was made up for
			res = Res();
			std::string().swap(what);
			long leak = track_end();
			need(leak == 0 && live_tensors() == live, "leak", "printing failed and " + std::to_string(leak) + " allocations and " + std::to_string(live_tensors() - live) + " tensors stay behind");
			need(fingerprint(o) == before, "modified", "a failed printing changed it");
			Res again;
			{
				KernelHook k;
				oc = attempt('-', 0, [&] { write(o, h, again); }, &what);
			}
			need(oc == Outcome::ok, "exception", "after a failure: " + what);
			need(again.text == full.text, "retry", "the text after a failure differs from the one before");
			if (fired) c.probe("failed");
			if (fired) c.probe(std::string("fault.") + (st.fk == 'n' ? "allocation" : st.fk == 't' ? "tensor" : st.fk == 'c' ? "stream" : "kernel"));
		}
		c.fold(whole);
		c.log(id);
	}
	void refused(Rng &r)
	{
		auto &o = pool[r.below((i64)pool.size())];
		if (o.kind > 2) return;
		static const char *BAD[] = {"{:abc}", "{:5x}", "{:-}", "{", "{:5", "{:?}"};
		std::string f = BAD[r.below(6)];
		id += " " + f + " of " + o.name;
		std::string what;
		auto oc = attempt('-', 0, [&] {
			if (o.kind == 0) fmt::format(fmt::runtime(f), o.b);
			else if (o.kind == 1) fmt::format(fmt::runtime(f), o.t);
			else fmt::format(fmt::runtime(f), o.q);
		}, &what);
		need(oc != Outcome::ok, "accepted", "a meaningless format was accepted");
		c.log(id);
		c.probe("refused");
	}
	void main()
	{
		count_std_allocations(true);
		default_type(at::kDouble);
		int k = 0;
		for (auto &st : p.steps)
		{
			id = st.op + " #" + std::to_string(k++);
			set_label(id);
			Rng r(u64(st.arg(0)) * 7919 + p.get("init"));
			c.probe("op." + st.op);
			if (st.op == "make" || pool.empty()) pool.push_back(make(r));
			else if (st.op == "show") show(st, r);
			else if (st.op == "refused") refused(r);
			else if (st.op == "ambient")
			{
				set_fill((int)r.range(-1, 300), (int)r.range(-1, 300));
				default_type(r.chance(0.5) ? at::kFloat : at::kDouble);
			}
		}
		default_type(at::kDouble);
		if (done >= 2) c.probe("nontrivial");
	}
};
void run_fmt(const Plan &p, Ctx &c)
{
	Runner r(p, c);
	r.main();
}
void gen_fmt(Rng &r, Plan &p, bool thorough)
{
	p.cfg["init"] = r.below(1000000000);
	int n = (int)r.range(5, thorough ? 24 : 14);
	for (int k = 0; k < n; ++k)
	{
		Step s;
		double x = r.unit();
		s.op = k == 0 || x < 0.25 ? "make" : x < 0.9 ? "show" : x < 0.95 ? "ambient" : "refused";
		for (int z = 0; z < 2; ++z) s.a.push_back(r.below(1000000));
		if (s.op == "show" && r.chance(0.6))
		{
			s.fk = "ntocc"[r.below(5)];
			s.fn = r.below(1000000);
		}
		p.steps.push_back(s);
	}
}
Register r1({"C18", gen_fmt, run_fmt, 4000, 200000,
             "the formatters of block tensors, dense tensors, quantities and chains (btensor.h, torch_formatter.h, quantity*.h, MPT.h, btensor.cpp, any_quantity.cpp), compiled from /repo; fmt; libtorch's printing of dense values",
             "standard output and output streams (devices of limited room that then fail), libtorch's CPU memory allocator, operator new of library code, kernel dispatch (a hook that may throw before a kernel)",
             "one evaluation is one simulated run (one plan: a history of objects made and printed in different ways, with the receiving stream, an allocation or a dense kernel failing in the middle, and printed again); distinct_nontrivial counts distinct execution hashes among runs in which at least 2 texts were judged"});
} // namespace
