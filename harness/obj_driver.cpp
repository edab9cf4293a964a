// Cyclic buffer, merged solutions, timer (on a fake clock), printing.
#include "common.hpp"
#include "rehuel.hpp"
#include "cyclic_buffer.hpp"
#include <sys/time.h>
#include <time.h>

// ------------------------------------------------------------- fake clock
static long long g_usec = 0;
static bool g_fake = false;
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept
{
	if (!g_fake) {
		struct timespec ts;
		timespec_get(&ts, TIME_UTC);
		tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec/1000;
		return 0;
	}
	tv->tv_sec = g_usec / 1000000; tv->tv_usec = g_usec % 1000000;
	return 0;
}
extern "C" int clock_gettime(clockid_t, struct timespec *ts) noexcept
{
	if (!g_fake) { timespec_get(ts, TIME_UTC); return 0; }
	ts->tv_sec = g_usec / 1000000; ts->tv_nsec = (g_usec % 1000000)*1000;
	return 0;
}

// ---------------------------------------------------------- cyclic buffer
template <typename T> struct Elem;
template <> struct Elem<int> {
	static int make(int v) { return v; }
	static std::string show(const int &x) { return ji(x); }
};
template <> struct Elem<arma::vec> {
	static arma::vec make(int v) { arma::vec r(2); r(0) = v; r(1) = -v; return r; }
	static std::string show(const arma::vec &x)
	{ return x.size() == 2 && x(1) == -x(0) ? ji((long)x(0)) : std::string("-999"); }
};
template <> struct Elem<std::string> {
	static std::string make(int v) { return std::string(40, 'x') + std::to_string(v); }
	static std::string show(const std::string &x)
	{ return x.size() > 40 ? x.substr(40) : std::string("-999"); }
};

template <typename T> std::string look(cyclic_buffer<T> &b)
{
	const cyclic_buffer<T> &c = b;
	Obj o;
	o.raw("per", ji(c.period())).raw("size", ji(c.size())).raw("empty", jb(c.empty()));
	std::string a = "[", d = "[", e = "[";
	for (std::size_t i = 0; i < c.size(); ++i) {
		if (i) { a += ","; d += ","; }
		a += Elem<T>::show(b[i]);
		d += Elem<T>::show(c[i]);
	}
	std::size_t lim = 0;
	for (auto it = b.begin(); it != b.end() && lim < 100; ++it, ++lim) {
		if (lim) e += ",";
		e += Elem<T>::show(*it);
	}
	bool eqv = (b.begin() == b.end()) == c.empty();
	o.raw("at", a + "]").raw("cat", d + "]").raw("iter", e + "]").raw("eqv", jb(eqv));
	return o.end();
}

template <typename T> std::string cyclic(const Scn &s)
{
	typedef cyclic_buffer<T> B;
	std::vector<std::unique_ptr<B>> b;
	b.emplace_back(new B(int(s.i("p0", 3))));
	b.emplace_back(new B(int(s.i("p1", 2))));
	b.emplace_back(new B());
	std::string log = "[";
	bool first = true;
	auto snap = [&]() {
		if (!first) log += ",";
		first = false;
		log += "[";
		for (std::size_t i = 0; i < b.size(); ++i) { if (i) log += ","; log += look(*b[i]); }
		log += "]";
	};
	snap();
	for (auto &w : split(s.s("ops"), ';')) {
		auto p = split(w, ':');
		int x = atoi(p[1].c_str());
		int y = p.size() > 2 ? atoi(p[2].c_str()) : 0;
		int z = p.size() > 3 ? atoi(p[3].c_str()) : 0;
		switch (p[0][0]) {
		case 'p': b[x]->push_back(Elem<T>::make(y)); break;        // push y
		case 'q': b[x]->push_back((*b[x])[y]); break;               // push an own element
		case 'w': (*b[x])[y] = Elem<T>::make(z); break;             // write
		case 'i': {                                                 // write through an iterator
			auto it = b[x]->begin();
			for (int k = 0; k < y; ++k) ++it;
			*it = Elem<T>::make(z);
			break;
		}
		case 'r': b[x]->resize(y); break;
		case 'a': *b[x] = *b[y]; break;
		case 'c': { B n(*b[y]); b[x].reset(new B(n)); break; }
		}
		snap();
	}
	return log + "]";
}

// ------------------------------------------------------------ merge
// numbers are integers (as doubles), rows "1.2.3_4.5.6"
static std::vector<arma::vec> rows(const std::string &t)
{
	std::vector<arma::vec> r;
	if (t == "-" || t.empty()) return r;
	for (auto &p : split(t, '_')) {
		std::vector<double> e;
		for (auto &x : split(p, '.')) if (!x.empty()) e.push_back(atoi(x.c_str()));
		r.push_back(arma::vec(e));
	}
	return r;
}
static std::vector<double> nums(const std::string &t)
{
	std::vector<double> e;
	if (t == "-" || t.empty()) return e;
	for (auto &x : split(t, '_')) e.push_back(strtod(x.c_str(), nullptr));
	return e;
}
static irk::rk_output sol(const Scn &s, const std::string &k)
{
	irk::rk_output r;
	r.status = s.i(k + "st");
	r.t_vals = nums(s.s(k + "T"));
	r.y_vals = rows(s.s(k + "Y"));
	r.stages = rows(s.s(k + "K"));
	r.err_est = rows(s.s(k + "E"));
	r.err = nums(s.s(k + "N"));
	auto c = nums(s.s(k + "C"));
	c.resize(9);
	r.count.attempt = c[0]; r.count.reject_newton = c[1]; r.count.reject_err = c[2];
	r.count.newton_success = c[3]; r.count.newton_incr_diverge = c[4];
	r.count.newton_iter_error_too_large = c[5]; r.count.newton_maxit_exceed = c[6];
	r.count.fun_evals = c[7]; r.count.jac_evals = c[8];
	r.elapsed_time = s.d(k + "el");
	r.accept_frac = s.d(k + "af");
	return r;
}
static std::string show(const irk::rk_output &r)
{
	Obj o;
	std::vector<unsigned long long> c = { r.count.attempt, r.count.reject_newton, r.count.reject_err,
		r.count.newton_success, r.count.newton_incr_diverge, r.count.newton_iter_error_too_large,
		r.count.newton_maxit_exceed, r.count.fun_evals, r.count.jac_evals };
	std::string cs = "[";
	for (std::size_t i = 0; i < c.size(); ++i) { if (i) cs += ","; cs += jc(c[i]); }
	o.raw("st", ji(r.status)).raw("T", jv(r.t_vals)).raw("Y", jvv(r.y_vals)).raw("K", jvv(r.stages))
	 .raw("E", jvv(r.err_est)).raw("N", jv(r.err)).raw("C", cs + "]")
	 .raw("el", jd(r.elapsed_time)).raw("af", jd(r.accept_frac));
	return o.end();
}

// ------------------------------------------------------------ timer
static std::string text(std::string t)
{
	for (auto &c : t) if (c == '~') c = ' ';
	return t;
}
static std::string timer(const Scn &s)
{
	g_usec = s.i("t0");
	g_fake = true;
	std::ostringstream o1, o2;
	std::unique_ptr<my_timer> t(s.i("out") ? new my_timer(o1) : new my_timer());
	timeval stored = t->get_tic();
	std::string log = "[";
	bool first = true;
	for (auto &w : split(s.s("ops"), ';')) {
		auto p = split(w, ':');
		o1.str(""); o2.str("");
		Obj r;
		Capture cout_(std::cout), cerr_(std::cerr);
		switch (p[0][0]) {
		case 'a': g_usec += atoll(p[1].c_str()); break;
		case 't': t->tic(); break;
		case 'c':
			r.raw("ms", jd(p.size() > 2 ? t->toc(text(p[1]), text(p[2])) :
			               p.size() > 1 ? t->toc(text(p[1])) : t->toc()));
			break;
		case 's': stored = t->get_tic(); break;
		case 'e': r.raw("ms", jd(t->get_elapsed(stored))); break;
		case 'x': { timeval u; u.tv_sec = atoll(p[1].c_str()); u.tv_usec = atoll(p[2].c_str());
			r.raw("ms", jd(t->get_elapsed(u))); break; }
		case 'O': t->enable_output(p[1] == "1" ? o1 : o2); break;
		case 'D': t->disable_output(); break;
		}
		r.raw("o1", jlines(o1.str())).raw("o2", jlines(o2.str()))
		 .raw("std", jb(!cout_.buf.str().empty() || !cerr_.buf.str().empty()));
		if (!first) log += ",";
		first = false;
		log += r.end();
	}
	g_fake = false;
	return log + "]";
}

static std::string run(const Scn &s)
{
	Obj o;
	o.raw("end", "\"ok\"");
	std::string what = s.s("what");
	if (what == "cyclic") {
		std::string e = s.s("elem", "int");
		o.raw("log", e == "vec" ? cyclic<arma::vec>(s) : e == "str" ? cyclic<std::string>(s) : cyclic<int>(s));
	} else if (what == "merge") {
		irk::rk_output a = sol(s, "a"), b = sol(s, "b");
		std::string a0 = show(a), b0 = show(b);
		irk::rk_output m = irk::merge_rk_output(a, b);
		o.raw("a", a0).raw("b", b0).raw("m", show(m));
		// an alias of itself
		irk::rk_output mm = irk::merge_rk_output(a, a);
		o.raw("aa", show(mm));
		o.raw("a2", show(a)).raw("b2", show(b));
	} else if (what == "timer") {
		o.raw("log", timer(s));
	} else return "{\"end\":\"crash\",\"sig\":0}";
	return o.end();
}

int main() { return drive(run); }
