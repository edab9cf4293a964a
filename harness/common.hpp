// Shared parts of the drivers: scenario parsing, recording functor, event log,
// isolation of each scenario in a child process.
//
// A driver reads scenarios from standard input, one per line,
//     <id> key=value key=value ...
// runs each in a forked child against the library and writes one JSON line
//     {"id": ..., "end": "ok" | "exception" | "runaway" | "crash", ...}
// Doubles are written exactly, as C99 hexadecimal floating point strings.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include "pch.hpp"
#include "fine.hpp"
#include <cstdio>
#include <cstring>
#include <cmath>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>

typedef std::map<std::string, std::string> kv;

inline std::vector<std::string> split(const std::string &s, char c)
{
	std::vector<std::string> r;
	if (s.empty()) return r;
	std::string cur;
	for (char x : s) {
		if (x == c) { r.push_back(cur); cur.clear(); }
		else cur += x;
	}
	r.push_back(cur);
	return r;
}

struct Scn {
	std::string id;
	kv m;
	bool has(const std::string &k) const { return m.count(k) > 0; }
	std::string s(const std::string &k, const std::string &d = "") const
	{ auto i = m.find(k); return i == m.end() ? d : i->second; }
	double d(const std::string &k, double def = 0) const
	{ auto i = m.find(k); return i == m.end() ? def : strtod(i->second.c_str(), nullptr); }
	long long i(const std::string &k, long long def = 0) const
	{ auto it = m.find(k); return it == m.end() ? def : strtoll(it->second.c_str(), nullptr, 10); }
	std::vector<double> v(const std::string &k) const
	{
		std::vector<double> r;
		for (auto &x : split(s(k), ',')) r.push_back(strtod(x.c_str(), nullptr));
		return r;
	}
	arma::vec av(const std::string &k) const { auto x = v(k); return arma::vec(x); }
};

inline Scn parse_scn(const std::string &line)
{
	Scn r;
	std::istringstream in(line);
	in >> r.id;
	std::string w;
	while (in >> w) {
		std::size_t e = w.find('=');
		if (e == std::string::npos) r.m[w] = "1";
		else r.m[w.substr(0, e)] = w.substr(e + 1);
	}
	return r;
}

// ---------------------------------------------------------------- JSON
inline std::string jd(double x)
{
	if (std::isnan(x)) return "\"NaN\"";
	if (std::isinf(x)) return x > 0 ? "\"Inf\"" : "\"-Inf\"";
	char b[64];
	snprintf(b, sizeof b, "\"%a\"", x);
	return b;
}
inline std::string js(const std::string &x)
{
	std::string r = "\"";
	for (unsigned char c : x) {
		if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
		else if (c == '\n') r += "\\n";
		else if (c == '\t') r += "\\t";
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += char(c);
	}
	return r + "\"";
}
template <typename V> std::string jv(const V &x)
{
	std::string r = "[";
	for (std::size_t i = 0; i < x.size(); ++i) { if (i) r += ","; r += jd(x[i]); }
	return r + "]";
}
inline std::string jm(const arma::mat &a)  // list of rows
{
	std::string r = "[";
	for (std::size_t i = 0; i < a.n_rows; ++i) {
		if (i) r += ",";
		r += "[";
		for (std::size_t j = 0; j < a.n_cols; ++j) { if (j) r += ","; r += jd(a(i, j)); }
		r += "]";
	}
	return r + "]";
}
template <typename V> std::string jvv(const V &x)
{
	std::string r = "[";
	for (std::size_t i = 0; i < x.size(); ++i) { if (i) r += ","; r += jv(x[i]); }
	return r + "]";
}
template <typename T> std::string ji(T x) { return std::to_string(x); }
// a counter: a string when it does not fit the checker's integers
inline std::string jc(unsigned long long x)
{ return x < 2000000000ull ? std::to_string(x) : std::string("2000000000"); }
inline std::string jb(bool b) { return b ? "true" : "false"; }
inline std::string jlines(const std::string &t)
{
	std::string r = "[", cur;
	bool first = true;
	for (char c : t) {
		if (c == '\n') { if (!first) r += ","; first = false; r += js(cur); cur.clear(); }
		else cur += c;
	}
	if (!cur.empty()) { if (!first) r += ","; r += js(cur + "<no newline>"); }
	return r + "]";
}

struct Obj {
	std::string t = "{";
	bool first = true;
	Obj &raw(const std::string &k, const std::string &v)
	{ if (!first) t += ","; first = false; t += js(k) + ":" + v; return *this; }
	std::string end() { return t + "}"; }
};

// ------------------------------------------------- recording functor
// Right-hand side f_i = c_i + d_i t + sum_j L_ij y_j + sum_jk Q_ijk y_j y_k.
struct Fault {
	char what;        // 'f' or 'j'
	char trig;        // 'n': call number lo..hi, 'g': y[tc] > lo, 'l': y[tc] < lo, 't': t > lo (first hi calls that match)
	double lo, hi;
	int tc;
	int comp;         // component changed (-1: all)
	char kind;        // 'n' NaN, 'i' inf, 'm' -inf, 'a' add val, 's' scale by val
	double val;
	long matched = 0;
};

struct Runaway { };

struct Shared {
	std::size_t n = 0;
	std::vector<double> c, d, L, Q;
	std::vector<Fault> faults;
	long nf = 0, nj = 0, budget = 1000000;
	bool logf = false, logj = false;
	std::size_t maxlog = 100000;
	std::vector<std::string> ev;
	long long *clock = nullptr, clkf = 0, clkj = 0;   // simulated time an evaluation takes

	void load(const Scn &s)
	{
		n = s.i("n", 1);
		c = s.v("c"); d = s.v("d"); L = s.v("L"); Q = s.v("Q");
		c.resize(n, 0.0); d.resize(n, 0.0); L.resize(n*n, 0.0);
		if (!Q.empty()) Q.resize(n*n*n, 0.0);
		budget = s.i("budget", 1000000);
		logf = s.i("logf", 0); logj = s.i("logj", 0);
		for (auto &w : split(s.s("faults"), ';')) {
			auto p = split(w, ':');
			Fault f;
			f.what = p[0][0]; f.trig = p[1][0];
			f.lo = strtod(p[2].c_str(), nullptr); f.hi = strtod(p[3].c_str(), nullptr);
			f.tc = atoi(p[4].c_str()); f.comp = atoi(p[5].c_str());
			f.kind = p[6][0]; f.val = p.size() > 7 ? strtod(p[7].c_str(), nullptr) : 0;
			faults.push_back(f);
		}
	}
	bool hit(Fault &f, char what, long call, double t, const arma::vec &y)
	{
		if (f.what != what) return false;
		switch (f.trig) {
		case 'n': return call >= f.lo && call <= f.hi;
		case 'g': return y(f.tc) > f.lo;
		case 'l': return y(f.tc) < f.lo;
		case 't': if (t > f.lo && f.matched < f.hi) { ++f.matched; return true; } return false;
		}
		return false;
	}
	static void apply(const Fault &f, double &x)
	{
		switch (f.kind) {
		case 'n': x = std::numeric_limits<double>::quiet_NaN(); break;
		case 'i': x = std::numeric_limits<double>::infinity(); break;
		case 'm': x = -std::numeric_limits<double>::infinity(); break;
		case 'a': x += f.val; break;
		case 's': x *= f.val; break;
		}
	}
	arma::vec eval(double t, const arma::vec &y) const
	{
		arma::vec r(n);
		for (std::size_t i = 0; i < n; ++i) {
			double a = c[i] + d[i]*t;
			for (std::size_t j = 0; j < n; ++j) a += L[i*n + j]*y(j);
			if (!Q.empty())
				for (std::size_t j = 0; j < n; ++j)
					for (std::size_t k = 0; k < n; ++k)
						if (Q[(i*n + j)*n + k] != 0) a += Q[(i*n + j)*n + k]*y(j)*y(k);
			r(i) = a;
		}
		return r;
	}
	arma::mat evalj(double, const arma::vec &y) const
	{
		arma::mat J(n, n);
		for (std::size_t i = 0; i < n; ++i)
			for (std::size_t j = 0; j < n; ++j) {
				double a = L[i*n + j];
				if (!Q.empty())
					for (std::size_t k = 0; k < n; ++k)
						a += (Q[(i*n + j)*n + k] + Q[(i*n + k)*n + j])*y(k);
				J(i, j) = a;
			}
		return J;
	}
	arma::vec fun(double t, const arma::vec &y)
	{
		++nf;
		if (clock) *clock += clkf;
		if (nf + nj > budget) throw Runaway();
		arma::vec r = eval(t, y);
		for (auto &f : faults)
			if (hit(f, 'f', nf, t, y)) {
				if (f.comp < 0) for (std::size_t i = 0; i < n; ++i) apply(f, r(i));
				else apply(f, r(f.comp));
			}
		if (logf && ev.size() < maxlog)
			ev.push_back(Obj().raw("k", "\"f\"").raw("t", jd(t)).raw("y", jv(y)).raw("r", jv(r)).end());
		return r;
	}
	arma::mat jac(double t, const arma::vec &y)
	{
		++nj;
		if (clock) *clock += clkj;
		if (nf + nj > budget) throw Runaway();
		arma::mat J = evalj(t, y);
		for (auto &f : faults)
			if (hit(f, 'j', nj, t, y))
				for (std::size_t i = 0; i < n; ++i)
					for (std::size_t j = 0; j < n; ++j)
						if (f.comp < 0 || int(i) == f.comp) apply(f, J(i, j));
		if (logj && ev.size() < maxlog)
			ev.push_back(Obj().raw("k", "\"j\"").raw("t", jd(t)).raw("y", jv(y)).raw("r", jm(J)).end());
		return J;
	}
	std::string events() const
	{
		std::string r = "[";
		for (std::size_t i = 0; i < ev.size(); ++i) { if (i) r += ","; r += ev[i]; }
		return r + "]";
	}
};

// Copies share the recording, so that a functor copied by the library is
// still observed.
struct Rec {
	typedef arma::mat jac_type;
	std::shared_ptr<Shared> s;
	Rec() : s(new Shared) {}
	arma::vec fun(double t, const arma::vec &y) { return s->fun(t, y); }
	jac_type jac(double t, const arma::vec &y) { return s->jac(t, y); }
};

// Collects characters; like the standard streams it may be used by several
// threads at a time.
struct LockedBuf : std::streambuf {
	std::string text;
	std::mutex m;
	std::string str() { std::lock_guard<std::mutex> l(m); return text; }
	LockedBuf *rdbuf() { return this; }
protected:
	int overflow(int c) override
	{ if (c != EOF) { FinePause p; std::lock_guard<std::mutex> l(m); text += char(c); } return c == EOF ? 0 : c; }
	std::streamsize xsputn(const char *s, std::streamsize n) override
	{ FinePause p; std::lock_guard<std::mutex> l(m); text.append(s, n); return n; }
};

// Redirects a standard stream for its lifetime.
struct Capture {
	std::ostream &o;
	LockedBuf buf;
	std::streambuf *old;
	std::streamsize prec;
	Capture(std::ostream &o_) : o(o_)
	{ old = o.rdbuf(buf.rdbuf()); prec = o.precision(17); }
	~Capture() { o.rdbuf(old); o.precision(prec); o.clear(); }
};

typedef std::string (*scenario_fn)(const Scn &);

// Runs every scenario of standard input in a child of its own.
inline int drive(scenario_fn run)
{
	std::string line;
	setvbuf(stdout, nullptr, _IOFBF, 1 << 20);
	while (std::getline(std::cin, line)) {
		if (line.empty() || line[0] == '#') continue;
		Scn s = parse_scn(line);
		int fd[2];
		if (pipe(fd)) return 3;
		fflush(stdout);
		pid_t pid = fork();
		if (pid < 0) return 3;
		if (pid == 0) {
			close(fd[0]);
			struct rlimit rl = { rlim_t(s.i("cpu", 20)), rlim_t(s.i("cpu", 20)) };
			setrlimit(RLIMIT_CPU, &rl);
			struct rlimit rc = { 0, 0 };
			setrlimit(RLIMIT_CORE, &rc);
			alarm(s.i("wall", 60));
			std::string r;
			try { r = run(s); }
			catch (Runaway &) { r = "{\"end\":\"runaway\"}"; }
			catch (std::exception &e) { r = "{\"end\":\"exception\",\"what\":" + js(e.what()) + "}"; }
			catch (...) { r = "{\"end\":\"exception\",\"what\":\"unknown\"}"; }
			const char *p = r.data();
			std::size_t left = r.size();
			while (left) {
				ssize_t k = write(fd[1], p, left);
				if (k <= 0) _exit(4);
				p += k; left -= k;
			}
			_exit(0);
		}
		close(fd[1]);
		std::string out;
		char b[1 << 16];
		ssize_t k;
		while ((k = read(fd[0], b, sizeof b)) > 0) out.append(b, k);
		close(fd[0]);
		int st = 0;
		waitpid(pid, &st, 0);
		if (WIFSIGNALED(st))
			out = (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL)
				? "{\"end\":\"runaway\"}"
				: "{\"end\":\"crash\",\"sig\":" + std::to_string(WTERMSIG(st)) + "}";
		else if (WEXITSTATUS(st) != 0 || out.empty())
			out = "{\"end\":\"crash\",\"sig\":0}";
		printf("{\"id\":%s,%s\n", js(s.id).c_str(), out.c_str() + 1);
	}
	fflush(stdout);
	return 0;
}
#endif
