// Histories of library calls in one process: sequential, interleaved at the
// calls to the user's functor by a given schedule, or free-running threads.
// The jobs are read from the file named by DET_JOBS.
#include "common.hpp"
#include "rehuel.hpp"
#include "multistep.hpp"
#include <condition_variable>

static std::map<std::string, Scn> jobs;

// --------------------------------------------------------------- scheduler
// One thread runs at a time; at every call of its functor it passes the turn
// to the thread the schedule names next (that has not finished yet).
struct Sched {
	std::mutex m;
	std::condition_variable cv;
	std::vector<int> order;
	std::size_t pos = 0;
	std::vector<bool> done;
	int turn = -1;
	int next()
	{
		std::size_t live = 0;
		for (bool d : done) live += !d;
		if (!live) return -1;
		for (std::size_t k = 0; k < order.size(); ++k) {
			int t = order[pos];
			pos = (pos + 1) % order.size();
			if (!done[t]) return t;
		}
		for (std::size_t t = 0; t < done.size(); ++t) if (!done[t]) return int(t);
		return -1;
	}
	void start(int me) { std::unique_lock<std::mutex> l(m); cv.wait(l, [&]{ return turn == me; }); }
	void point(int me)
	{
		std::unique_lock<std::mutex> l(m);
		turn = next();
		cv.notify_all();
		cv.wait(l, [&]{ return turn == me; });
	}
	void finish(int me)
	{ std::unique_lock<std::mutex> l(m); done[me] = true; turn = next(); cv.notify_all(); }
};

struct SRec {
	typedef arma::mat jac_type;
	std::shared_ptr<Shared> s;
	Sched *sc = nullptr;
	int me = 0;
	SRec() : s(new Shared) {}
	arma::vec fun(double t, const arma::vec &y) { if (sc) sc->point(me); return s->fun(t, y); }
	jac_type jac(double t, const arma::vec &y) { if (sc) sc->point(me); return s->jac(t, y); }
};

// --------------------------------------------------------------- digests
struct Hash {
	unsigned long long h = 1469598103934665603ull;
	std::size_t n = 0;
	void byte(unsigned char c) { h ^= c; h *= 1099511628211ull; ++n; }
	void raw(const void *p, std::size_t k)
	{ const unsigned char *c = (const unsigned char*)p; for (std::size_t i = 0; i < k; ++i) byte(c[i]); }
	void num(double x) { if (std::isnan(x)) x = std::numeric_limits<double>::quiet_NaN(); if (std::isnan(x)) { byte(7); return; } raw(&x, 8); }
	void cnt(unsigned long long x) { raw(&x, 8); }
	void str(const std::string &x) { cnt(x.size()); raw(x.data(), x.size()); }
	template <typename V> void vec(const V &v) { cnt(v.size()); for (std::size_t i = 0; i < v.size(); ++i) num(v[i]); }
	template <typename V> void vecs(const V &v) { cnt(v.size()); for (auto &x : v) vec(x); }
	void mat(const arma::mat &a) { cnt(a.n_rows); cnt(a.n_cols); for (std::size_t i = 0; i < a.n_elem; ++i) num(a(i)); }
	std::string text() const { char b[40]; snprintf(b, sizeof b, "%016llx.%zu", h, n); return b; }
};

template <typename R> std::string traj(const R &r)
{
	Hash h;
	h.vec(r.t_vals); h.vecs(r.y_vals); h.vecs(r.stages); h.vecs(r.err_est); h.vec(r.err);
	return h.text();
}

template <typename O> void set_common(O &o, const Scn &s, const std::string &var)
{
	o.rel_tol = s.d("rtol", o.rel_tol); o.abs_tol = s.d("atol", o.abs_tol);
	o.max_dt = s.d("maxdt", o.max_dt); o.max_steps = s.i("maxsteps", o.max_steps);
	o.adaptive_step_size = s.i("adaptive", 1);
	if (var.find('P') != std::string::npos) o.out_interval = 1;
	if (var.find('Q') != std::string::npos) o.out_interval = 3;
	if (var.find('T') != std::string::npos) o.time_internals = true;
}

// the numerical result of a job, split in the parts the destination decides on
static std::string execute(const std::string &name, Sched *sc, int me)
{
	auto parts = split(name, ':');
	const Scn &s = jobs.at(parts[0]);
	std::string var = parts.size() > 1 ? parts[1] : "", what = s.s("what");
	SRec f;
	f.s->load(s);
	f.sc = sc; f.me = me;
	std::string tr, fi;
	std::ostringstream stream;
	stream.precision(17);
	output_options oo;
	oo.output_interval = s.i("oint", 1);
	bool store = true, out = false;
	for (char c : var) {
		if (c == 'o') { oo.set_output_stream(stream); out = true; }
		if (c == 's') { oo.set_output_stream(stream); oo.disable_store_in_vectors(); out = true; store = false; }
		if (c == 'x') { oo.disable_store_in_vectors(); store = false; }
	}
	Hash h;
	std::string what_end = "ok";
	try {
		if (what == "erk") {
			erk::solver_options so = erk::default_solver_options();
			set_common(so, s, var);
			auto r = erk::odeint(f, s.d("t0"), s.d("t1"), s.av("y0"), so, oo, int(s.i("method")), s.d("dt"));
			h.cnt(r.status); h.cnt(r.count.attempt); h.cnt(r.count.reject_err); h.cnt(r.count.fun_evals);
			h.num(r.accept_frac);
			tr = traj(r);
		} else if (what == "irk") {
			irk::solver_options so = irk::default_solver_options();
			set_common(so, s, var);
			newton::options no;
			no.tol = s.d("ntol", no.tol); no.dx_delta = s.d("ndx", no.dx_delta);
			no.maxit = s.i("nmaxit", no.maxit); no.refresh_jac = s.i("nrefresh", no.refresh_jac);
			if (var.find('T') != std::string::npos) no.time_internals = true;
			so.newton_opts = &no;
			if (var.find('N') != std::string::npos) so.verbose_newton = true;
			auto r = irk::odeint(f, s.d("t0"), s.d("t1"), s.av("y0"), so, oo, int(s.i("method")), s.d("dt"));
			h.cnt(r.status); h.cnt(r.count.attempt); h.cnt(r.count.reject_err); h.cnt(r.count.fun_evals);
			h.cnt(r.count.reject_newton); h.cnt(r.count.newton_success); h.cnt(r.count.newton_incr_diverge);
			h.cnt(r.count.newton_iter_error_too_large); h.cnt(r.count.newton_maxit_exceed); h.cnt(r.count.jac_evals);
			h.num(r.accept_frac);
			tr = traj(r);
		} else if (what == "ab" || what == "bdf") {
			multistep::solver_options so;
			so.order = int(s.i("order"));
			basic_output r;
			if (what == "ab") r = multistep::adams_bashforth(f, s.d("t0"), s.d("t1"), s.av("y0"), so, s.d("dt"));
			else r = multistep::bdf(f, s.d("t0"), s.d("t1"), s.av("y0"), so, s.d("dt"));
			h.cnt(r.status); h.vec(r.t_vals); h.vecs(r.y_vals);
			store = false; out = false;
		} else if (what == "newton" || what == "broyden") {
			newton::options o;
			o.tol = s.d("ntol", o.tol); o.dx_delta = s.d("ndx", o.dx_delta); o.maxit = s.i("nmaxit", o.maxit);
			o.max_step = s.d("maxstep", o.max_step); o.refresh_jac = s.i("nrefresh", o.refresh_jac);
			o.precondition = s.i("precond", 0); o.limit_step = s.i("limit", 0);
			if (var.find('T') != std::string::npos) o.time_internals = true;
			bool quiet = var.find('P') == std::string::npos;
			newton::status st;
			newton::newton_functor_wrapper<SRec> w(f, s.d("t"));
			arma::vec x = what == "newton" ? newton::newton_iterate(w, s.av("y0"), o, st, quiet)
			                               : newton::broyden_iterate(w, s.av("y0"), o, st, quiet);
			h.vec(x); h.cnt(st.conv_status); h.num(st.res); h.cnt(st.iters);
			store = false; out = false;
		} else if (what == "coef") {
			int m = int(s.i("method"));
			if (m < 200) {
				auto k = erk::get_coefficients(m);
				h.vec(k.b); h.vec(k.b2); h.vec(k.c); h.mat(k.A); h.cnt(k.order); h.cnt(k.order2); h.mat(k.b_interp);
				if (k.name) h.str(k.name); h.str(erk::method_to_name(m)); if (k.name) h.cnt(erk::name_to_method(k.name)); if (k.b_interp.n_elem) h.vec(erk::project_b(0.3, k));
				for (auto &x : erk::all_method_names()) h.str(x);
			} else {
				auto k = irk::get_coefficients(m);
				h.vec(k.b); h.vec(k.b2); h.vec(k.c); h.mat(k.A); h.cnt(k.order); h.cnt(k.order2); h.mat(k.b_interp);
				h.num(k.gamma); if (k.name) h.str(k.name); h.str(irk::method_to_name(m)); if (k.name) h.cnt(irk::name_to_method(k.name));
				if (k.b_interp.n_elem) h.vec(irk::project_b(0.3, k));
				for (auto &x : irk::all_method_names()) h.str(x);
			}
			store = false; out = false;
		} else if (what == "proj") {
			int m = int(s.i("method"));
			irk::solver_coeffs ki; erk::solver_coeffs ke;
			if (m < 200) ke = erk::get_coefficients(m); else ki = irk::get_coefficients(m);
			for (double th : s.v("y0")) h.vec(m < 200 ? erk::project_b(th, ke) : irk::project_b(th, ki));
			store = false; out = false;
		} else if (what == "jacobian") {
			newton::newton_functor_wrapper<SRec> w(f, s.d("t"));
			h.mat(newton::approx_jacobi_matrix(s.av("y0"), w, s.d("h")));
			h.cnt(newton::verify_jacobi_matrix(s.av("y0"), w));
			store = false; out = false;
		} else if (what == "merge") {
			irk::rk_output q[3];
			int n = 0;
			for (double y : s.v("y0")) {
				irk::rk_output &a = q[n++ % 2];
				a.status = n % 4; a.accept_frac = y / 3; a.elapsed_time = y;
				a.t_vals.push_back(y); a.y_vals.push_back(arma::vec{y, -y}); a.stages.push_back(arma::vec{2*y});
				a.err_est.push_back(arma::vec{0, y}); a.err.push_back(y);
				a.count.attempt = n; a.count.jac_evals = 7 * n;
			}
			q[2] = irk::merge_rk_output(q[0], q[1]);
			h.str(traj(q[2])); h.num(q[2].accept_frac); h.num(q[2].elapsed_time); h.cnt(q[2].status);
			h.cnt(q[2].count.attempt); h.cnt(q[2].count.jac_evals);
			h.str(newton::status_message(n % 7));
			store = false; out = false;
		} else if (what == "expand") {
			irk::coeff_list a = { {1}, {2, 3}, {} }, b = { {4}, {5, 6} };
			for (int k = 0; k < s.i("method") % 3; ++k) b = irk::expand(a, b);
			for (auto &x : irk::expand(b, a)) { h.cnt(x.size()); for (int v : x) h.cnt(v); }
			arma::vec c = s.av("y0");
			h.mat(irk::collocation_interpolate_coeffs(c));
			store = false; out = false;
		}
	} catch (Runaway &) { what_end = "runaway"; }
	catch (std::exception &e) { what_end = "exception"; }
	h.cnt(f.s->nf); h.cnt(f.s->nj);
	if (out) { Hash g; g.str(stream.str()); fi = g.text(); }
	return Obj().raw("job", js(parts[0])).raw("var", js(var)).raw("end", js(what_end)).raw("sum", js(h.text()))
		.raw("traj", js(store ? tr : "")).raw("file", js(fi)).end();
}

// ------------------------------------------------------------ shared memory
// In the -fsanitize=thread build: accesses to the same memory by calls in
// different threads, one of them a write, not ordered by anything.  (The
// standard streams are everybody's.)
static char races[8][600];
static int nraces = 0;
static bool collect = false;
#ifdef __SANITIZE_THREAD__
extern "C" {
int __tsan_get_report_data(void *, const char **, int *, int *, int *, int *, int *, int *, int *, void **, unsigned long);
int __tsan_get_report_mop(void *, unsigned long, int *, void **, int *, int *, int *, void **, unsigned long);
void __sanitizer_symbolize_pc(void *, const char *, char *, size_t);
__attribute__((no_sanitize("thread"))) void __tsan_on_report(void *rep)
{
	const char *d = "";
	int c, st, mops = 0, l, m, t, u;
	void *sleep[4] = {};
	if (!collect) return;
	__tsan_get_report_data(rep, &d, &c, &st, &mops, &l, &m, &t, &u, sleep, 4);
	if (nraces >= 8 || mops < 2) return;
	char *o = races[nraces];
	int k = 0;
	for (int i = 0; i < 2; ++i) {
		int tid, size, w, a;
		void *addr = nullptr, *tr[12] = {};
		__tsan_get_report_mop(rep, i, &tid, &addr, &size, &w, &a, tr, 12);
		const std::ios *own[4] = { &std::cout, &std::cerr, &std::clog, &std::cin };
		for (const std::ios *x : own)
			if ((char*)addr >= (char*)x - 64 && (char*)addr < (char*)x + sizeof(std::ios)) return;
		k += snprintf(o + k, 600 - k, "%s%s in", i ? "; " : "", w ? "write" : "read");
		for (int j = 0, n = 0; j < 12 && tr[j] && n < 2; ++j) {
			char b[256] = "";
			__sanitizer_symbolize_pc(tr[j], "%f", b, sizeof b);
			if (!strncmp(b, "std::", 5) || !strncmp(b, "arma::", 6) || !strncmp(b, "operator ", 9) || !strncmp(b, "mem", 3)) continue;
			for (char *q = b; *q; ++q) if (*q == '(' || *q == '|' || *q == '"' || *q == '\\') *q = 0;
			k += snprintf(o + k, 600 - k, " %.80s", b);
			++n;
		}
	}
	++nraces;
}
}
#endif

// leaves traces in memory that is handed out or used again later
static void scribble(unsigned char v)
{
	volatile unsigned char stack[60000];
	for (std::size_t i = 0; i < sizeof stack; ++i) stack[i] = v;
	std::vector<void*> p;
	for (std::size_t k = 8; k < 20000; k = k * 5 / 4 + 8) { void *q = malloc(k); memset(q, v, k); p.push_back(q); }
	for (void *q : p) free(q);
}

static std::string run(const Scn &s)
{
	std::vector<std::vector<std::string>> th;
	for (auto &t : split(s.s("threads"), ';')) th.push_back(split(t, ','));
	std::vector<std::vector<std::string>> ev(th.size());
	bool mute = s.i("mute");
	if (s.s("threads") == "selftest") {      // are races seen at all?
		collect = true;
		static int shared = 0;
		auto f = []{ for (int k = 0; k < 100; ++k) { ++*(volatile int*)&shared; std::this_thread::yield(); } };
		std::thread a(f), b(f);
		a.join(), b.join();
		return Obj().raw("end", "\"ok\"").raw("n", std::to_string(nraces)).end();
	}
	{
		Capture cout_(std::cout), cerr_(std::cerr);
		if (mute) { std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit); }
		if (th.size() == 1) {
			unsigned char v = (unsigned char)s.i("scribble");
			for (auto &j : th[0]) { if (v) scribble(v); ev[0].push_back(execute(j, nullptr, 0)); }
		} else {
			Sched sc;
			bool forced = s.has("sched");
			if (forced) for (double x : s.v("sched")) sc.order.push_back(int(x));
			sc.done.assign(th.size(), false);
			unsigned fseed = s.i("fine") ? unsigned(s.i("fseed")) + 1 : 0;
			if (fseed) fine_setup(th.size(), unsigned(s.i("fine")), fseed);
			collect = s.i("collect");
			std::atomic<int> ready(0);
			std::vector<std::thread> ts;
			for (std::size_t k = 0; k < th.size(); ++k)
				ts.emplace_back([&, k]{
					if (fseed) fine_begin(int(k));
					else if (forced) sc.start(int(k));
					else { ++ready; while (ready < int(th.size())) std::this_thread::yield(); }
					for (auto &j : th[k]) ev[k].push_back(execute(j, forced ? &sc : nullptr, int(k)));
					if (fseed) fine_end(int(k));
					if (forced) sc.finish(int(k));
				});
			if (forced) { std::unique_lock<std::mutex> l(sc.m); sc.turn = sc.next(); sc.cv.notify_all(); }
			if (fseed) fine_go();
			for (auto &t : ts) t.join();
			collect = false;
		}
	}
	std::string r = "[";
	for (std::size_t k = 0; k < ev.size(); ++k)
		for (auto &e : ev[k]) { if (r.size() > 1) r += ","; r += e; }
	std::string q = "[";
	for (int k = 0; k < nraces; ++k) q += (k ? "," : "") + js(races[k]);
	return Obj().raw("end", "\"ok\"").raw("ev", r + "]").raw("races", q + "]").end();
}

int main()
{
	std::ifstream in(getenv("DET_JOBS"));
	std::string l;
	while (std::getline(in, l)) if (!l.empty()) { Scn s = parse_scn(l); jobs[s.id] = s; }
	return drive(run);
}
