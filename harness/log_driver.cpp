// What an integration says and how long it says it took: explicit, implicit
// and multistep runs under a simulated clock that only evaluations advance.
#include "common.hpp"
#include "rehuel.hpp"
#include "multistep.hpp"
#include "rk.hpp"
#include <sys/time.h>
#include <time.h>

static long long g_usec = 0;
static bool g_fake = false;
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept
{
	struct timespec ts;
	if (g_fake) { tv->tv_sec = g_usec / 1000000; tv->tv_usec = g_usec % 1000000; return 0; }
	timespec_get(&ts, TIME_UTC);
	tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec/1000;
	return 0;
}
extern "C" int clock_gettime(clockid_t, struct timespec *ts) noexcept
{
	if (!g_fake) { timespec_get(ts, TIME_UTC); return 0; }
	ts->tv_sec = g_usec / 1000000; ts->tv_nsec = (g_usec % 1000000)*1000;
	return 0;
}

// an output stream whose lines take time
struct SlowBuf : std::streambuf
{
	long long per = 0;
	std::string text;
	int overflow(int c) override
	{
		if (c == '\n') g_usec += per;
		if (c != EOF) text += char(c);
		return c == EOF ? 0 : c;
	}
	std::streamsize xsputn(const char *p, std::streamsize n) override
	{
		for (std::streamsize i = 0; i < n; ++i) overflow((unsigned char)p[i]);
		return n;
	}
};

static std::string run(const Scn &s)
{
	Rec f;
	f.s->load(s);
	f.s->clock = &g_usec;
	f.s->clkf = s.i("clkf"); f.s->clkj = s.i("clkj");
	g_usec = s.i("clk");
	output_options oo;
	SlowBuf slow;
	slow.per = s.i("clko");
	std::ostream stream(&slow);
	set_output(oo, s, stream);
	std::string what = s.s("what"), out, err;
	Obj o;
	o.raw("end", "\"ok\"");
	erk::rk_output re;
	irk::rk_output ri;
	basic_output rm;
	{
		Capture cout_(std::cout), cerr_(std::cerr);
		g_fake = true;
		if (what == "erk") {
			erk::solver_options so = erk::default_solver_options();
			set_common(so, s);
			re = s.i("simple") ? erk::odeint(f, s.d("t0"), s.d("t1"), s.av("y0"))
				: erk::odeint(f, s.d("t0"), s.d("t1"), s.av("y0"), so, oo, int(s.i("method")), s.d("dt"));
		} else if (what == "irk") {
			irk::solver_options so = irk::default_solver_options();
			set_common(so, s);
			newton::options no;
			no.tol = s.d("ntol", no.tol);
			no.dx_delta = s.d("ndx", no.dx_delta);
			no.maxit = s.i("nmaxit", no.maxit);
			no.refresh_jac = s.i("nrefresh", no.refresh_jac);
			so.newton_opts = &no;
			ri = s.i("simple") ? irk::odeint(f, s.d("t0"), s.d("t1"), s.av("y0"))
				: irk::odeint(f, s.d("t0"), s.d("t1"), s.av("y0"), so, oo, int(s.i("method")), s.d("dt"));
		} else {
			multistep::solver_options so;
			so.order = int(s.i("order"));
			if (what == "ab") rm = multistep::adams_bashforth(f, s.d("t0"), s.d("t1"), s.av("y0"), so, s.d("dt"));
			else rm = multistep::bdf(f, s.d("t0"), s.d("t1"), s.av("y0"), so, s.d("dt"));
		}
		g_fake = false;
		out = cout_.buf.str(); err = cerr_.buf.str();
	}
	if (what == "erk") {
		o.raw("status", ji(re.status)).raw("att", jc(re.count.attempt)).raw("rerr", jc(re.count.reject_err))
		 .raw("fev", jc(re.count.fun_evals)).raw("elapsed", jd(re.elapsed_time));
	} else if (what == "irk") {
		o.raw("status", ji(ri.status)).raw("att", jc(ri.count.attempt)).raw("rerr", jc(ri.count.reject_err))
		 .raw("fev", jc(ri.count.fun_evals)).raw("elapsed", jd(ri.elapsed_time));
		count_irk(o, ri);
	} else o.raw("status", ji(rm.status)).raw("np", ji(rm.t_vals.size()));
	o.raw("nf", ji(f.s->nf)).raw("nj", ji(f.s->nj));
	o.raw("cerr", jlines(err)).raw("cout", jlines(out)).raw("file", jlines(slow.text));
	return o.end();
}

int main() { return drive(run); }
