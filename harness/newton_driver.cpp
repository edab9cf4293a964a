// Root finding and numerical Jacobians on recorded functions.
#include "common.hpp"
#include "newton.hpp"

static std::string stat(const newton::status &st)
{
	Obj o;
	o.raw("conv", ji(st.conv_status)).raw("res", jd(st.res)).raw("iters", ji(st.iters));
	return o.end();
}

template <typename W> std::string solve(const Scn &s, W &w, Rec &f)
{
	newton::options o;
	o.tol = s.d("ntol", o.tol);
	o.dx_delta = s.d("ndx", o.dx_delta);
	o.maxit = s.i("nmaxit", o.maxit);
	o.max_step = s.d("maxstep", o.max_step);
	o.refresh_jac = s.i("nrefresh", o.refresh_jac);
	o.precondition = s.i("precond", 0);
	o.limit_step = s.i("limit", 0);
	o.time_internals = s.i("timeint", 0);
	newton::status st;
	bool quiet = s.i("quiet", 1);
	if (s.i("dirty")) { st.conv_status = 3; st.res = -1; st.iters = 77; }
	arma::vec x0 = s.av("y0"), x;
	Obj r;
	r.raw("end", "\"ok\"");
	std::string what = s.s("what"), out, err;
	{
		Capture cout_(std::cout), cerr_(std::cerr);
		if (what == "newton") x = newton::newton_iterate(w, x0, o, st, quiet);
		else if (what == "broyden") x = newton::broyden_iterate(w, x0, o, st, quiet);
		else if (what == "jac") r.raw("J", jm(newton::approx_jacobi_matrix(x0, w, s.d("h"))));
		else if (what == "verify") r.raw("agree", jb(newton::verify_jacobi_matrix(x0, w)));
		out = cout_.buf.str(); err = cerr_.buf.str();
	}
	if (s.i("text")) r.raw("cout", jlines(out)).raw("cerr", jlines(err));
	r.raw("x", jv(x)).raw("st", stat(st)).raw("ev", f.s->events())
	 .raw("msg", js(newton::status_message(s.i("code", st.conv_status))));
	return r.end();
}

static std::string run(const Scn &s)
{
	Rec f;
	f.s->load(s);
	f.s->logf = f.s->logj = true;
	double t = s.d("t");
	if (s.i("lambda")) {
		auto F = [&](const arma::vec &y) { return f.fun(t, y); };
		auto J = [&](const arma::vec &y) { return f.jac(t, y); };
		newton::newton_lambda_wrapper<decltype(F), decltype(J), arma::mat> w(F, J);
		return solve(s, w, f);
	}
	newton::newton_functor_wrapper<Rec> w(f, t);
	return solve(s, w, f);
}

int main() { return drive(run); }
