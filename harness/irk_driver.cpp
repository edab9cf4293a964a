#include "common.hpp"
#include "rehuel.hpp"
#include "rk.hpp"

static std::string run(const Scn &s)
{
	Rec f;
	f.s->load(s);
	irk::solver_options so = irk::default_solver_options();
	set_common(so, s);
	newton::options no;
	no.tol = s.d("ntol", no.tol);
	no.dx_delta = s.d("ndx", no.dx_delta);
	no.maxit = s.i("nmaxit", no.maxit);
	no.refresh_jac = s.i("nrefresh", no.refresh_jac);
	so.newton_opts = &no;
	output_options oo;
	std::ostringstream stream;
	stream.precision(17);
	set_output(oo, s, stream);
	irk::rk_output r;
	Obj o;
	std::string out, err;
	{
		Capture cout_(std::cout), cerr_(std::cerr);
		if (s.i("simple"))
			r = irk::odeint(f, s.d("t0"), s.d("t1"), s.av("y0"));
		else
			r = irk::odeint(f, s.d("t0"), s.d("t1"), s.av("y0"), so, oo,
			                int(s.i("method")), s.d("dt"));
		out = cout_.buf.str(); err = cerr_.buf.str();
	}
	o.raw("end", "\"ok\"");
	common_result(o, r);
	count_irk(o, r);
	o.raw("nf", ji(f.s->nf)).raw("nj", ji(f.s->nj));
	if (s.i("logf") || s.i("logj")) o.raw("ev", f.s->events());
	if (s.i("text")) o.raw("cerr", jlines(err)).raw("cout", jlines(out));
	o.raw("file", jlines(stream.str()));
	return o.end();
}

int main() { return drive(run); }
