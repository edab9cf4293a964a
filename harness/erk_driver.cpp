#include "common.hpp"
#include "rehuel.hpp"
#include "rk.hpp"

static std::string run(const Scn &s)
{
	Rec f;
	f.s->load(s);
	erk::solver_options so = erk::default_solver_options();
	set_common(so, s);
	output_options oo;
	std::ostringstream stream;
	stream.precision(17);
	set_output(oo, s, stream);
	erk::rk_output r;
	Obj o;
	std::string out, err;
	{
		Capture cout_(std::cout), cerr_(std::cerr);
		if (s.i("simple"))
			r = erk::odeint(f, s.d("t0"), s.d("t1"), s.av("y0"));
		else
			r = erk::odeint(f, s.d("t0"), s.d("t1"), s.av("y0"), so, oo,
			                int(s.i("method")), s.d("dt"));
		out = cout_.buf.str(); err = cerr_.buf.str();
	}
	o.raw("end", "\"ok\"");
	common_result(o, r);
	o.raw("nf", ji(f.s->nf)).raw("nj", ji(f.s->nj));
	if (s.i("logf") || s.i("logj")) o.raw("ev", f.s->events());
	if (s.i("text")) o.raw("cerr", jlines(err)).raw("cout", jlines(out));
	o.raw("file", jlines(stream.str()));
	return o.end();
}

int main() { return drive(run); }
