// Default options and omitted arguments, printed forms, adapters, and the
// breakdown of timings.
#include "common.hpp"
#include "rehuel.hpp"
#include "functor.hpp"
#include "rk.hpp"

// ------------------------------------------------------------ defaults
template <typename O> void common_defaults(Obj &o, const O &s)
{
	o.raw("rtol", jd(s.rel_tol)).raw("atol", jd(s.abs_tol)).raw("maxdt", jd(s.max_dt))
	 .raw("maxsteps", ji(s.max_steps)).raw("newton", jb(s.newton_opts != nullptr))
	 .raw("progress", ji(s.out_interval)).raw("timeint", jb(s.time_internals))
	 .raw("adaptive", jb(s.adaptive_step_size));
}

static std::string defaults(const std::string &of)
{
	Obj o;
	if (of == "erk") common_defaults(o, erk::default_solver_options());
	else if (of == "erk2") common_defaults(o, erk::solver_options());
	else if (of == "irk") common_defaults(o, irk::default_solver_options());
	else if (of == "irk2") common_defaults(o, irk::solver_options());
	else if (of == "newton") {
		newton::options n;
		o.raw("tol", jd(n.tol)).raw("dx", jd(n.dx_delta)).raw("maxit", ji(n.maxit))
		 .raw("maxstep", jd(n.max_step)).raw("refresh", ji(n.refresh_jac))
		 .raw("timeint", jb(n.time_internals)).raw("precond", jb(n.precondition))
		 .raw("limit", jb(n.limit_step));
	} else if (of == "output") {
		output_options p;
		o.raw("vec", jb(p.store_in_vectors())).raw("file", jb(p.write_to_file()))
		 .raw("oint", ji(p.output_interval)).raw("log", jb(&p.log_out == &std::cout))
		 .raw("stream", jb(p.output_stream != nullptr));
	} else if (of == "status") {
		newton::status s;
		o.raw("conv", ji(s.conv_status)).raw("res", jd(s.res)).raw("iters", ji(s.iters));
	} else if (of == "erkout" || of == "irkout") {
		Obj c;
		if (of == "erkout") { erk::rk_output r; common_result(c, r); }
		else { irk::rk_output r; common_result(c, r); count_irk(c, r); }
		return c.end();
	}
	return o.end();
}

static std::string all(const erk::rk_output &r)
{
	Obj o;
	common_result(o, r);
	return o.end();
}
static std::string all(const irk::rk_output &r)
{
	Obj o;
	common_result(o, r);
	count_irk(o, r);
	return o.end();
}

static newton::options explicit_newton(double tol, int refresh)
{
	newton::options n;
	n.tol = tol; n.dx_delta = 1e-4; n.maxit = 5000; n.time_internals = false;
	n.max_step = -1; n.refresh_jac = refresh; n.precondition = false; n.limit_step = false;
	return n;
}
template <typename O> void explicit_options(O &o)
{
	o.rel_tol = 1e-4; o.abs_tol = 1e-3; o.max_dt = 0; o.max_steps = -1;
	o.out_interval = 0; o.time_internals = false; o.adaptive_step_size = true;
}
// the options of the scenario, where it has any
template <typename O> void some_options(O &o, const Scn &s)
{
	if (s.has("rtol")) o.rel_tol = s.d("rtol");
	if (s.has("atol")) o.abs_tol = s.d("atol");
	if (s.has("maxsteps")) o.max_steps = s.i("maxsteps");
	if (s.has("adaptive")) o.adaptive_step_size = s.i("adaptive");
	if (s.has("maxdt")) o.max_dt = s.d("maxdt");
}

// the same call with and without the arguments it may leave out
static std::string pair(const Scn &s)
{
	Rec f, g;
	f.s->load(s); g.s->load(s);
	double t0 = s.d("t0"), t1 = s.d("t1");
	arma::vec y0 = s.av("y0");
	std::string call = s.s("call"), a, b;
	output_options od, oe;
	oe.output_mode = output_options::STORE_IN_VECTORS;
	oe.output_interval = 1;
	oe.output_stream = nullptr;
	Capture cout_(std::cout), cerr_(std::cerr);
	if (call[0] == 'e') {
		erk::solver_options d = erk::default_solver_options(), e;
		explicit_options(e);
		if (call != "e0") { some_options(d, s); some_options(e, s); }
		int m = call == "e2" ? int(s.i("method")) : int(erk::DORMAND_PRINCE_54);
		a = all(call == "e0" ? erk::odeint(f, t0, t1, y0)
		      : call == "e1" ? erk::odeint(f, t0, t1, y0, d, od)
		      : erk::odeint(f, t0, t1, y0, d, od, m));
		b = all(erk::odeint(g, t0, t1, y0, e, oe, m, 1e-6));
	} else if (call[0] == 'i') {
		irk::solver_options d = irk::default_solver_options(), e;
		newton::options nd, ne = explicit_newton(call == "i0" ? 0.1*1e-4 : 1e-4, call == "i0" ? 25 : 10);
		d.newton_opts = &nd; e.newton_opts = &ne;
		explicit_options(e);
		if (call != "i0") { some_options(d, s); some_options(e, s); }
		int m = call == "i2" ? int(s.i("method")) : int(irk::RADAU_IIA_53);
		a = all(call == "i0" ? irk::odeint(f, t0, t1, y0)
		      : call == "i1" ? irk::odeint(f, t0, t1, y0, d, od)
		      : irk::odeint(f, t0, t1, y0, d, od, m));
		b = all(irk::odeint(g, t0, t1, y0, e, oe, m, 1e-6));
	} else {
		newton::options d, e = explicit_newton(1e-4, 10);
		newton::status sd, se;
		newton::newton_functor_wrapper<Rec> w(f, t0), v(g, t0);
		bool br = call == "b";
		arma::vec x = br ? newton::broyden_iterate(w, y0, d, sd) : newton::newton_iterate(w, y0, d, sd);
		arma::vec z = br ? newton::broyden_iterate(v, y0, e, se, true) : newton::newton_iterate(v, y0, e, se, true);
		Obj p, q;
		p.raw("x", jv(x)).raw("conv", ji(sd.conv_status)).raw("res", jd(sd.res)).raw("iters", ji(sd.iters));
		q.raw("x", jv(z)).raw("conv", ji(se.conv_status)).raw("res", jd(se.res)).raw("iters", ji(se.iters));
		a = p.end(); b = q.end();
	}
	Obj o;
	o.raw("a", a).raw("b", b).raw("nf", ji(f.s->nf)).raw("nj", ji(f.s->nj))
	 .raw("nf2", ji(g.s->nf)).raw("nj2", ji(g.s->nj));
	return o.end();
}

// ------------------------------------------------------------ printing
static irk::coeff_list list_of(const std::string &t)
{
	irk::coeff_list r;
	if (t == "-") return r;
	std::string cur;
	std::vector<std::string> parts;
	for (char c : t) { if (c == '_') { parts.push_back(cur); cur.clear(); } else cur += c; }
	parts.push_back(cur);
	for (auto &p : parts) {
		std::vector<int> e;
		for (auto &x : split(p, '.')) if (!x.empty()) e.push_back(atoi(x.c_str()));
		r.push_back(e);
	}
	return r;
}

static std::string print(const Scn &s)
{
	std::ostringstream out;
	std::string kind = s.s("kind"), name = s.s("name");
	Obj o;
	if (kind == "coeffs" && s.has("method")) {
		irk::solver_coeffs sc = irk::get_coefficients(s.i("method"));
		o.raw("name", js(sc.name)).raw("A", jm(sc.A)).raw("b", jv(sc.b)).raw("c", jv(sc.c)).raw("b2", jv(sc.b2));
		out << sc;
	} else if (kind == "coeffs") {
		irk::solver_coeffs sc;
		sc.name = name.c_str();
		sc.b = s.av("b"); sc.c = s.av("cc"); sc.b2 = s.av("b2");
		std::size_t n = sc.b.size();
		auto a = s.v("A");
		sc.A = arma::zeros(n, n);
		for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) sc.A(i, j) = a[i*n + j];
		o.raw("name", js(sc.name)).raw("A", jm(sc.A)).raw("b", jv(sc.b)).raw("c", jv(sc.c)).raw("b2", jv(sc.b2));
		out << sc;
	} else if (kind == "list") {
		irk::coeff_list l = list_of(s.s("list"));
		irk::operator<<(out, l);
	} else if (kind == "timing") {
		irk::print_timing_breakdown(s.v("parts"), out, name);
	} else if (kind == "status") {
		out << newton::status_message(int(s.i("code")));
	}
	o.raw("text", jlines(out.str() + "\n"));
	return o.end();
}

// ------------------------------------------------------------ adapters
struct Derived : functor {
	Rec r;
	arma::vec fun(double t, const vec_type &y) override { return r.fun(t, y); }
	jac_type jac(double t, const vec_type &y) override { return r.jac(t, y); }
};

static std::string adapt(const Scn &s)
{
	Derived d;
	d.r.s->load(s);
	d.r.s->logf = d.r.s->logj = true;
	functor &base = d;
	std::string log = "[";
	bool first = true;
	// the adapters live as long as the history of calls made to them
	double t = 0;
	auto F = [&](const arma::vec &x) { return d.fun(t, x); };
	auto G = [&](const arma::vec &x) { return d.jac(t, x); };
	newton::newton_lambda_wrapper<decltype(F), decltype(G), arma::mat> lw(F, G);
	std::map<std::string, newton::newton_functor_wrapper<functor>> fws;
	for (auto &w : split(s.s("ops"), ';')) {     // kind:t:y_y_y
		auto p = split(w, ':');
		t = strtod(p[1].c_str(), nullptr);
		std::vector<double> yy;
		for (auto &x : split(p[2], '_')) yy.push_back(strtod(x.c_str(), nullptr));
		arma::vec y(yy);
		std::size_t n = y.size();
		arma::mat J(n, n);
		if (p.size() > 4) J.set_size(atoi(p[3].c_str()), atoi(p[4].c_str()));   // of any size before
		J.fill(-7.25);
		std::size_t rows = J.n_rows, cols = J.n_cols;
		arma::vec r(n);
		r.fill(-7.25);
		auto &fw = fws.emplace(p[1], newton::newton_functor_wrapper<functor>(base, t)).first->second;
		d.r.s->ev.clear();
		switch (p[0][0]) {
		case 'c': r = base.compute(t, y, J, true); break;
		case 'n': r = base.compute(t, y, J, false); break;
		case 'f': r = fw.fun(y); break;
		case 'j': J = fw.jac(y); break;
		case 'F': r = lw.fun(y); break;
		case 'J': J = lw.jac(y); break;
		}
		Obj o;
		o.raw("op", js(p[0])).raw("t", jd(t)).raw("y", jv(y)).raw("r", jv(r)).raw("J", jm(J))
		 .raw("kept", jb(J.n_rows == rows && J.n_cols == cols)).raw("ev", d.r.s->events());
		o.raw("r0", jv(d.fun(t, y))).raw("J0", jm(d.jac(t, y)));   // directly
		if (!first) log += ",";
		first = false;
		log += o.end();
	}
	return log + "]";
}

// integrating through the base class
static std::string through(const Scn &s)
{
	Derived d;
	Rec f;
	d.r.s->load(s);
	f.s->load(s);
	functor &base = d;
	double t0 = s.d("t0"), t1 = s.d("t1");
	arma::vec y0 = s.av("y0");
	output_options oo;
	std::string a, b;
	Capture cout_(std::cout), cerr_(std::cerr);
	if (s.s("fam") == "erk") {
		erk::solver_options so = erk::default_solver_options();
		set_common(so, s);
		a = all(erk::odeint(base, t0, t1, y0, so, oo, int(s.i("method")), s.d("dt")));
		b = all(erk::odeint(f, t0, t1, y0, so, oo, int(s.i("method")), s.d("dt")));
	} else {
		irk::solver_options so = irk::default_solver_options();
		set_common(so, s);
		newton::options no;
		no.tol = s.d("ntol", no.tol); no.dx_delta = s.d("ndx", no.dx_delta);
		so.newton_opts = &no;
		a = all(irk::odeint(base, t0, t1, y0, so, oo, int(s.i("method")), s.d("dt")));
		b = all(irk::odeint(f, t0, t1, y0, so, oo, int(s.i("method")), s.d("dt")));
	}
	Obj o;
	o.raw("a", a).raw("b", b).raw("nf", ji(d.r.s->nf)).raw("nj", ji(d.r.s->nj))
	 .raw("nf2", ji(f.s->nf)).raw("nj2", ji(f.s->nj));
	return o.end();
}

static std::string run(const Scn &s)
{
	Obj o;
	o.raw("end", "\"ok\"");
	std::string what = s.s("what");
	if (what == "defaults") o.raw("of", js(s.s("of"))).raw("v", defaults(s.s("of")));
	else if (what == "pair") o.raw("p", pair(s));
	else if (what == "print") o.raw("p", print(s));
	else if (what == "adapt") o.raw("log", adapt(s));
	else if (what == "through") o.raw("p", through(s));
	else return "{\"end\":\"crash\",\"sig\":0}";
	return o.end();
}

int main() { return drive(run); }
