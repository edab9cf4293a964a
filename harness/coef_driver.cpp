// Coefficients, registries, validation, dense output weights and product
// expansion of both families.
#include "common.hpp"
#include "rehuel.hpp"

template <typename SC> std::string coeffs(const SC &sc)
{
	Obj o;
	o.raw("name", js(sc.name ? sc.name : "<null>"))
	 .raw("order", ji(sc.order)).raw("order2", ji(sc.order2))
	 .raw("fsal", jb(sc.FSAL)).raw("gamma", jd(sc.gamma))
	 .raw("A", jm(sc.A)).raw("b", jv(sc.b)).raw("c", jv(sc.c)).raw("b2", jv(sc.b2))
	 .raw("binterp", jm(sc.b_interp));
	return o.end();
}

template <typename SC> SC shaped(const Scn &s)
{
	SC sc;
	sc.name = "";
	sc.order = sc.order2 = 0;
	sc.FSAL = false;
	sc.gamma = 0;
	sc.b = arma::zeros(s.i("nb"));
	sc.c = arma::zeros(s.i("nc"));
	sc.A = arma::zeros(s.i("nr"), s.i("ncol"));
	if (s.has("ai")) sc.A(s.i("ai"), s.i("aj")) = s.d("av", 1);
	if (s.has("b2")) sc.b2 = arma::zeros(s.i("b2"));
	return sc;
}

static std::string lists(const irk::coeff_list &l)
{
	std::string r = "[";
	for (std::size_t i = 0; i < l.size(); ++i) {
		if (i) r += ",";
		r += "[";
		for (std::size_t j = 0; j < l[i].size(); ++j) { if (j) r += ","; r += ji(l[i][j]); }
		r += "]";
	}
	return r + "]";
}
// "1.2_3__" : elements separated by '_', numbers by '.', "-" is the empty list
static irk::coeff_list list_of(const std::string &t)
{
	irk::coeff_list r;
	if (t == "-") return r;
	std::string cur;
	std::vector<std::string> parts;
	for (char c : t) { if (c == '_') { parts.push_back(cur); cur.clear(); } else cur += c; }
	parts.push_back(cur);
	for (auto &p : parts) {
		std::vector<int> e;
		for (auto &x : split(p, '.')) if (!x.empty()) e.push_back(atoi(x.c_str()));
		r.push_back(e);
	}
	return r;
}

// A sequence of registry queries: "e:n:NAME", "e:c:CODE", "e:a", "e:k:CODE"
// (name to code, code to name, all names, coefficients), 'i' for implicit.
static std::string query(const std::string &q)
{
	auto p = split(q, ':');
	bool e = p[0] == "e";
	std::string arg = p.size() > 2 ? p[2] : "";
	if (p[1] == "n") return Obj().raw("q", js("name")).raw("fam", js(e ? "erk" : "irk")).raw("arg", js(arg))
		.raw("code", ji(e ? erk::name_to_method(arg) : irk::name_to_method(arg))).end();
	int code = atoi(arg.c_str());
	if (p[1] == "c") return Obj().raw("q", js("code")).raw("fam", js(e ? "erk" : "irk")).raw("arg", ji(code))
		.raw("name", js(e ? erk::method_to_name(code) : irk::method_to_name(code))).end();
	if (p[1] == "k") return Obj().raw("q", js("coef")).raw("fam", js(e ? "erk" : "irk")).raw("arg", ji(code))
		.raw("name", js(e ? erk::get_coefficients(code).name : irk::get_coefficients(code).name)).end();
	auto all = e ? erk::all_method_names() : irk::all_method_names();
	std::string r = "[";
	for (std::size_t i = 0; i < all.size(); ++i) { if (i) r += ","; r += js(all[i]); }
	return Obj().raw("q", js("all")).raw("fam", js(e ? "erk" : "irk")).raw("names", r + "]").end();
}
static std::string queries(const std::vector<std::string> &qs)
{
	std::string r = "[";
	for (std::size_t i = 0; i < qs.size(); ++i) { if (i) r += ","; r += query(qs[i]); }
	return r + "]";
}

// what must not matter for validation
template <typename O> void set_any(const Scn &s, O &so, newton::options &no)
{
	so.internal_solver = int(s.i("internal", so.internal_solver));
	so.rel_tol = s.d("rtol", so.rel_tol); so.abs_tol = s.d("atol", so.abs_tol);
	so.max_dt = s.d("maxdt", so.max_dt); so.max_steps = s.i("maxsteps", so.max_steps);
	so.out_interval = int(s.i("progress", so.out_interval)); so.time_internals = s.i("timeint", 0);
	so.adaptive_step_size = s.i("adaptive", 1);
	no.maxit = s.i("nmaxit", no.maxit); no.tol = s.d("ntol", no.tol);
}

static std::string run(const Scn &s)
{
	Obj o;
	o.raw("end", "\"ok\"");
	std::string what = s.s("what");
	Capture cout_(std::cout), cerr_(std::cerr);
	bool e = s.s("fam") == "erk";
	if (what == "coef") {
		int code = s.i("method");
		if (e) {
			auto sc = erk::get_coefficients(code);
			o.raw("valid", jb(erk::verify_solver_coeffs(sc))).raw("k", coeffs(sc));
		} else {
			auto sc = irk::get_coefficients(code);
			o.raw("valid", jb(irk::verify_solver_coeffs(sc))).raw("k", coeffs(sc));
			if (s.has("theta") && sc.b_interp.n_elem > 0) {
				std::string r = "[";
				bool first = true;
				for (double th : s.v("theta")) {
					if (!first) r += ",";
					first = false;
					r += jv(irk::project_b(th, sc));
				}
				o.raw("w", r + "]");
			}
		}
	} else if (what == "interp") {
		// weights from arbitrary nodes, through both families' evaluation
		irk::solver_coeffs sc;
		sc.c = s.av("nodes");
		sc.b = arma::zeros(sc.c.size());
		sc.A = arma::zeros(sc.c.size(), sc.c.size());
		sc.b_interp = irk::collocation_interpolate_coeffs(sc.c);
		erk::solver_coeffs se;
		se.c = sc.c; se.b = sc.b; se.A = sc.A; se.b_interp = sc.b_interp;
		std::string r = "[", r2 = "[";
		bool first = true;
		for (double th : s.v("theta")) {
			if (!first) { r += ","; r2 += ","; }
			first = false;
			r += jv(irk::project_b(th, sc));
			r2 += jv(erk::project_b(th, se));
		}
		o.raw("B", jm(sc.b_interp)).raw("w", r + "]").raw("we", r2 + "]");
	} else if (what == "shape") {
		if (e) o.raw("valid", jb(erk::verify_solver_coeffs(shaped<erk::solver_coeffs>(s))));
		else   o.raw("valid", jb(irk::verify_solver_coeffs(shaped<irk::solver_coeffs>(s))));
	} else if (what == "opts") {
		newton::options no;
		if (e) {
			erk::solver_options so = erk::default_solver_options();
			set_any(s, so, no);
			if (s.i("newton")) so.newton_opts = &no;
			o.raw("valid", jb(erk::verify_solver_options(so)));
		} else {
			irk::solver_options so = irk::default_solver_options();
			set_any(s, so, no);
			so.verbose_newton = s.i("verbose", 0); so.extrapolate_stage = s.i("extrapolate", 0);
			so.use_newton_iters_adaptive_step = s.i("usenewton", 1);
			if (s.i("newton")) so.newton_opts = &no;
			o.raw("valid", jb(irk::verify_solver_options(so)));
		}
	} else if (what == "expand") {
		auto a = list_of(s.s("a", "-")), b = list_of(s.s("b", "-")), c = list_of(s.s("c", "-"));
		auto a0 = a, b0 = b, c0 = c;
		o.raw("a", lists(a)).raw("b", lists(b)).raw("c", lists(c))
		 .raw("ab", lists(irk::expand(a, b)))
		 .raw("ab_c", lists(irk::expand(irk::expand(a, b), c)))
		 .raw("a_bc", lists(irk::expand(a, irk::expand(b, c))))
		 .raw("same", jb(a == a0 && b == b0 && c == c0));
	} else if (what == "registry") {
		int nt = s.i("threads", 0);
		std::vector<std::string> qs = split(s.s("q"), ',');
		if (nt <= 1) o.raw("log", queries(qs));
		else {
			// every thread asks all queries, starting at a different one
			std::vector<std::string> logs(nt);
			std::vector<std::thread> th;
			unsigned fseed = s.i("fine") ? unsigned(s.i("fseed")) + 1 : 0;
			if (fseed) fine_setup(nt, unsigned(s.i("fine")), fseed);
			for (int i = 0; i < nt; ++i)
				th.emplace_back([&, i]() {
					if (fseed) fine_begin(i);
					std::vector<std::string> mine;
					for (int rep = 0; rep < int(s.i("rep", 1)); ++rep)
						for (std::size_t j = 0; j < qs.size(); ++j)
							mine.push_back(qs[(j + i*7) % qs.size()]);
					logs[i] = queries(mine);
					if (fseed) fine_end(i);
				});
			if (fseed) fine_go();
			for (auto &t : th) t.join();
			std::string r = "[";
			for (int i = 0; i < nt; ++i) { if (i) r += ","; r += logs[i]; }
			o.raw("logs", r + "]");
		}
	} else return "{\"end\":\"crash\",\"sig\":0}";
	return o.end();
}

int main() { return drive(run); }
