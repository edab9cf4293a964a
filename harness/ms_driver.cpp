// One multistep run (Adams-Bashforth or BDF), twice in the same process.
#include "common.hpp"
#include "rehuel.hpp"
#include "multistep.hpp"

static basic_output solve(const Scn &s, Rec &f)
{
	multistep::solver_options so;
	so.order = int(s.i("order"));
	if (s.s("what") == "ab")
		return multistep::adams_bashforth(f, s.d("t0"), s.d("t1"), s.av("y0"), so, s.d("dt"));
	return multistep::bdf(f, s.d("t0"), s.d("t1"), s.av("y0"), so, s.d("dt"));
}

static bool same(const basic_output &a, const basic_output &b)
{
	if (a.status != b.status || a.t_vals.size() != b.t_vals.size() ||
	    a.y_vals.size() != b.y_vals.size()) return false;
	if (a.t_vals.size() && std::memcmp(a.t_vals.data(), b.t_vals.data(), 8*a.t_vals.size())) return false;
	for (std::size_t i = 0; i < a.y_vals.size(); ++i) {
		if (a.y_vals[i].n_elem != b.y_vals[i].n_elem) return false;
		for (std::size_t k = 0; k < a.y_vals[i].n_elem; ++k)
			if (a.y_vals[i](k) != b.y_vals[i](k) &&
			    !(std::isnan(a.y_vals[i](k)) && std::isnan(b.y_vals[i](k)))) return false;
	}
	return true;
}

static std::string run(const Scn &s)
{
	Rec f, g;
	f.s->load(s);
	g.s->load(s);
	basic_output a, b;
	{
		Capture cout_(std::cout), cerr_(std::cerr);
		a = solve(s, f);
		b = solve(s, g);
	}
	Obj o;
	o.raw("end", "\"ok\"").raw("status", ji(a.status)).raw("T", jv(a.t_vals)).raw("Y", jvv(a.y_vals))
	 .raw("same", jb(same(a, b))).raw("nf", ji(f.s->nf)).raw("nj", ji(f.s->nj));
	return o.end();
}

int main() { return drive(run); }
