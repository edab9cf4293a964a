// One Runge-Kutta integration, recorded.  Included by erk_driver and irk_driver
// with RKNS = erk or irk.
#include "common.hpp"

template <typename O> void set_common(O &o, const Scn &s)
{
	o.rel_tol = s.d("rtol", o.rel_tol);
	o.abs_tol = s.d("atol", o.abs_tol);
	o.max_dt = s.d("maxdt", o.max_dt);
	o.max_steps = s.i("maxsteps", o.max_steps);
	o.out_interval = s.i("progress", 0);
	o.time_internals = s.i("timeint", 0);
	o.adaptive_step_size = s.i("adaptive", 1);
}

// output destinations: a sequence of toggles 'S' (set stream), 'V' (store in
// vectors), 'N' (do not store in vectors), in the order given
inline void set_output(output_options &o, const Scn &s, std::ostream &stream)
{
	o.output_interval = s.i("oint", 1);
	for (char c : s.s("toggles")) {
		if (c == 'S') o.set_output_stream(stream);
		if (c == 'V') o.enable_store_in_vectors();
		if (c == 'N') o.disable_store_in_vectors();
	}
}

inline void count_irk(Obj &o, const irk::rk_output &r)
{
	o.raw("nrej", jc(r.count.reject_newton)).raw("nsucc", jc(r.count.newton_success))
	 .raw("ninc", jc(r.count.newton_incr_diverge))
	 .raw("nerr", jc(r.count.newton_iter_error_too_large))
	 .raw("nmax", jc(r.count.newton_maxit_exceed))
	 .raw("jev", jc(r.count.jac_evals));
}

template <typename R> void common_result(Obj &o, const R &r)
{
	o.raw("status", ji(r.status)).raw("T", jv(r.t_vals)).raw("Y", jvv(r.y_vals))
	 .raw("K", jvv(r.stages)).raw("E", jvv(r.err_est)).raw("EN", jv(r.err))
	 .raw("att", jc(r.count.attempt)).raw("rerr", jc(r.count.reject_err))
	 .raw("fev", jc(r.count.fun_evals)).raw("acc", jd(r.accept_frac))
	 .raw("elapsed", jd(r.elapsed_time));
}
