From 0675ed1addafb8f25365cd7b803ccf5041096124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:00 +0000
Subject: [PATCH 01/44] fix: mark the FSAL helpers in erk.hpp inline (multiple
 definition in static links)

---
 erk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index ffbdbeb..706385a 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -227,7 +227,7 @@ vec_type project_b( double theta, const erk::solver_coeffs &sc );
    \param Ks stage matrix
    \param Ns number of stages.
 */
-void apply_fsal(mat_type &Ks, std::size_t Ns)
+inline void apply_fsal(mat_type &Ks, std::size_t Ns)
 {
 	Ks.col(0) = std::move(Ks.col(Ns-1));
 }
@@ -239,7 +239,7 @@ void apply_fsal(mat_type &Ks, std::size_t Ns)
    \param Ks stage matrix
    \param Ns number of stages.
 */
-void no_apply_fsal_dummy(mat_type &Ks, std::size_t Ns)
+inline void no_apply_fsal_dummy(mat_type &Ks, std::size_t Ns)
 { }
 
 
-- 
2.43.0


From 38c904216a6d58b63ff198001c6603778b390cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:00 +0000
Subject: [PATCH 02/44] fix: define verify_solver_options with the signature it
 is declared with

---
 erk.cpp | 2 +-
 irk.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/erk.cpp b/erk.cpp
index 89f0b20..ddf23c3 100644
--- a/erk.cpp
+++ b/erk.cpp
@@ -228,7 +228,7 @@ solver_options default_solver_options()
 }
 
 
-bool verify_solver_options(solver_options &opts)
+bool verify_solver_options(const solver_options &opts)
 {
 	return true;
 }
diff --git a/irk.cpp b/irk.cpp
index 6f03860..2a55903 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -697,7 +697,7 @@ solver_options default_solver_options()
 
 
 
-bool verify_solver_options( solver_options &opts )
+bool verify_solver_options( const solver_options &opts )
 {
 	if( opts.newton_opts ) return true;
 	std::cerr << "ERROR! solver_opts @" << &opts << " does not have "
-- 
2.43.0


From 2406547b977d0883a523e19ed77e5f3b011ed160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 03/44] fix: looking up an unknown method no longer adds it to
 the registry

---
 erk.cpp | 6 ++++--
 irk.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/erk.cpp b/erk.cpp
index ddf23c3..0d982a3 100644
--- a/erk.cpp
+++ b/erk.cpp
@@ -258,13 +258,15 @@ bool verify_solver_coeffs( const erk::solver_coeffs &sc )
 
 const char *method_to_name( int method )
 {
-	return erk::rk_method_to_string[method].c_str();
+	auto it = erk::rk_method_to_string.find( method );
+	return it != erk::rk_method_to_string.end() ? it->second.c_str() : "";
 }
 
 
 int name_to_method( const std::string &name )
 {
-	return erk::rk_string_to_method[name];
+	auto it = erk::rk_string_to_method.find( name );
+	return it != erk::rk_string_to_method.end() ? it->second : 0;
 }
 
 
diff --git a/irk.cpp b/irk.cpp
index 2a55903..0f1ead3 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -708,13 +708,15 @@ bool verify_solver_options( const solver_options &opts )
 
 const char *method_to_name( int method )
 {
-	return irk::rk_method_to_string[method].c_str();
+	auto it = irk::rk_method_to_string.find( method );
+	return it != irk::rk_method_to_string.end() ? it->second.c_str() : "";
 }
 
 
 int name_to_method( const std::string &name )
 {
-	return irk::rk_string_to_method[name];
+	auto it = irk::rk_string_to_method.find( name );
+	return it != irk::rk_string_to_method.end() ? it->second : 0;
 }
 
 
-- 
2.43.0


From f1fcaef55eb3fe1ba29ae375725b586ab908a7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 04/44] fix: merge_rk_output adds up the evaluation counters
 too

---
 irk.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irk.cpp b/irk.cpp
index 0f1ead3..5982001 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -780,6 +780,8 @@ rk_output merge_rk_output( const rk_output &sol1, const rk_output &sol2 )
 	merger.count.newton_iter_error_too_large +=
 		sol2.count.newton_iter_error_too_large;
 	merger.count.newton_maxit_exceed += sol2.count.newton_maxit_exceed;
+	merger.count.fun_evals += sol2.count.fun_evals;
+	merger.count.jac_evals += sol2.count.jac_evals;
 
 	return merger;
 }
-- 
2.43.0


From cead7df65734e5e9146eebc9e8d1404f781ba475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 05/44] fix: initialise status, elapsed_time, accept_frac and
 output_stream

---
 erk.hpp     | 2 +-
 irk.hpp     | 2 +-
 options.hpp | 2 +-
 output.hpp  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index 706385a..d6b6e0f 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -138,7 +138,7 @@ struct rk_output : basic_output
 	std::vector<vec_type> err_est;
 	std::vector<double>   err;
 
-	double elapsed_time, accept_frac;
+	double elapsed_time = 0.0, accept_frac = 0.0;
 
 	counters count;
 };
diff --git a/irk.hpp b/irk.hpp
index a7155c4..78b6c65 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -157,7 +157,7 @@ struct rk_output : basic_output
 	std::vector<vec_type> err_est;
 	std::vector<double>   err;
 
-	double elapsed_time, accept_frac;
+	double elapsed_time = 0.0, accept_frac = 0.0;
 
 	counters count;
 };
diff --git a/options.hpp b/options.hpp
index 951e07a..665e930 100644
--- a/options.hpp
+++ b/options.hpp
@@ -103,7 +103,7 @@ struct output_options {
 	std::size_t output_mode = STORE_IN_VECTORS;
 	std::size_t output_interval = 1;
 	std::ostream &log_out = std::cout;
-	std::ostream *output_stream;
+	std::ostream *output_stream = nullptr;
 
 	bool store_in_vectors() const
 	{
diff --git a/output.hpp b/output.hpp
index fa054df..880bf58 100644
--- a/output.hpp
+++ b/output.hpp
@@ -28,7 +28,7 @@
 #define OUTPUT_HPP
 
 struct basic_output {
-	int status;
+	int status = 0; ///< See \ref odeint_status_codes
 	
 	std::vector<double> t_vals;
 	std::vector<vec_type> y_vals;
-- 
2.43.0


From 37fad8637ce25221e923fa0feb0729d2a12ac0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 06/44] fix: cyclic_buffer assignment compiles and copies the
 storage

---
 cyclic_buffer.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cyclic_buffer.hpp b/cyclic_buffer.hpp
index 680bc2f..ff3fe9a 100644
--- a/cyclic_buffer.hpp
+++ b/cyclic_buffer.hpp
@@ -24,17 +24,16 @@ public:
 
 	cyclic_buffer &operator=( const cyclic_buffer &o )
 	{
-		if(*this != &o){
+		if(this != &o){
 			if(period_ >= o.period()){
 				// No need to resize.
 			}
 
 			// Copy contents of storage:
-			storage_.resize(2*o.period());
+			storage_ = o.storage();
 			period_ = o.period();
 			current_ = o.current();
 			size_ = o.size();
-			std::copy(o.storage().begin(), o.storage().end(), storage_.begin());
 		}
 
 		return *this;
-- 
2.43.0


From 9e49e6c91e476c8e9a6523a972739b6887152be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 07/44] fix: cyclic_buffer::resize leaves an empty, usable
 buffer

---
 cyclic_buffer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyclic_buffer.hpp b/cyclic_buffer.hpp
index ff3fe9a..3bade1c 100644
--- a/cyclic_buffer.hpp
+++ b/cyclic_buffer.hpp
@@ -179,9 +179,10 @@ public:
 	void resize(std::size_t size)
 	{
 		storage_.clear();
-		storage_.reserve(2*size);
+		storage_.resize(2*size);
 		period_  = size;
 		current_ = 0;
+		size_    = 0;
 	}
 
 	/*
-- 
2.43.0


From 371a34c6a053d7337200d61e76ff918eacd2a75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:19 +0000
Subject: [PATCH 08/44] fix: cyclic_buffer iterators visit the stored values
 from newest to oldest

---
 cyclic_buffer.hpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/cyclic_buffer.hpp b/cyclic_buffer.hpp
index 3bade1c..2e2ae64 100644
--- a/cyclic_buffer.hpp
+++ b/cyclic_buffer.hpp
@@ -129,7 +129,8 @@ public:
 
 	struct iterator
 	{
-		iterator(long idx, typename std::vector<T>::iterator it){}
+		iterator(long idx, typename std::vector<T>::iterator it)
+			: idx_(idx), it_(it) {}
 
 		// We iterate backwards through the vector...
 		iterator &operator++()
@@ -147,10 +148,7 @@ public:
 			return o.idx_ != idx_;
 		}
 
-		T operator*() const
-		{ return *(it_ + idx_); }
-
-		T &operator*()
+		T &operator*() const
 		{ return *(it_ + idx_); }
 
 		long idx_;
@@ -164,11 +162,8 @@ public:
 
 	iterator end()
 	{
-		if (current_ >= period_) {
-			return iterator(current_ = period_, storage_.begin());
-		} else {
-			return iterator(0, storage_.begin());
-		}
+		if (size_ == 0) return begin();
+		return iterator(current_ - size_, storage_.begin());
 	}
 
 	/**
-- 
2.43.0


From 0c0c531087acbef49e6f5b8eb8e7e7c084fe37c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:19 +0000
Subject: [PATCH 09/44] fix: cyclic_buffer keeps values written through
 operator[] when it wraps

---
 cyclic_buffer.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cyclic_buffer.hpp b/cyclic_buffer.hpp
index 2e2ae64..9afaadc 100644
--- a/cyclic_buffer.hpp
+++ b/cyclic_buffer.hpp
@@ -1,6 +1,7 @@
 #ifndef CYCLIC_BUFFER
 #define CYCLIC_BUFFER
 
+#include <algorithm>
 #include <cassert>
 #include <vector>
 #include <iostream>
@@ -114,6 +115,10 @@ public:
 		}
 		current_ = next_spot;
 		if (next_spot == 2*period_ - 1) {
+			// Elements written through operator[] differ in the
+			// upper half only, so take that one along.
+			std::copy(storage_.begin() + period_, storage_.end(),
+			          storage_.begin());
 			current_ = period_ - 1;
 		}
 
-- 
2.43.0


From f510c3146d7310c13071e5c7c3c9da113bfc2967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 10/44] fix: never take more than max_steps steps, and report
 statistics when stopping there

---
 erk.hpp | 11 ++++++-----
 irk.hpp | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index d6b6e0f..9813fa6 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -332,14 +332,13 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		if( t + dt > t1 ){
 			dt = t1 - t;
 		}
-		sol.count.attempt++;
-
 		if (solver_opts.max_steps >= 0 &&
-		    step > solver_opts.max_steps) {
+		    step >= solver_opts.max_steps) {
 			std::cerr << "    Rehuel: Maximum number of attempts exceeded.\n";
 			sol.status = ERROR_MAX_STEPS_EXCEEDED;
-			return sol;
+			break;
 		}
+		sol.count.attempt++;
 
 		int integrator_status = 0;
 
@@ -458,7 +457,9 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 	}
 	double elapsed = timer.toc();
 	sol.elapsed_time = elapsed;
-	sol.accept_frac = static_cast<double>(step) / sol.count.attempt;
+	if (sol.count.attempt > 0) {
+		sol.accept_frac = static_cast<double>(step) / sol.count.attempt;
+	}
 	return sol;
 }
 
diff --git a/irk.hpp b/irk.hpp
index 78b6c65..cd225d1 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -607,13 +607,12 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		if( t + dt > t1 ){
 			dt = t1 - t;
 		}
-		sol.count.attempt++;
-
-		if (solver_opts.max_steps >= 0 && step > solver_opts.max_steps) {
+		if (solver_opts.max_steps >= 0 && step >= solver_opts.max_steps) {
 			output_opts.log_out << "    Rehuel: Maximum number of attempts exceeded.\n";
 			sol.status = ERROR_MAX_STEPS_EXCEEDED;
-			return sol;
+			break;
 		}
+		sol.count.attempt++;
 
 		int integrator_status = 0;
 
@@ -861,7 +860,9 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 
 	double elapsed = timer.get_elapsed(irk_start);
 	sol.elapsed_time = elapsed;
-	sol.accept_frac = static_cast<double>(step) / sol.count.attempt;
+	if (sol.count.attempt > 0) {
+		sol.accept_frac = static_cast<double>(step) / sol.count.attempt;
+	}
 
 	if (time_internals) print_timing_breakdown(timings, std::cerr, sc.name);
 
-- 
2.43.0


From 4d432b5e77f3bddfd40cfb9af8e5ac64e1686124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 11/44] fix: the last step ends exactly at the end time in
 spite of rounding

---
 erk.hpp | 5 +++--
 irk.hpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index 9813fa6..e36d9dc 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -329,7 +329,8 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 	while (t < t1) {
 		// ****************  Calculate stages:   ************
 		// Make sure you stop exactly at t = t1.
-		if( t + dt > t1 ){
+		bool last_step = t + dt >= t1;
+		if( last_step ){
 			dt = t1 - t;
 		}
 		if (solver_opts.max_steps >= 0 &&
@@ -431,7 +432,7 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		// ********************* Update y and time ***************
 		if (!solver_opts.adaptive_step_size || integrator_status == 0) {
 			y  = y_n;
-			t += dt;
+			t  = last_step ? t1 : t + dt;
 			++step;
 
 			sol.t_vals.push_back(t);
diff --git a/irk.hpp b/irk.hpp
index cd225d1..1eabc2b 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -604,7 +604,8 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 	while (t < t1) {
 		// ****************  Calculate stages:   ************
 		// Make sure you stop exactly at t = t1.
-		if( t + dt > t1 ){
+		bool last_step = t + dt >= t1;
+		if( last_step ){
 			dt = t1 - t;
 		}
 		if (solver_opts.max_steps >= 0 && step >= solver_opts.max_steps) {
@@ -813,7 +814,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			if (time_internals) timer.tic();
 			yo = y;
 			y  = y_n;
-			t += dt;
+			t  = last_step ? t1 : t + dt;
 			++step;
 
 			if (time_internals) {
-- 
2.43.0


From 2332f1659aed56ac213dcb2e8efc00e83c589f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 12/44] fix: max_dt limits the initial step too

---
 erk.hpp | 4 ++++
 irk.hpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/erk.hpp b/erk.hpp
index e36d9dc..20d3329 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -272,6 +272,10 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		          << dt << "\n";
 	}
 
+	if (solver_opts.max_dt > 0) {
+		dt = std::min(dt, solver_opts.max_dt);
+	}
+
 	std::cerr << "    Rehuel: Integrating over interval [ "
 	          << t0 << ", " << t1 << " ]...\n"
 	          << "            Method = " << sc.name << "\n";
diff --git a/irk.hpp b/irk.hpp
index 1eabc2b..7c8c81e 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -519,6 +519,10 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 
 	}
 
+	if (solver_opts.max_dt > 0) {
+		dt = std::min(dt, solver_opts.max_dt);
+	}
+
 	output_opts.log_out << "    Rehuel: Integrating over interval [ "
 	                    << t0 << ", " << t1 << " ]...\n"
 	                    << "            Method = " << sc.name << "\n";
-- 
2.43.0


From ab5c5aa1b6807aacd9747778fe11aec996f4ae0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 13/44] fix: explicit methods write accepted steps only, with
 their own time, and honour the output options

---
 erk.hpp | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index 20d3329..d7573f1 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -425,26 +425,29 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			          << " " <<  dt << " " << err << "\n";
 		}
 
-		if (output_opts.write_to_file()) {
-			*output_opts.output_stream << t;
-			for (std::size_t y_idx = 0; y_idx < y_n.size(); ++y_idx) {
-				*output_opts.output_stream << " " << y_n[y_idx];
-			}
-			*output_opts.output_stream << "\n";
-		}
-
 		// ********************* Update y and time ***************
 		if (!solver_opts.adaptive_step_size || integrator_status == 0) {
 			y  = y_n;
 			t  = last_step ? t1 : t + dt;
 			++step;
 
-			sol.t_vals.push_back(t);
-			sol.y_vals.push_back(y_n);
-			// Since K is a matrix, it needs to be flattened:
-			sol.stages.push_back(arma::vectorise(Ks));
-			sol.err_est.push_back(err_est);
-			sol.err.push_back(err);
+			if (step % output_opts.output_interval == 0) {
+				if (output_opts.store_in_vectors()) {
+					sol.t_vals.push_back(t);
+					sol.y_vals.push_back(y_n);
+					// Since K is a matrix, it needs to be flattened:
+					sol.stages.push_back(arma::vectorise(Ks));
+					sol.err_est.push_back(err_est);
+					sol.err.push_back(err);
+				}
+				if (output_opts.write_to_file()) {
+					*output_opts.output_stream << t;
+					for (std::size_t y_idx = 0; y_idx < y_n.size(); ++y_idx) {
+						*output_opts.output_stream << " " << y_n[y_idx];
+					}
+					*output_opts.output_stream << "\n";
+				}
+			}
 
 			// If you reach here, your new time step has been
 			// accepted and your last stage can now be uesd
-- 
2.43.0


From e56c939d43c7e42e6a9dedc70a9bbe2475d173d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 14/44] fix: explicit methods reject non-finite attempts and
 stop with an error when the step vanishes

---
 erk.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index d7573f1..7387688 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -343,6 +343,11 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			sol.status = ERROR_MAX_STEPS_EXCEEDED;
 			break;
 		}
+		if (!(t + dt > t)) {
+			std::cerr << "    Rehuel: Time step size became too small!\n";
+			sol.status = GENERAL_ERROR;
+			break;
+		}
 		sol.count.attempt++;
 
 		int integrator_status = 0;
@@ -382,8 +387,6 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 				err_tot += add*add;
 			}
 			err = std::sqrt(err_tot / n);
-			assert( err_tot >= 0.0 && "Error cannot be negative!" );
-
 			if (err < machine_precision) {
 				err = machine_precision;
 			}
@@ -395,7 +398,8 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			// TODO: This might need optimization geared
 			//       to explicit methods.
 			// Error is too large to tolerate:
-			if (solver_opts.adaptive_step_size && (err >= 1.0)) {
+			// (this includes a NaN and non-finite solutions)
+			if (!(err < 1.0) || !y_n.is_finite()) {
 				integrator_status = 1;
 				sol.count.reject_err++;
 			}
@@ -411,6 +415,9 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			// }
 			// double err_rat = std::pow(err_frac, expt);
 			double min_scale = scale_27; // std::min(scale_27, scale_28);
+			if (!std::isfinite(err) || !y_n.is_finite()) {
+				min_scale = 0.1;
+			}
 			new_dt = fac * dt * std::min(4.0, min_scale);
 
 			if (solver_opts.max_dt > 0) {
@@ -418,6 +425,13 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			}
 		}
 
+		if (!solver_opts.adaptive_step_size && !y_n.is_finite()) {
+			std::cerr << "    Rehuel: Solution is no longer finite!\n";
+			sol.count.reject_err++;
+			sol.status = GENERAL_ERROR;
+			break;
+		}
+
 		// ********************* Output if user requested **************
 		if (solver_opts.out_interval > 0 &&
 		    (step % solver_opts.out_interval == 0) ) {
-- 
2.43.0


From 38e5bb9e4b42ab5ea453bb788a447c2b50ba0ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 15/44] fix: the LU decomposition in the stage solver is not
 part of an assertion

---
 irk.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/irk.hpp b/irk.hpp
index 7c8c81e..2e7eb9f 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -429,8 +429,10 @@ int newton_solve_stages(functor_type &func, const vec_type &y, double t,
 			// Since we re-use the same Jacobi matrix,
 			// pre-construct the LU decomposition:
 			if (PLU_decomposition) {
-				assert(arma::lu(L,U,P, J_Y) &&
+				bool lu_ok = arma::lu(L,U,P, J_Y);
+				assert(lu_ok &&
 				       "LU decomposition of Jacobi matrix failed!");
+				(void) lu_ok;
 			}
 			++jac_evals;
 		};
-- 
2.43.0


From 35a61d41ea0a216ccb5a8fc5eaa17bfc9d7dcaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 16/44] fix: refresh_jac = 0 means never refresh in the stage
 solver too (division by zero)

---
 irk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irk.hpp b/irk.hpp
index 2e7eb9f..c89cf68 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -484,7 +484,7 @@ int newton_solve_stages(functor_type &func, const vec_type &y, double t,
 			step = 1.0 / sqrt(1.0 + Rnorm2);
 		}
 
-		if (stats.iters % refresh_jac == 0) {
+		if (refresh_jac > 0 && stats.iters % refresh_jac == 0) {
 			refresh_jacobi_matrix();
 		}
 	}
-- 
2.43.0


From d03a1a6063decfbdbbab421ce930f8e5b2a937cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 17/44] fix: set the orders of GAUSS_LEGENDRE_147,
 LOBATTO_IIIA_127 and unknown methods

---
 erk.cpp | 1 +
 irk.cpp | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/erk.cpp b/erk.cpp
index 0d982a3..603529b 100644
--- a/erk.cpp
+++ b/erk.cpp
@@ -15,6 +15,7 @@ solver_coeffs get_coefficients( int method )
 	sc.FSAL = false;
 	sc.name = method_to_name( method );
 	sc.gamma = 0.0;
+	sc.order = sc.order2 = 0;
 
 
 	switch(method){
diff --git a/irk.cpp b/irk.cpp
index 5982001..e1605b6 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -229,6 +229,7 @@ solver_coeffs get_coefficients( int method )
 	sc.FSAL = false;
 	sc.name = method_to_name( method );
 	sc.gamma = 0.0;
+	sc.order = sc.order2 = 0;
 
 	switch(method){
 	default:
@@ -609,6 +610,9 @@ solver_coeffs get_coefficients( int method )
 		          sc.b(5) + 0.14407010361206885 * sc.gamma,
 		          sc.b(6) - 0.04111514886290593 * sc.gamma  };
 
+		sc.order  = 14;
+		sc.order2 = 7;
+
 		break;
 	}
 
@@ -666,6 +670,9 @@ solver_coeffs get_coefficients( int method )
 		          sc.b(5),
 		          sc.b(6) };
 
+		sc.order  = 12;
+		sc.order2 = 7;
+
 		break;
 	}
 
-- 
2.43.0


From c2c3766e1d0a192589704654fa2e5c294647f6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 18/44] fix: implicit integration with a constant step size no
 longer throws

---
 irk.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/irk.hpp b/irk.hpp
index c89cf68..8f94293 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -604,7 +604,9 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 	// Construct the alternative weights:
 	mat_type Ai = arma::inv(sc.A);
 	vec_type d_weights  = (Ai.t())*sc.b;
-	vec_type d2_weights = (Ai.t())*sc.b2;
+	// Without an embedded method there is no error estimate.
+	vec_type d2_weights = d_weights;
+	if (sc.b2.size() > 0) d2_weights = (Ai.t())*sc.b2;
 
 
 	while (t < t1) {
@@ -701,9 +703,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		mat_type YYs = arma::reshape(Y, Neq, Ns);
 		delta_y = YYs*d_weights;
 
-		if (solver_opts.adaptive_step_size) {
-			delta_alt = YYs*d2_weights;
-		}
+		delta_alt = YYs*d2_weights;
 
 		vec_type dy_alt = gam * func.fun(t,y) + delta_alt;
 		++sol.count.fun_evals;
-- 
2.43.0


From c09399e70eb777fb55e16ca324d2a14faea267e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 19/44] fix: implicit methods return the stages of each step
 instead of zeros

---
 irk.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irk.hpp b/irk.hpp
index 8f94293..df743c6 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -702,6 +702,8 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		// Vectorized version of the loop below:
 		mat_type YYs = arma::reshape(Y, Neq, Ns);
 		delta_y = YYs*d_weights;
+		// The stages proper are the k_i in Y_i = dt*(a_i1*k1 + ...).
+		K_np = arma::vectorise( YYs*Ai.t() ) / dt;
 
 		delta_alt = YYs*d2_weights;
 
-- 
2.43.0


From 8b25dd4ee93b3b1d19eecf264d978203fd602a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:13 +0000
Subject: [PATCH 20/44] fix: integrate with implicit methods whose matrix is
 singular instead of throwing

---
 irk.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/irk.hpp b/irk.hpp
index df743c6..3ba07f2 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -602,7 +602,11 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 	newton::status newton_stats;
 
 	// Construct the alternative weights:
-	mat_type Ai = arma::inv(sc.A);
+	// If A is singular (because of an explicit stage), the weights are
+	// those for dt*k_i instead of those for Y_i.
+	const bool A_regular = arma::rank(sc.A) == Ns;
+	mat_type Ai = arma::eye(Ns,Ns);
+	if (A_regular) Ai = arma::inv(sc.A);
 	vec_type d_weights  = (Ai.t())*sc.b;
 	// Without an embedded method there is no error estimate.
 	vec_type d2_weights = d_weights;
@@ -701,6 +705,10 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 
 		// Vectorized version of the loop below:
 		mat_type YYs = arma::reshape(Y, Neq, Ns);
+		for (std::size_t i = 0; !A_regular && i < Ns; ++i) {
+			YYs.col(i) = dt*func.fun(t + sc.c(i)*dt, y + YYs.col(i));
+			++sol.count.fun_evals;
+		}
 		delta_y = YYs*d_weights;
 		// The stages proper are the k_i in Y_i = dt*(a_i1*k1 + ...).
 		K_np = arma::vectorise( YYs*Ai.t() ) / dt;
-- 
2.43.0


From f613a583d268693d419075092c3d88bbb916f344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 21/44] fix: implicit methods treat non-finite residuals,
 errors and states as failed attempts

---
 irk.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/irk.hpp b/irk.hpp
index 3ba07f2..8907496 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -458,6 +458,10 @@ int newton_solve_stages(functor_type &func, const vec_type &y, double t,
 	int status = newton::MAXIT_EXCEEDED;
 	stats.iters = 1;
 	for ( ; stats.iters < maxit; ++stats.iters) {
+		if (!std::isfinite(Rnorm2) || !J_Y.is_finite()) {
+			status = newton::ITERATION_ERROR_TOO_LARGE;
+			break;
+		}
 		vec_type dY;
 		if (PLU_decomposition) {
 			vec_type tmp = arma::solve(arma::trimatl(-L), P*R);
@@ -472,6 +476,7 @@ int newton_solve_stages(functor_type &func, const vec_type &y, double t,
 
 		fun_evals += Ns;
 		Rnorm2 = arma::dot(R,R);
+		if (!std::isfinite(Rnorm2)) continue;
 		if (Rnorm2 < Rtol2) {
 			status = newton::SUCCESS;
 			break;
@@ -761,7 +766,6 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			n += 1.0;
 		}
 
-		assert( err_tot >= 0.0 && "Error cannot be negative!" );
 		err = std::sqrt( err_tot / n );
 
 
@@ -774,7 +778,8 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		errs[0] = err;
 		if (time_internals) timings[ESTIMATE_ERROR] += timer.toc();
 
-		if( solver_opts.adaptive_step_size && (err > 1.0) ){
+		if( solver_opts.adaptive_step_size &&
+		    ( !(err <= 1.0) || !y_n.is_finite() ) ){
 			// This is bad.
 			alternative_error_formula = true;
 			integrator_status = 1;
@@ -782,6 +787,13 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		}
 
 
+		if( !solver_opts.adaptive_step_size && !y_n.is_finite() ){
+			output_opts.log_out << "    Rehuel: Solution is no longer finite!\n";
+			sol.count.reject_err++;
+			sol.status = GENERAL_ERROR;
+			break;
+		}
+
 		// **************      Find new dt:    **********************
 		if (time_internals) timer.tic();
 		double fac = 0.9 * (newton_maxit + 1.0);
@@ -810,6 +822,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		*/
 
 		double min_scales = std::min( scale_27, scale_28 );
+		if (!std::isfinite(err) || !y_n.is_finite()) min_scales = 0.1;
 		// When growing dt, don't grow more than a factor 4:
 		new_dt = fac * dt * std::min( 8.0, min_scales );
 		if( solver_opts.max_dt > 0 ){
-- 
2.43.0


From 22942421da931d88609db98e46eecdccb1b8f843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 22/44] fix: count the failed attempt when a constant-step
 implicit run gives up

---
 irk.hpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/irk.hpp b/irk.hpp
index 8907496..c845f72 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -649,15 +649,6 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 
 		// *********** Verify Newton iteration convergence ************
 		if (newton_status != newton::SUCCESS){
-			if (!solver_opts.adaptive_step_size) {
-				// In this case, you can do nothing but error.
-				sol.status = GENERAL_ERROR;
-				output_opts.log_out << "   Rehuel: Newton iteration "
-				          << "failed for constant time step "
-				          << "size! Aborting!\n";
-				return sol;
-			}
-
 			dt *= 0.7;
 			if (step - last_maxit_relax_step > 15) {
 				newton_maxit += newton_maxit0;
@@ -679,6 +670,14 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			}else if (newton_status == newton::MAXIT_EXCEEDED){
 				sol.count.newton_maxit_exceed++;
 			}
+			if (!solver_opts.adaptive_step_size) {
+				// In this case, you can do nothing but error.
+				sol.status = GENERAL_ERROR;
+				output_opts.log_out << "   Rehuel: Newton iteration "
+				          << "failed for constant time step "
+				          << "size! Aborting!\n";
+				break;
+			}
 			continue;
 		} else {
 			sol.count.newton_success++;
-- 
2.43.0


From c81bbd69aa8d0e9b218e735add8ce019a3de119b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 23/44] fix: implicit methods stop with an error when the step
 vanishes instead of retrying forever

---
 irk.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/irk.hpp b/irk.hpp
index c845f72..4912f1a 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -630,6 +630,11 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			sol.status = ERROR_MAX_STEPS_EXCEEDED;
 			break;
 		}
+		if (!(t + dt > t)) {
+			output_opts.log_out << "    Rehuel: Time step size became too small!\n";
+			sol.status = GENERAL_ERROR;
+			break;
+		}
 		sol.count.attempt++;
 
 		int integrator_status = 0;
-- 
2.43.0


From 2e9af760c5e30abb0e143b87d72e77e8f8d6d93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 24/44] fix: Newton iteration that converges in the last
 allowed iteration is a success

---
 newton.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/newton.hpp b/newton.hpp
index b1e3b8f..b8f5160 100644
--- a/newton.hpp
+++ b/newton.hpp
@@ -457,6 +457,7 @@ vec_type newton_iterate_impl(functor_type &func, vec_type x,
 			}
 		}catch( std::exception &e ){
 			stats.conv_status = GENERIC_ERROR;
+			stats.res = std::sqrt( res2 );
 			std::cerr << "Newton caught generic error!\n";
 			return x;
 		}
@@ -521,7 +522,7 @@ vec_type newton_iterate_impl(functor_type &func, vec_type x,
 	}
 
 
-	if( stats.iters == opts.maxit ){
+	if( !terminate ){
 		stats.conv_status = MAXIT_EXCEEDED;
 	}
 	stats.res = std::sqrt( res2 );
-- 
2.43.0


From 6946384cdbd7e61754bf1bfe7c21137148b4ad4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 25/44] fix: Broyden iteration never moves farther than
 max_step

---
 newton.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newton.hpp b/newton.hpp
index b8f5160..98dc68e 100644
--- a/newton.hpp
+++ b/newton.hpp
@@ -310,8 +310,8 @@ vec_type broyden_iterate( functor_type &func, vec_type x,
 
 		if( max_step2 > 0 ){
 			double norm2 = dot( direction, direction );
-			if( lambda*lambda*norm2 > max_step2 ){
-				direction *= std::sqrt(max_step2/norm2)/lambda;
+			if( norm2 > max_step2 ){
+				direction *= std::sqrt(max_step2/norm2);
 			}
 		}
 		incr = arma::norm(direction, "inf");
-- 
2.43.0


From 8e2e913cfb4066d937d4076b289f2d7d3d0c31f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 26/44] fix: Broyden iteration reports when it did not converge

---
 newton.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/newton.hpp b/newton.hpp
index 98dc68e..eb1c15b 100644
--- a/newton.hpp
+++ b/newton.hpp
@@ -345,6 +345,8 @@ vec_type broyden_iterate( functor_type &func, vec_type x,
 	}
 
 	stats.res = std::sqrt( res2 );
+	if( !terminate ) stats.conv_status = MAXIT_EXCEEDED;
+	if( !std::isfinite( stats.res ) ) stats.conv_status = GENERIC_ERROR;
 	return x;
 }
 
-- 
2.43.0


From 2d842908cd127409d188c1a94230b110461b9a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 27/44] fix: Adams-Bashforth evaluates earlier points at their
 own times

---
 multistep.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/multistep.hpp b/multistep.hpp
index fc717e6..111561c 100644
--- a/multistep.hpp
+++ b/multistep.hpp
@@ -82,25 +82,25 @@ void adams_bashforth_step(functor_type &func, int order,
 		break;
 	case 2:
 		Y += dt*(C[1][0]*func.fun(t, history[0]) +
-		         C[1][1]*func.fun(t, history[1]));
+		         C[1][1]*func.fun(t - dt, history[1]));
 		break;
 	case 3:
 		Y += dt*(C[2][0]*func.fun(t, history[0]) +
-		         C[2][1]*func.fun(t, history[1]) +
-		         C[2][2]*func.fun(t, history[2]));
+		         C[2][1]*func.fun(t - dt, history[1]) +
+		         C[2][2]*func.fun(t - 2*dt, history[2]));
 		break;
 	case 4:
 		Y += dt*(C[3][0]*func.fun(t, history[0]) +
-		         C[3][1]*func.fun(t, history[1]) +
-		         C[3][2]*func.fun(t, history[2]) +
-		         C[3][3]*func.fun(t, history[3]));
+		         C[3][1]*func.fun(t - dt, history[1]) +
+		         C[3][2]*func.fun(t - 2*dt, history[2]) +
+		         C[3][3]*func.fun(t - 3*dt, history[3]));
 		break;
 	case 5:
 		Y += dt*(C[4][0]*func.fun(t, history[0]) +
-		         C[4][1]*func.fun(t, history[1]) +
-		         C[4][2]*func.fun(t, history[2]) +
-		         C[4][3]*func.fun(t, history[3]) +
-		         C[4][4]*func.fun(t, history[4]));
+		         C[4][1]*func.fun(t - dt, history[1]) +
+		         C[4][2]*func.fun(t - 2*dt, history[2]) +
+		         C[4][3]*func.fun(t - 3*dt, history[3]) +
+		         C[4][4]*func.fun(t - 4*dt, history[4]));
 		break;
 
 	default:
-- 
2.43.0


From c284b984b85eebfa4e60b1c3fbf20f8c7dc37eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 28/44] fix: multistep start-up values are the solution values,
 not copies of the initial value

---
 multistep.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multistep.hpp b/multistep.hpp
index 111561c..c26a343 100644
--- a/multistep.hpp
+++ b/multistep.hpp
@@ -117,7 +117,6 @@ basic_output bootstrap_history(functor_type &func, int order, const vec_type &y,
                                double t, double dt)
 {
 	output_options output_opts;
-	output_opts.output_mode = output_options::NO_OUTPUT;
 
 	basic_output start;
 	start.t_vals.push_back(t);
@@ -130,6 +129,7 @@ basic_output bootstrap_history(functor_type &func, int order, const vec_type &y,
 	opts.newton_opts = &n_opts;
 	opts.rel_tol = 1e-10;
 	opts.abs_tol = 1e-9;
+	n_opts.tol = n_opts.dx_delta = 0.1*opts.rel_tol;
 
 	for (int i = 1; i < order; ++i) {
 		auto tmp_sol = irk::odeint(func,  t, t+dt, start.y_vals[i-1],
-- 
2.43.0


From 198aec90bf15f7d37d835e0ea68578878093b497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 29/44] fix: Adams-Bashforth reports unsupported orders as an
 error instead of aborting

---
 multistep.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/multistep.hpp b/multistep.hpp
index c26a343..2fce4d8 100644
--- a/multistep.hpp
+++ b/multistep.hpp
@@ -149,6 +149,15 @@ basic_output adams_bashforth(functor_type &func, double t0, double t1,
                              const vec_type &y0,
                              const solver_options &solver_opts, double dt)
 {
+	multistep_output sol;
+	sol.status = SUCCESS;
+
+	if (solver_opts.order < 1 || solver_opts.order > 5) {
+		std::cerr << "Adams-Bashforth methods have an order from 1 to 5!\n";
+		sol.status = GENERAL_ERROR;
+		return sol;
+	}
+
 	if (t0 + dt > t1) {
 		std::cerr << "    Rehuel: Initial dt (" << dt;
 		dt = t1 - t0;
@@ -161,8 +170,6 @@ basic_output adams_bashforth(functor_type &func, double t0, double t1,
 
 
 	double t = t0;
-	multistep_output sol;
-	sol.status = SUCCESS;
 
 	assert(dt > 0 && "Cannot use time step size <= 0!");
 
-- 
2.43.0


From 634118584e6f15945e6d85c7319b22daa05ebb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 30/44] fix: multistep methods report a failed start-up

---
 multistep.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/multistep.hpp b/multistep.hpp
index 2fce4d8..a3eef0b 100644
--- a/multistep.hpp
+++ b/multistep.hpp
@@ -134,6 +134,10 @@ basic_output bootstrap_history(functor_type &func, int order, const vec_type &y,
 	for (int i = 1; i < order; ++i) {
 		auto tmp_sol = irk::odeint(func,  t, t+dt, start.y_vals[i-1],
 		                           opts, output_opts, method);
+		if (tmp_sol.status != SUCCESS) {
+			start.status = tmp_sol.status;
+			return start;
+		}
 		std::size_t Nt = tmp_sol.t_vals.size();
 		t += dt;
 		start.t_vals.push_back(t);
@@ -187,6 +191,11 @@ basic_output adams_bashforth(functor_type &func, double t0, double t1,
 		sol.y_vals.push_back(hist.y_vals[i]);
 		history.push_back(hist.y_vals[i]);
 	}
+	if (hist.status != SUCCESS) {
+		std::cerr << "Start-up of multistep method failed!\n";
+		sol.status = hist.status;
+		return sol;
+	}
 	std::size_t hist_size = sol.t_vals.size();
 	t = sol.t_vals[hist_size-1];
 	y = sol.y_vals[hist_size-1];
@@ -272,6 +281,11 @@ multistep::multistep_output bdf(functor_type &func, double t0, double t1,
 		sol.y_vals.push_back(hist.y_vals[i]);
 		history.push_back(hist.y_vals[i]);
 	}
+	if (hist.status != SUCCESS) {
+		std::cerr << "Start-up of multistep method failed!\n";
+		sol.status = hist.status;
+		return sol;
+	}
 	std::size_t hist_size = sol.t_vals.size();
 	t = sol.t_vals[hist_size-1];
 	y = sol.y_vals[hist_size-1];
-- 
2.43.0


From 9ab4e87f26f5ad5f2cf71479220d207faf311fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 31/44] fix: Adams-Bashforth stops with an error when the
 solution is no longer finite

---
 multistep.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/multistep.hpp b/multistep.hpp
index a3eef0b..b68401d 100644
--- a/multistep.hpp
+++ b/multistep.hpp
@@ -202,6 +202,11 @@ basic_output adams_bashforth(functor_type &func, double t0, double t1,
 
 	while (t < t1) {
 		adams_bashforth_step(func, solver_opts.order, y, t, dt, history);
+		if (!y.is_finite()) {
+			std::cerr << "    Rehuel: Solution is no longer finite!\n";
+			sol.status = GENERAL_ERROR;
+			return sol;
+		}
 		history.push_back(y);
 		t += dt;
 		++step;
-- 
2.43.0


From 77137dca60c5b7d7ceec96fb36be2ba0653d6a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:26 +0000
Subject: [PATCH 32/44] fix: embedded weights of RADAU_IIA_32 have order 2
 together with its gamma

---
 irk.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irk.cpp b/irk.cpp
index e1605b6..c73a6ee 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -350,7 +350,7 @@ solver_coeffs get_coefficients( int method )
 		sc.c  = { 1.0/3.0, 1.0 };
 		sc.b  = { 3.0/4.0, 1.0/4.0 };
 
-		sc.b2 = {2.0/3.0, 1.0/3.0};
+		sc.b2 = {1.0/4.0, 5.0/12.0};
 
 		sc.order = 3;
 		sc.order2 = 2;
-- 
2.43.0


From 39bd539223e68e1371759b36d00d7c2348910306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:26 +0000
Subject: [PATCH 33/44] fix: embedded weights of GAUSS_LEGENDRE_42 were swapped

---
 irk.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irk.cpp b/irk.cpp
index c73a6ee..98357cf 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -333,7 +333,7 @@ solver_coeffs get_coefficients( int method )
 		         { 0.0, 0.0, 0.0 } };
 		sc.c = { 0.5 - sqrt3/6.0, 0.5 + sqrt3/6.0, 0.0 };
 		sc.b = { 0.5, 0.5, 0.0 };
-		sc.b2= { (3*sqrt3 + 1)/12.0, (7-sqrt3)/12.0, (2-sqrt3)/6.0 };
+		sc.b2= { (7-sqrt3)/12.0, (3*sqrt3 + 1)/12.0, (2-sqrt3)/6.0 };
 		sc.order = 4;
 		sc.order2 = 2;
 
-- 
2.43.0


From 8828cd02b4c1e1a5e5b223aad0ac1533c2e2f990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:26 +0000
Subject: [PATCH 34/44] fix: embedded weights of LOBATTO_IIIC_43 have order 2,
 like those of LOBATTO_IIIA_43

---
 irk.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irk.cpp b/irk.cpp
index 98357cf..b128a2b 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -265,7 +265,7 @@ solver_coeffs get_coefficients( int method )
 		         { 1.0/6.0, 5.0/12.0, -1.0/12.0 },
 		         { 1.0/6.0, 2.0/3.0, 1.0/6.0 } };
 		sc.b  = { 1.0/6.0, 2.0/3.0, 1.0/6.0 };
-		sc.b2 = { 1.0/6.0, 1.0/6.0, 2.0/3.0, }; // -1.0/6.0, 5.0/6.0, 0. };
+		sc.b2 = { -0.5, 2.0, -0.5 };
 		sc.c  = { 0.0, 0.5, 1.0 };
 		sc.order = 4;
 		sc.order2 = 2;
-- 
2.43.0


From 5e462e62599859b21361fe45414957e593f1f933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:17 +0000
Subject: [PATCH 35/44] fix: implicit integration from t = 0 did not give up
 when the step vanished

---
 irk.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irk.hpp b/irk.hpp
index 4912f1a..62683e9 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -630,7 +630,8 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			sol.status = ERROR_MAX_STEPS_EXCEEDED;
 			break;
 		}
-		if (!(t + dt > t)) {
+		// (Below the smallest normal number a step cannot shrink further.)
+		if (!(t + dt > t) || dt < std::numeric_limits<double>::min()) {
 			output_opts.log_out << "    Rehuel: Time step size became too small!\n";
 			sol.status = GENERAL_ERROR;
 			break;
-- 
2.43.0


From 06c22ea468a18e29726393135c4f26cb737afd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:45 +0000
Subject: [PATCH 36/44] fix: interpolation weights of a single node were zero

---
 irk.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/irk.cpp b/irk.cpp
index b128a2b..c5e4429 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -153,18 +153,15 @@ mat_type collocation_interpolate_coeffs( const vec_type& c )
 
 	std::vector<coeff_list> poly_coefficients(Ns);
 	for( std::size_t i = 0; i < Ns; ++i ){
-		coeff_list ci;
+		// The empty product is 1, encoded as one term without factors.
+		coeff_list ci(1);
 		for( std::size_t j = 0; j < Ns; ++j ){
 			if( i == j ) continue;
 
 			int jj = j;
 			// -1 codes for x.
-			if( ci.size() == 0 ){
-				ci = {{-1}, {jj}};
-			}else{
-				coeff_list tmp = expand( ci, { {-1}, {jj} } );
-				ci = tmp;
-			}
+			coeff_list tmp = expand( ci, { {-1}, {jj} } );
+			ci = tmp;
 		}
 		poly_coefficients[i] = ci;
 	}
-- 
2.43.0


From 36a3172849d484c195364d8748e7c4e00e2ac5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:20 +0000
Subject: [PATCH 37/44] fix: embedded weights of LOBATTO_IIIC_85 were shifted
 by one stage and did not sum to 1 - gamma

---
 irk.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irk.cpp b/irk.cpp
index c5e4429..953afd4 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -315,8 +315,8 @@ solver_coeffs get_coefficients( int method )
 		          1.0/20.0}};
 		sc.c  = {0.0, 0.5 - sqrt21/14.0, 0.5, 0.5 + sqrt21/14.0, 1.0};
 		sc.b  = {0.05, 49/180.0, 16/45.0, 49/180.0, 0.05};
-		sc.b2 = {0.05, 0.05, 49/180.0, 16/45.0, 49/180.0};
 		sc.gamma  = 0.1894964436645163;
+		sc.b2 = {0.05 - sc.gamma, 49/180.0, 16/45.0, 49/180.0, 0.05};
 		sc.order  = 8;
 		sc.order2 = 5;
 
-- 
2.43.0


From 942c3b4259cb98812e799279b7ddf6d4d1f11d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:02 +0000
Subject: [PATCH 38/44] fix: Newton iteration took a step cut to max_step for
 convergence

---
 newton.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/newton.hpp b/newton.hpp
index eb1c15b..c157199 100644
--- a/newton.hpp
+++ b/newton.hpp
@@ -465,6 +465,10 @@ vec_type newton_iterate_impl(functor_type &func, vec_type x,
 		}
 		//std::cerr << "Step direction: " << direction << "\n";
 
+		// A step cut to max_step says nothing about convergence.
+		incr0 = incr1;
+		incr1 = arma::norm(direction, "inf");
+
 		if( max_step2 > 0 ){
 			double norm2 = dot( direction, direction );
 			if( lambda*lambda*norm2 > max_step2 ){
@@ -490,8 +494,6 @@ vec_type newton_iterate_impl(functor_type &func, vec_type x,
 		f0 = r;
 		x0 = xn;
 
-		incr0 = incr1;
-		incr1 = arma::norm(direction, "inf");
 
 		++stats.iters;
 
-- 
2.43.0


From f220f02d1d8e15de97ebe6407d90534008b70ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:37 +0000
Subject: [PATCH 39/44] fix: timing breakdown printed tenths of the duration in
 seconds

---
 irk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irk.hpp b/irk.hpp
index 62683e9..7b8153d 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -344,7 +344,7 @@ inline void print_timing_breakdown(const std::vector<double> &timings,
 	std::string time_unit = "ms";
 	double time_scale = 1.0;
 	if (total_t > 1000) {
-		time_scale = 0.0001;
+		time_scale = 0.001;
 		time_unit = " s";
 	}
 	total_t *= time_scale;
-- 
2.43.0


From 221ec5ac5b0fd422f91d9e17091adf8da1253254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:31 +0000
Subject: [PATCH 40/44] fix: stability region of explicit methods was that of
 an empty tableau

---
 stability_region/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stability_region/main.cpp b/stability_region/main.cpp
index 690f033..af1bedd 100644
--- a/stability_region/main.cpp
+++ b/stability_region/main.cpp
@@ -120,7 +120,7 @@ void stability_region(const std::string &method, bool embedded_method,
 	}
 	m = erk::name_to_method(method);
 	if (m) {
-		auto sc = irk::get_coefficients(m);
+		auto sc = erk::get_coefficients(m);
 		// std::cerr << "Coeffs:\n" << sc << "\n";
 		S = rk_to_stab_region(X, Y, sc, embedded_method);
 	} else {
-- 
2.43.0


From ebebb893c16c4e321018aa445a7d365fa2a65d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:31 +0000
Subject: [PATCH 41/44] fix: stability function of embedded methods ignored
 their weight gamma

---
 stability_region/main.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/stability_region/main.cpp b/stability_region/main.cpp
index af1bedd..af0b2d2 100644
--- a/stability_region/main.cpp
+++ b/stability_region/main.cpp
@@ -32,7 +32,8 @@
 
 std::complex<double> stability_function(std::complex<double> z,
                                         const arma::mat &A,
-                                        const arma::vec &b)
+                                        const arma::vec &b,
+                                        double gamma = 0.0)
 {
 	std::size_t N = b.size();
 	arma::vec e = arma::ones(N);
@@ -40,7 +41,7 @@ std::complex<double> stability_function(std::complex<double> z,
 	arma::cx_mat M = I - z*A;
 	auto Ai = arma::inv(M);
 	std::complex<double> one(1.0,0.0);
-	return one + z*arma::dot(b, Ai*e);
+	return one + z*gamma + z*arma::dot(b, Ai*e);
 }
 
 
@@ -55,6 +56,7 @@ arma::mat rk_to_stab_region(const arma::vec &X, const arma::vec &Y,
 	// and hence
 	// y1/y0 = 1 + z * b * inv(I - z*A)*(1, 1, 1, ..., 1)^T
 	// with z = lambda*dt
+	// (The embedded method adds gamma*dt*f(t,y0), hence z*gamma.)
 	auto N = X.size();
 	auto M = Y.size();
 	arma::mat S(N, M);
@@ -68,7 +70,7 @@ arma::mat rk_to_stab_region(const arma::vec &X, const arma::vec &Y,
 		for (std::size_t j = 0; j < M; ++j) {
 			std::complex<double> z(X(i), Y(j));
 			if (embedded_method) {
-				S(i,j) = std::fabs(stability_function(z, sc.A, sc.b2));
+				S(i,j) = std::fabs(stability_function(z, sc.A, sc.b2, sc.gamma));
 			} else {
 				S(i,j) = std::fabs(stability_function(z, sc.A, sc.b));
 			}
@@ -91,14 +93,14 @@ void stability_limit(const std::string &method, std::ostream &out)
 		for (double x : X) {
 			out << x << " "
 			    << std::fabs(stability_function({x, 0}, sc.A, sc.b)) << " "
-			    << std::fabs(stability_function({x, 0}, sc.A, sc.b2)) << "\n";
+			    << std::fabs(stability_function({x, 0}, sc.A, sc.b2, sc.gamma)) << "\n";
 		}
 	} else if(int m = erk::name_to_method(method)) {
 		erk::solver_coeffs sc = erk::get_coefficients(m);
 		for (double x : X) {
 			out << x << " "
 			    << std::fabs(stability_function({x, 0}, sc.A, sc.b)) << " "
-			    << std::fabs(stability_function({x, 0}, sc.A, sc.b2)) << "\n";
+			    << std::fabs(stability_function({x, 0}, sc.A, sc.b2, sc.gamma)) << "\n";
 		}
 	}
 }
-- 
2.43.0


From 9b27ae9560edd7c30331b9a1e1462e5b0fb6216c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:31 +0000
Subject: [PATCH 42/44] fix: stability region program aborted on methods
 without embedded method and on unknown names

---
 stability_region/main.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/stability_region/main.cpp b/stability_region/main.cpp
index af0b2d2..5dfc50d 100644
--- a/stability_region/main.cpp
+++ b/stability_region/main.cpp
@@ -24,6 +24,7 @@
 */
 #include <complex>
 #include <iostream>
+#include <limits>
 
 #include "arma_include.hpp"
 #include "rehuel.hpp"
@@ -59,6 +60,11 @@ arma::mat rk_to_stab_region(const arma::vec &X, const arma::vec &Y,
 	// (The embedded method adds gamma*dt*f(t,y0), hence z*gamma.)
 	auto N = X.size();
 	auto M = Y.size();
+	if (embedded_method && sc.b2.n_elem == 0) {
+		std::cerr << "Method " << sc.name << " has no embedded method!\n";
+		return arma::mat();
+	}
+
 	arma::mat S(N, M);
 
 	if (S.n_rows == 0 || S.n_cols == 0) {
@@ -87,20 +93,27 @@ void stability_limit(const std::string &method, std::ostream &out)
 		-9, -8, -7, -6, -5, -4, -3, -2, -1.5, -1, -0.9, -0.8, -0.7, -0.6,
 		-0.5, -0.4, -0.3, -0.2, -0.1, 0, 0.1, 0.2, 0.3, 0.4, 0.5, 0.5, 1};
 
+	// Methods without embedded method get NaN in the last column.
+	auto embedded = [](double x, const arma::mat &A, const arma::vec &b2,
+	                   double gamma) -> double {
+		if (b2.n_elem == 0) return std::numeric_limits<double>::quiet_NaN();
+		return std::fabs(stability_function({x, 0}, A, b2, gamma));
+	};
+
 	out << "#z Rz Rz_embed\n";
 	if (int m = irk::name_to_method(method)) {
 		irk::solver_coeffs sc = irk::get_coefficients(m);
 		for (double x : X) {
 			out << x << " "
 			    << std::fabs(stability_function({x, 0}, sc.A, sc.b)) << " "
-			    << std::fabs(stability_function({x, 0}, sc.A, sc.b2, sc.gamma)) << "\n";
+			    << embedded(x, sc.A, sc.b2, sc.gamma) << "\n";
 		}
 	} else if(int m = erk::name_to_method(method)) {
 		erk::solver_coeffs sc = erk::get_coefficients(m);
 		for (double x : X) {
 			out << x << " "
 			    << std::fabs(stability_function({x, 0}, sc.A, sc.b)) << " "
-			    << std::fabs(stability_function({x, 0}, sc.A, sc.b2, sc.gamma)) << "\n";
+			    << embedded(x, sc.A, sc.b2, sc.gamma) << "\n";
 		}
 	}
 }
@@ -129,6 +142,9 @@ void stability_region(const std::string &method, bool embedded_method,
 		std::cerr << "Method " << method << " not recognized as ERK!\n";
 	}
 
+	// Nothing to tabulate for a method without embedded method.
+	if (S.n_elem == 0) return;
+
 	for (std::size_t j = 0; j < Y.size(); ++j) {
 		for (std::size_t i = 0; i < X.size(); ++i) {
 			out << X(i) << " " << Y(j) << " " << S(i,j) << "\n";
@@ -152,6 +168,10 @@ int main(int argc, char **argv)
 	std::cerr << "\n";
 
 	std::string method(argv[1]);
+	if (!irk::name_to_method(method) && !erk::name_to_method(method)) {
+		std::cerr << "Unknown method " << method << "!\n";
+		return -1;
+	}
 	if (int method_enum = irk::name_to_method(method)) {
 		auto sc = irk::get_coefficients(method_enum);
 		std::cerr << "Method coeffs:\n" << sc << "\n";
-- 
2.43.0


From e7c505e7725cc286939ab18c002abcb637e84609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:21 +0000
Subject: [PATCH 43/44] fix: stability region program aborted at poles of the
 stability function

---
 stability_region/main.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stability_region/main.cpp b/stability_region/main.cpp
index 5dfc50d..f17e97b 100644
--- a/stability_region/main.cpp
+++ b/stability_region/main.cpp
@@ -40,8 +40,12 @@ std::complex<double> stability_function(std::complex<double> z,
 	arma::vec e = arma::ones(N);
 	arma::mat I = arma::eye(N,N);
 	arma::cx_mat M = I - z*A;
-	auto Ai = arma::inv(M);
+	arma::cx_mat Ai;
 	std::complex<double> one(1.0,0.0);
+	if (!arma::inv(Ai, M)) {
+		// z is a pole.
+		return std::numeric_limits<double>::infinity();
+	}
 	return one + z*gamma + z*arma::dot(b, Ai*e);
 }
 
-- 
2.43.0


From 7a6054bcd8266856cbf5b8ecfa23df771390e1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:19 +0000
Subject: [PATCH 44/44] fix: time of failed stage iterations was counted again

---
 irk.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irk.hpp b/irk.hpp
index 7b8153d..db0f8ef 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -652,6 +652,8 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			sol.count.jac_evals);
 
 		if (time_internals) timings[UPDATE_STAGES] += timer.toc();
+		// (If the attempt is repeated, its time has been counted.)
+		if (time_internals) timer.tic();
 
 		// *********** Verify Newton iteration convergence ************
 		if (newton_status != newton::SUCCESS){
-- 
2.43.0

