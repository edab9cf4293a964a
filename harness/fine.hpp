// Forced interleaving of threads at function entries.  The library is compiled
// with -finstrument-functions, so that every entry into one of its functions
// (and into the templates it instantiates) is a point at which the turn may
// pass to another thread; one thread runs at a time.  A thread that holds the
// turn but waits for another one (the guard of a static variable) loses it
// after a while.
#ifndef FINE_HPP
#define FINE_HPP
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <vector>

#define NOINST __attribute__((no_instrument_function))
struct Fine {
	std::mutex m;
	std::condition_variable cv;
	std::vector<char> done, stuck;   // stuck: lost its turn, not heard of since
	unsigned long long rng = 1, moves = 0;
	unsigned period = 0;
	int turn = -1;
};
NOINST inline Fine &fine() { static Fine *f = new Fine; return *f; }
static thread_local int fine_me = -1;
static thread_local unsigned fine_left = 0;

NOINST inline unsigned fine_rand(Fine &f)
{ f.rng = f.rng * 6364136223846793005ull + 1442695040888963407ull; return unsigned(f.rng >> 33); }

NOINST inline int fine_pick(Fine &f)
{
	std::vector<int> free, all;
	for (std::size_t t = 0; t < f.done.size(); ++t) {
		if (f.done[t]) continue;
		all.push_back(int(t));
		if (!f.stuck[t]) free.push_back(int(t));
	}
	std::vector<int> &c = free.empty() ? all : free;
	return c.empty() ? -1 : c[fine_rand(f) % unsigned(c.size())];
}
NOINST inline void fine_await(Fine &f, std::unique_lock<std::mutex> &l, int me)
{
	while (f.turn != me) {
		unsigned long long before = f.moves;
		if (f.cv.wait_for(l, std::chrono::milliseconds(5)) == std::cv_status::timeout &&
		    f.moves == before && f.turn != me) { f.stuck[f.turn] = 1; f.turn = me; ++f.moves; f.cv.notify_all(); }
	}
}
NOINST inline void fine_switch()
{
	int me = fine_me;
	fine_me = -1;                     // nothing below is a point
	{
		Fine &f = fine();
		std::unique_lock<std::mutex> l(f.m);
		f.stuck[me] = 0;
		fine_left = 1 + fine_rand(f) % f.period;
		if (f.turn == me) { f.turn = fine_pick(f); ++f.moves; }
		if (f.turn != me) { f.cv.notify_all(); fine_await(f, l, me); }
	}
	fine_me = me;
}
NOINST inline void fine_setup(std::size_t threads, unsigned period, unsigned seed)
{
	Fine &f = fine();
	f.done.assign(threads, 0);
	f.stuck.assign(threads, 0);
	f.period = period;
	f.rng = seed * 2654435761ull + 12345;
	f.turn = -1;
}
NOINST inline void fine_go() { Fine &f = fine(); std::unique_lock<std::mutex> l(f.m); f.turn = fine_pick(f); ++f.moves; f.cv.notify_all(); }
NOINST inline void fine_begin(int me)
{
	{
		Fine &f = fine();
		std::unique_lock<std::mutex> l(f.m);
		f.cv.wait(l, [&]() { return f.turn >= 0; });
		fine_await(f, l, me);
		fine_left = 1 + fine_rand(f) % f.period;
	}                                 // the lock is released before points begin
	fine_me = me;
}
NOINST inline void fine_end(int me)
{
	fine_me = -1;
	Fine &f = fine();
	std::unique_lock<std::mutex> l(f.m);
	f.done[me] = 1;
	if (f.turn == me) f.turn = fine_pick(f);
	++f.moves;
	f.cv.notify_all();
}
// harness code that holds a lock is no point
struct FinePause {
	int me;
	NOINST FinePause() : me(fine_me) { fine_me = -1; }
	NOINST ~FinePause() { fine_me = me; }
};

extern "C" {
#ifdef FINE
NOINST void __cyg_profile_func_enter(void *, void *)
{ if (fine_me >= 0 && --fine_left == 0) fine_switch(); }
NOINST void __cyg_profile_func_exit(void *, void *) {}
#endif
}
#endif
