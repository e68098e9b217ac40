// Deterministic simulation of threads and processes: fibers on one OS thread, the scheduler draws its decisions from the
// case, every memory access of the code under test (compiled with -fsanitize=thread, callbacks below) and every call into
// libc is a preemption point.  pthread mutexes and condition variables, clocks, sleeping and POSIX shared memory are models:
// virtual time, every mapping at its own address, wakeups that respect the process-shared attribute, spurious wakeups.
#ifndef SIM_H
#define SIM_H
#include "pbt.h"
#include <functional>
#include <map>
#include <vector>
#include <string>
#include <cstdint>
namespace sim
{
	using pbt::u64;
	enum { RUN, MUTEX, COND, SLEEP, DONE };
	struct Fiber { int id, proc, st; u64 deadline; int waitId; int wres; bool inCond; std::function<void()> fn; void *ctx; };
	struct Case
	{
		pbt::Src &s; bool slow; unsigned maxGap; unsigned spurious; unsigned timeJump; u64 steps, maxSteps; bool deadlock; bool ran; bool umaskBad;
		std::function<void(bool final)> quiescent;     // Called when nothing can run before time advances.
		Case(pbt::Src &src);
		~Case();
		void spawn(int id, int proc, std::function<void()> f);
		void run();                                     // Until all fibers are done or none can ever run again.
	};
	extern Case *C;
	extern std::vector<Fiber *> fibers;
	extern int cur;                                     // Index into fibers, -1 outside.
	u64 nowNs();
	void sleepMs(u64 ms);
	void point();
	void bad(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
	bool failed(); void warm();
	int self();                                         // Id of the running fiber, -1 outside.
	bool maskLeft(); int openMaps(); int openFds(); unsigned switches();
	size_t roomAt(const char *p);                       // Bytes from p to the end of its mapping.
	extern int failShm, failMmap, failClock, failTrunc;                       // Faults: errno for the next such call.
}
#endif
