// Controlled thread schedules for code compiled with -fsanitize=thread.
//
// Real threads, of which exactly one runs at a time.  Every atomic operation,
// mutex, condition variable, futex, thread start and join is a schedule point
// at which the next thread is taken from the case's choice tape.  Mutexes,
// condition variables etc. are emulated, so a blocked set of threads is seen
// at once (deadlock).  Plain memory accesses go to a vector clock
// happens-before race detector which honours the memory orders used.
#pragma once

#include <functional>
#include <string>

#include "pbt.h"

namespace sched {
// Runs `body` as thread 0 under control.  Throws pbt::Fail if a thread reported
// a failure or threads are left over when the body returns; exceptions thrown by
// the body pass through.
void run(pbt::Case&, std::function<void()> const& body);

bool controlled();
unsigned self();  // id of the calling thread: 0 = the thread which called run
unsigned live();  // threads that have not ended, the caller included
unsigned started();  // threads started in this run, thread 0 not included
unsigned long steps();  // schedule points passed so far
unsigned long switches();  // of which gave way to another thread while runnable
void hardware_threads(unsigned);  // result of std::thread::hardware_concurrency()
void expect_long(unsigned long);  // steps the next run needs beyond the usual limit
void report(std::string const&);  // a failure seen by any thread (first one wins)
void point();  // a schedule point
}  // namespace sched
