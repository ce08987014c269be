// Controlled execution of threads. The code under test and the thread bodies are compiled with -fsanitize=thread, but linked
// with the runtime in thr_rt.cpp instead of ThreadSanitizer's: exactly one thread runs at a time, every atomic operation,
// lock operation and thread start/end is a scheduling point at which the model checker chooses who goes on, and every memory
// access is checked for races with vector clocks (only synchronisation orders accesses, not the schedule), so that schedules
// which differ only in the order of unsynchronised accesses need not be told apart.
#pragma once
#include <cstdint>
#include <functional>
#include <vector>
namespace thr {
// Runs the bodies as threads 1..n until all have ended (their thread-local objects included). At most `preemptions` switches
// away from a thread which could go on are made.
void run(const std::vector<std::function<void()>>& bodies, int preemptions);
// What orders one thread's actions before another's (like a message sent and received).
class Event {
    bool set_ = false;

   public:
    void set();
    void wait();
};
int self();           // number of the running thread, 0 outside of run()
uint64_t switches();  // scheduling points with a choice in the last run
uint64_t accesses();  // memory accesses checked in the last run
}  // namespace thr
