// A virtual POSIX world (shared memory, semaphores, process-shared mutexes and
// condition variables, descriptors, time, processes) with a deterministic
// scheduler. The library under test runs unmodified on top of it: its system
// calls are redirected at link time (--wrap) and its memory accesses are
// observed through the compiler's -fsanitize=thread callbacks.
#ifndef VPOSIX_HPP
#define VPOSIX_HPP
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace vp {

// ---- one execution -------------------------------------------------------
struct Plan {              // everything an execution depends on (replayable)
    std::vector<int> order;      // initial priorities (first = highest)
    std::vector<long> change;    // scheduling points at which the running actor is
                                 // put last (ascending)
    bool jump = true;            // ... and virtual time jumps to the next deadline
    unsigned long seed = 1;      // resolves remaining choices (which waiter is woken)
    int spurious = 0;            // 1/spurious chance of spurious wakeups (0: never)
    int crash_actor = -1; long crash_at = -1;   // kill its process at its n-th point
    int fault_actor = -1; long fault_at = -1;   // n-th refusable call of that actor fails
    int intr_actor = -1; long intr_at = -1;     // n-th blocking wait is interrupted
    int switch_on_api = 0;       // 1: also a change at every api boundary (round robin)
    std::string str() const;
    static Plan parse(const std::string&);
};

struct Result {
    std::vector<std::string> events;
    long points = 0;                  // scheduling points in total
    std::vector<long> actor_points;   // ... and per actor
    std::vector<long> actor_faults;   // refusable calls per actor
    std::vector<long> actor_blocks;   // interruptible waits that really blocked
    bool fatal = false;
};

struct ActorSpec {
    int proc;
    std::function<void()> body;
};

// runs the actors to completion under the plan
Result execute(const std::vector<ActorSpec>& actors, const Plan& plan, int nprocs);

// ---- to be called from actor bodies --------------------------------------
int self();                               // actor index
void event(const std::string& e);         // append to the trace
void mark(const std::string& e);          // ... without counting as progress
extern void (*on_swap)(int actor, bool in); // an actor is resumed or suspended
extern std::function<void()> on_jump;     // time jumped, or somebody woke spuriously
void apiPoint();                          // scheduling point between operations
void waitUntil(std::function<bool()> f);  // block (harness level synchronisation)
void setOwner(int obj);                   // object on whose behalf calls are made
bool procGone(int proc);                  // crashed, or all its actors are done
void killSelf();                          // the process of the running actor ends
int openFds(int proc);                    // library descriptors open in a process
int grabForeignFd();                      // a descriptor that is not the library's
std::vector<std::pair<std::string, long>> names(); // existing objects and sizes
long now_ms();                            // virtual time
void fatal(const std::string& what);      // property independent failure: ends the execution
extern bool trace_calls;                  // print every virtual system call
extern void (*on_dire)();                 // called when even that fails (must not need the heap)
void* panicNew(size_t n);
bool panicDelete(void* p);
extern std::function<void(const std::vector<std::string>&)> on_fatal; // called before the worker exits

void init();                              // once per worker process
}
#endif
