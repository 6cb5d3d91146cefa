#include "vposix.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <csignal>
#include <deque>
#include <exception>
#include <fcntl.h>
#include <map>
#include <memory>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>

namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }

extern "C" {
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_close(int);
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
int __real_ftruncate(int, off_t);
int __real_clock_gettime(clockid_t, timespec*);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
long __real_sysconf(int);
}

namespace vp {

bool trace_calls = false;
std::function<void(const std::vector<std::string>&)> on_fatal;

// ---------------------------------------------------------------- constants
static const int MAXPROC = 6, NVIEW = 4, NSLOT = 192;
static const size_t SLOT = 1 << 17;
#ifdef VP_PYTHON
static const size_t STACK = 4096 * 1024;
#else
static const size_t STACK = 512 * 1024;
#endif
static const int MAXACT = 8;
static const long HANG_POINTS = 400000;

static char* arena_base = nullptr;   // MAXPROC*NVIEW consecutive views of the same pages
static const size_t VIEW = NSLOT * SLOT;
static int arena_fd = -1;

// ---------------------------------------------------------------- state
struct Inode { int id; bool sem; long size; unsigned val; int slot; bool linked; long peak = 0; };
struct Fd { Inode* ino; bool foreign; int owner; };
struct VSem { Inode* ino; int proc; int refs; };
struct Mtx { int owner = -1; bool robust = false; bool ownerdead = false; bool notrec = false; int depth = 0; int kind = 0; bool inited = false; };
struct Cond { bool inited = false; };

struct Proc { bool dead = false; std::map<int, Fd> fds; std::vector<VSem*> sems; };

enum St { READY, BLOCKED, DONE, DEAD };
struct Actor {
    int id, proc; ucontext_t ctx; char* stack; St st;
    std::function<void()> body;
    std::function<bool()> pred; long wake; // deadline in ns (-1: none)
    bool timed_out; bool sleeping; bool interrupted;
    bool intr_ok;
    long prio; long points, faults, blocks; int owner;
    char eh[16]; int err; int tries;
    long waitkey_signalled;
};

struct World {
    std::map<std::string, Inode*> names;
    std::vector<Inode*> inodes;
    std::vector<VSem*> sems;
    std::vector<Proc> procs;
    int nslots = 0;
    // mappings: per (proc, view, slot)
    std::map<std::tuple<int,int,int>, std::pair<int,size_t>> maps; // count, length
    std::map<std::pair<long,long>, Mtx> mtx;
    struct Waiter { int actor; bool signalled; };
    std::map<std::pair<long,long>, std::deque<Waiter*>> conds;
};

static World* W = nullptr;
static std::vector<Actor> A;
static int cur = -1;              // running actor (-1: scheduler / outside)
static ucontext_t sched_ctx;
static Plan plan;
static size_t next_change;
static long lowprio;
static long vtime;                // ns
static long jumps_idle, jumps_event;
static unsigned long rng;
static Result* R = nullptr;
static char* stacks[MAXACT];

static unsigned long rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

static inline bool active() { return cur >= 0; }
static void progress() { jumps_idle = 0; }

int self() { return cur; }
long now_ms() { return vtime / 1000000; }
void event(const std::string& e) { if (active()) A[cur].tries = 0; progress(); jumps_event = 0; R->events.push_back(e); if (trace_calls) fprintf(stderr, "== %s\n", e.c_str()); }
std::function<void()> on_jump;
void (*on_swap)(int, bool) = nullptr;
void mark(const std::string& e) { R->events.push_back(e); }
void setOwner(int o) { A[cur].owner = o; }

[[noreturn]] static void die() {
    if (on_fatal) on_fatal(R->events);
    _exit(77);
}
void fatal(const std::string& what) {
    cur = -1;
    R->events.push_back("F:" + what);
    R->fatal = true;
    if (trace_calls) fprintf(stderr, "== FATAL %s\n", what.c_str());
    die();
}
static void note(const char* fmt, ...) {
    if (!trace_calls) return;
    va_list ap; va_start(ap, fmt);
    fprintf(stderr, "   [%d @%ld t=%ld] ", cur, R->points, vtime / 1000);
    vfprintf(stderr, fmt, ap); fprintf(stderr, "\n");
    va_end(ap);
}

// ---------------------------------------------------------------- scheduling
static void swap_out() {
    Actor& a = A[cur];
    __real_memcpy(a.eh, __cxxabiv1::__cxa_get_globals(), 16);
    a.err = errno;
    if (on_swap) on_swap(cur, false);
    swapcontext(&a.ctx, &sched_ctx);
    // resumed: cur was set by the scheduler
}

static void kill_proc(int p);

static bool enabled(Actor& a) {
    if (a.st == READY) return true;
    if (a.st != BLOCKED) return false;
    if (a.interrupted) return true;
    if (a.pred && a.pred()) return true;
    if (a.wake >= 0 && vtime >= a.wake) return true;
    return false;
}

// a scheduling point of the running actor
static void point(bool sync) {
    if (!active()) return;
    Actor& a = A[cur];
    R->points++; a.points++;
    if (R->points > HANG_POINTS) fatal("hang");
    if (plan.crash_actor == a.id && a.points == plan.crash_at) {
        kill_proc(a.proc);
        swap_out(); // never comes back
        abort();
    }
    bool sw = false;
    while (next_change < plan.change.size() && R->points >= plan.change[next_change]) {
        next_change++; sw = true;
    }
    if (sw) {
        a.prio = lowprio--;
        if (plan.jump) {
            long w = -1;
            for (auto& b : A) if (b.st == BLOCKED && b.wake >= 0 && (w < 0 || b.wake < w)) w = b.wake;
            if (w > vtime) { vtime = w; if (on_jump) on_jump(); }
        }
        swap_out();
        return;
    }
    if (sync) {
        if (plan.spurious && rnd() % plan.spurious == 0) {
            // spuriously wake some condition waiter
            for (auto& c : W->conds) for (auto* w : c.second) if (!w->signalled && rnd() % 2) { w->signalled = true; if (on_jump) on_jump(); break; }
        }
        for (auto& b : A)
            if (b.id != a.id && b.prio > a.prio && enabled(b)) { swap_out(); return; }
    }
}

void apiPoint() { point(true); }

// blocks the running actor until pred() (or the deadline, or an interruption)
enum Wake { W_PRED, W_TIME, W_INTR };
static Wake block(std::function<bool()> pred, long deadline, bool interruptible, bool sleeping) {
    Actor& a = A[cur];
    a.st = BLOCKED; a.pred = pred; a.wake = deadline; a.sleeping = sleeping; a.interrupted = false;
    if (interruptible) {
        a.blocks++;
        if (plan.intr_actor == a.id && a.blocks == plan.intr_at) {
            a.interrupted = true;
            event("i" + std::to_string(a.id + 1));
        }
    }
    swap_out();
    Actor& b = A[cur];
    b.pred = nullptr; b.wake = -1;
    if (b.interrupted) { b.interrupted = false; return W_INTR; }
    if (pred && pred()) return W_PRED;
    return W_TIME;
}

bool procGone(int p) { for (auto& a : A) if (a.proc == p && a.st != DONE && a.st != DEAD) return false; return true; }
void killSelf() { kill_proc(A[cur].proc); swap_out(); abort(); }

void waitUntil(std::function<bool()> f) {
    if (f()) return;
    block(f, -1, false, false);
}

static void trampoline() {
    Actor& a = A[cur];
    try { a.body(); } catch (...) { fatal("escaped"); }
    A[cur].st = DONE;
    if (on_swap) on_swap(cur, false);
    swapcontext(&A[cur].ctx, &sched_ctx);
    abort();
}

static void kill_proc(int p) {
    event("x" + std::to_string(p + 1));
    W->procs[p].dead = true;
    W->procs[p].fds.clear();
    for (auto& a : A) if (a.proc == p && a.st != DONE) a.st = DEAD;
    // robust mutexes owned by the dead
    for (auto& m : W->mtx) if (m.second.owner >= 0 && A[m.second.owner].proc == p) {
        if (m.second.robust) { m.second.owner = -1; m.second.ownerdead = true; m.second.depth = 0; }
        // otherwise stays locked for ever
    }
    for (auto& c : W->conds)
        for (auto it = c.second.begin(); it != c.second.end();)
            if (A[(*it)->actor].proc == p) it = c.second.erase(it); else ++it;
}

Result execute(const std::vector<ActorSpec>& actors, const Plan& pl, int nprocs) {
    Result res; R = &res;
    World world; W = &world;
    world.procs.resize(nprocs);
    plan = pl; next_change = 0; lowprio = -1; vtime = 1700000000000000000L; jumps_idle = jumps_event = 0;
    rng = plan.seed * 2654435761UL + 88172645463325252UL; rnd(); rnd();
    A.clear(); A.resize(actors.size());
    for (size_t i = 0; i < actors.size(); i++) {
        Actor& a = A[i];
        a.id = i; a.proc = actors[i].proc; a.body = actors[i].body; a.st = READY;
        a.wake = -1; a.prio = 0; a.points = a.faults = a.blocks = 0; a.owner = -1; a.err = 0; a.tries = 0;
        a.interrupted = a.sleeping = false;
        memset(a.eh, 0, sizeof a.eh);
        if (!stacks[i]) {
            stacks[i] = (char*)__real_mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            mprotect(stacks[i], 4096, PROT_NONE);
        }
        getcontext(&a.ctx);
        a.ctx.uc_stack.ss_sp = stacks[i] + 4096; a.ctx.uc_stack.ss_size = STACK; a.ctx.uc_link = nullptr;
        makecontext(&a.ctx, trampoline, 0);
    }
    for (size_t i = 0; i < plan.order.size() && i < A.size(); i++) A[plan.order[i]].prio = 100 - (long)i;
    for (;;) {
        int best = -1;
        for (auto& a : A) if (enabled(a) && (best < 0 || a.prio > A[best].prio)) best = a.id;
        if (best < 0) {
            bool any = false; long w = -1; bool hard = false;
            for (auto& a : A) if (a.st == BLOCKED) {
                any = true;
                if (a.wake >= 0 && (w < 0 || a.wake < w)) w = a.wake;
                if (a.wake >= 0 && !a.sleeping) hard = true; // a real deadline
            }
            if (!any) break; // all done or dead
            if (w < 0 || (!hard && ++jumps_idle > 60) || ++jumps_event > 400) {
                std::string s = "S:"; bool f = true;
                for (auto& a : A) if (a.st == BLOCKED) { s += (f ? "" : ".") + std::to_string(a.id + 1); f = false; }
                res.events.push_back(s);
                break;
            }
            vtime = std::max(vtime, w);
            continue;
        }
        Actor& a = A[best];
        a.st = READY;
        cur = best;
        __real_memcpy(__cxxabiv1::__cxa_get_globals(), a.eh, 16);
        if (on_swap) on_swap(best, true);
        errno = a.err;
        swapcontext(&sched_ctx, &a.ctx);
        cur = -1;
        memset(__cxxabiv1::__cxa_get_globals(), 0, 16);
    }
    for (auto& a : A) { res.actor_points.push_back(a.points); res.actor_faults.push_back(a.faults); res.actor_blocks.push_back(a.blocks); }
    // wipe the slots used
    for (auto* i : world.inodes) { if (i->slot >= 0) memset(arena_base + i->slot * SLOT, 0, std::min<size_t>(SLOT, (i->peak + 8191) & ~4095L)); delete i; }
    for (auto* s : world.sems) delete s;
    W = nullptr; R = nullptr;
    return res;
}

std::vector<std::pair<std::string, long>> names() {
    std::vector<std::pair<std::string, long>> v;
    for (auto& n : W->names) v.push_back({n.first, n.second->sem ? -1 : n.second->size});
    return v;
}
int openFds(int proc) { int n = 0; for (auto& f : W->procs[proc].fds) if (!f.second.foreign) n++; return n; }

static int lowfd(Proc& p) { int f = 3; while (p.fds.count(f)) f++; return f; }
int grabForeignFd() { Proc& p = W->procs[A[cur].proc]; int f = lowfd(p); p.fds[f] = Fd{nullptr, true, -1}; return f; }

// a call the system may refuse; true: refuse it
static bool refused(const char* what) {
    Actor& a = A[cur];
    a.faults++;
    if (plan.fault_actor == a.id && plan.fault_at == a.faults) {
        event("j" + std::to_string(a.id + 1) + ":" + what);
        return true;
    }
    return false;
}

// ---------------------------------------------------------------- memory accesses
static bool locate(const void* p, int& proc, int& view, int& slot, long& off) {
    const char* c = (const char*)p;
    if (c < arena_base || c >= arena_base + (size_t)MAXPROC * NVIEW * VIEW) return false;
    size_t d = c - arena_base;
    int pv = d / VIEW; proc = pv / NVIEW; view = pv % NVIEW;
    d %= VIEW; slot = d / SLOT; off = d % SLOT;
    return true;
}
static void checkAccess(const void* p, size_t n, const char* what) {
    int proc, view, slot; long off;
    if (!locate(p, proc, view, slot, off)) return;
    if (proc != A[cur].proc) fatal(std::string("foreign-address-") + what);
    auto it = W->maps.find(std::make_tuple(proc, view, slot));
    if (it == W->maps.end() || it->second.first <= 0) fatal(std::string("unmapped-") + what);
    if (off + (long)n > (long)it->second.second) fatal(std::string("beyond-mapping-") + what);
    long sz = -1;
    for (auto* i : W->inodes) if (i->slot == slot) { sz = i->size; break; }
    if (off + (long)n > sz) fatal(std::string("beyond-object-") + what);
}
static inline bool inArena(const void* p) {
    return (const char*)p >= arena_base && (const char*)p < arena_base + (size_t)MAXPROC * NVIEW * VIEW;
}
static inline void access(const void* p, size_t n, bool write) {
    if (cur < 0 || !arena_base || !inArena(p)) return;
    point(false);
    checkAccess(p, n, write ? "write" : "read");
    if (write) progress();
}

static std::pair<long,long> keyOf(const void* p) {
    int proc, view, slot; long off;
    if (locate(p, proc, view, slot, off)) { checkAccess(p, 1, "sync"); return {slot, off}; }
    return {-1 - (long)A[cur].proc, (long)p};
}

// Once something fatal happened the heap may be corrupt (or its lock held): what is still needed to report it comes from a
// static buffer, and a failure within the report ends the worker with 79, which its parent reports.
static volatile bool panic = false;
static char panic_mem[1 << 22]; static size_t panic_used = 0;
void (*on_dire)() = nullptr;

static void handler(int sig, siginfo_t*, void*) {
    if (panic) { if (on_dire) on_dire(); _exit(79); }
    panic = true;
    if (R) {
        R->events.push_back(sig == SIGSEGV || sig == SIGBUS ? "F:segv" : sig == SIGALRM ? "F:spin" : sig == SIGFPE ? "F:fpe" : "F:abort");
        cur = -1;
        if (on_fatal) on_fatal(R->events);
    }
    _exit(sig == SIGALRM ? 78 : 77);
}

void* panicNew(size_t n) {
    if (!panic) return nullptr;
    n = (n + 15) & ~size_t(15);
    if (panic_used + n > sizeof panic_mem) { if (on_dire) on_dire(); _exit(79); }
    void* p = panic_mem + panic_used; panic_used += n; return p;
}
bool panicDelete(void* p) { return panic || ((char*)p >= panic_mem && (char*)p < panic_mem + sizeof panic_mem); }

void init() {
    arena_fd = syscall(SYS_memfd_create, "arena", 0);
    if (arena_fd < 0 || __real_ftruncate(arena_fd, VIEW)) { perror("arena"); exit(3); }
    arena_base = (char*)__real_mmap(nullptr, (size_t)MAXPROC * NVIEW * VIEW, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (int i = 0; i < MAXPROC * NVIEW; i++)
        if (__real_mmap(arena_base + i * VIEW, VIEW, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, arena_fd, 0) == MAP_FAILED) { perror("arena"); exit(3); }
    static char* alt = (char*)malloc(65536);
    stack_t ss; ss.ss_sp = alt; ss.ss_size = 65536; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = handler; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) sigaction(s, &sa, nullptr);
    std::set_terminate([] { if (R) { cur = -1; R->events.push_back("F:terminate"); if (on_fatal) on_fatal(R->events); } _exit(77); });
}

std::string Plan::str() const {
    std::ostringstream o;
    o << "order="; for (size_t i = 0; i < order.size(); i++) o << (i ? "," : "") << order[i];
    o << " change="; for (size_t i = 0; i < change.size(); i++) o << (i ? "," : "") << change[i];
    o << " jump=" << jump << " seed=" << seed << " spurious=" << spurious << " crash=" << crash_actor << "," << crash_at
      << " fault=" << fault_actor << "," << fault_at << " intr=" << intr_actor << "," << intr_at;
    return o.str();
}
static std::vector<long> ints(const std::string& s) {
    std::vector<long> v; std::stringstream ss(s); std::string t;
    while (std::getline(ss, t, ',')) if (!t.empty()) v.push_back(atol(t.c_str()));
    return v;
}
Plan Plan::parse(const std::string& d) {
    Plan p; std::stringstream ss(d); std::string kv;
    while (ss >> kv) {
        auto e = kv.find('='); if (e == std::string::npos) continue;
        std::string k = kv.substr(0, e); auto v = ints(kv.substr(e + 1));
        if (k == "order") p.order.assign(v.begin(), v.end());
        else if (k == "change") p.change = v;
        else if (v.empty()) continue;
        else if (k == "jump") p.jump = v[0];
        else if (k == "seed") p.seed = v[0];
        else if (k == "spurious") p.spurious = v[0];
        else if (v.size() > 1 && k == "crash") { p.crash_actor = v[0]; p.crash_at = v[1]; }
        else if (v.size() > 1 && k == "fault") { p.fault_actor = v[0]; p.fault_at = v[1]; }
        else if (v.size() > 1 && k == "intr") { p.intr_actor = v[0]; p.intr_at = v[1]; }
    }
    return p;
}
} // namespace vp

using namespace vp;

// ================================================================ system calls
static std::string shmName(const char* n) { while (*n == '/') n++; return std::string("/") + n; }
static std::string semName(const char* n) { while (*n == '/') n++; return std::string("/sem.") + n; }

static Inode* newInode(bool sem) {
    Inode* i = new Inode{(int)W->inodes.size(), sem, 0, 0, -1, true};
    if (!sem) {
        if (W->nslots >= NSLOT) fatal("harness-slots");
        i->slot = W->nslots++;
    }
    W->inodes.push_back(i);
    return i;
}
static Fd* getFd(int fd) { auto& f = W->procs[A[cur].proc].fds; auto it = f.find(fd); return it == f.end() ? nullptr : &it->second; }

extern "C" {

// ---- shared memory objects
int __real_shm_open(const char*, int, mode_t);
int __wrap_shm_open(const char* name, int flags, mode_t mode) {
    if (!active()) return __real_shm_open(name, flags, mode);
    point(true);
    note("shm_open(%s,%s%s%s)", name, flags & O_CREAT ? "C" : "", flags & O_EXCL ? "X" : "", flags & O_TRUNC ? "T" : "");
    if (refused(flags & O_CREAT ? "create" : "open")) { errno = EMFILE; return -1; }
    std::string n = shmName(name);
    auto it = W->names.find(n);
    Inode* i = nullptr;
    if (it == W->names.end()) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        i = newInode(false); W->names[n] = i; progress();
    } else {
        if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
        i = it->second;
        if (flags & O_TRUNC) { memset(arena_base + i->slot * SLOT, 0, SLOT); i->size = 0; }
    }
    Proc& p = W->procs[A[cur].proc];
    int fd = lowfd(p);
    p.fds[fd] = Fd{i, false, A[cur].owner};
    return fd;
}
int __real_shm_unlink(const char*);
int __wrap_shm_unlink(const char* name) {
    if (!active()) return __real_shm_unlink(name);
    point(true); note("shm_unlink(%s)", name);
    auto it = W->names.find(shmName(name));
    if (it == W->names.end()) { errno = ENOENT; return -1; }
    it->second->linked = false; W->names.erase(it); progress();
    return 0;
}
int __wrap_close(int fd) {
    if (!active()) return __real_close(fd);
    point(true); note("close(%d)", fd);
    Fd* f = getFd(fd);
    if (!f) {
        if (fd >= 0) fatal("badclose-notopen");
        errno = EBADF; return -1;
    }
    if (f->foreign) fatal("badclose-foreign");
    if (f->owner != A[cur].owner) fatal("badclose-otherobject");
    W->procs[A[cur].proc].fds.erase(fd);
    return 0;
}
static int do_truncate(int fd, off_t len) {
    Fd* f = getFd(fd);
    if (!f || !f->ino) { errno = EBADF; return -1; }
    if (len < 0 || (size_t)len > SLOT) { errno = EINVAL; return -1; }
    if (len < f->ino->size) memset(arena_base + f->ino->slot * SLOT + len, 0, f->ino->size - len);
    f->ino->size = len; f->ino->peak = std::max(f->ino->peak, (long)len); progress();
    return 0;
}
int __wrap_ftruncate(int fd, off_t len) {
    if (!active()) return __real_ftruncate(fd, len);
    point(true); note("ftruncate(%d,%ld)", fd, (long)len);
    if (refused("size")) { errno = ENOMEM; return -1; }
    return do_truncate(fd, len);
}
int __wrap_ftruncate64(int fd, off_t len) { return __wrap_ftruncate(fd, len); }
int __real_posix_fallocate(int, off_t, off_t);
int __wrap_posix_fallocate(int fd, off_t off, off_t len) {
    if (!active()) return __real_posix_fallocate(fd, off, len);
    point(true); note("posix_fallocate(%d,%ld)", fd, (long)len);
    if (refused("size")) return ENOSPC;
    Fd* f = getFd(fd);
    if (!f || !f->ino) return EBADF;
    if (off + len > f->ino->size) { if (do_truncate(fd, off + len)) return errno; }
    return 0;
}
int __real_fstat(int, struct stat*);
int __wrap_fstat(int fd, struct stat* st) {
    if (!active()) return __real_fstat(fd, st);
    point(true); note("fstat(%d)", fd);
    Fd* f = getFd(fd);
    if (!f || !f->ino) { errno = EBADF; return -1; }
    memset(st, 0, sizeof *st);
    st->st_size = f->ino->size; st->st_mode = S_IFREG | 0600; st->st_ino = f->ino->id + 1000; st->st_nlink = f->ino->linked;
    st->st_uid = geteuid(); st->st_blksize = 4096;
    return 0;
}
int __real_fchmod(int, mode_t);
int __wrap_fchmod(int fd, mode_t m) { if (!active()) return __real_fchmod(fd, m); return getFd(fd) ? 0 : (errno = EBADF, -1); }
void* __wrap_mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off) {
    if (!active() || fd == -1) return __real_mmap(addr, len, prot, flags, fd, off);
    point(true); note("mmap(%zu,fd %d)", len, fd);
    if (refused("map")) { errno = ENOMEM; return MAP_FAILED; }
    Fd* f = getFd(fd);
    if (!f || !f->ino) { errno = EBADF; return MAP_FAILED; }
    if (len == 0 || len > SLOT) { errno = EINVAL; return MAP_FAILED; }
    int pr = A[cur].proc, best = 0, bc = 1 << 30;
    for (int v = 0; v < NVIEW; v++) {
        auto it = W->maps.find(std::make_tuple(pr, v, f->ino->slot));
        int c = it == W->maps.end() ? 0 : it->second.first;
        if (c < bc) { bc = c; best = v; }
    }
    auto& m = W->maps[std::make_tuple(pr, best, f->ino->slot)];
    if (m.first <= 0) m.second = 0;
    m.first++; m.second = std::max(m.second, len);
    return arena_base + ((size_t)pr * NVIEW + best) * VIEW + (size_t)f->ino->slot * SLOT + off;
}
int __wrap_munmap(void* a, size_t len) {
    int pr, v, s; long off;
    if (!active() || !locate(a, pr, v, s, off)) return __real_munmap(a, len);
    point(true); note("munmap(%p)", a);
    auto it = W->maps.find(std::make_tuple(pr, v, s));
    if (it == W->maps.end() || it->second.first <= 0) fatal("bad-munmap");
    it->second.first--;
    return 0;
}
int __real_shmdt(const void*);
int __wrap_shmdt(const void* a) { if (!active()) return __real_shmdt(a); errno = EINVAL; return -1; }
int __real_madvise(void*, size_t, int);
int __wrap_madvise(void* a, size_t l, int k) { if (!active() || !inArena(a)) return __real_madvise(a, l, k); return 0; }

// ---- named semaphores
sem_t* __real_sem_open(const char*, int, ...);
sem_t* __wrap_sem_open(const char* name, int flags, ...) {
    mode_t mode = 0; unsigned val = 0;
    if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); val = va_arg(ap, unsigned); va_end(ap); }
    if (!active()) return __real_sem_open(name, flags, mode, val);
    point(true); note("sem_open(%s,%s%s,%u)", name, flags & O_CREAT ? "C" : "", flags & O_EXCL ? "X" : "", val);
    if (refused(flags & O_CREAT ? "semcreate" : "semopen")) { errno = EMFILE; return SEM_FAILED; }
    std::string n = semName(name);
    auto it = W->names.find(n);
    Inode* i;
    if (it == W->names.end()) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return SEM_FAILED; }
        i = newInode(true); i->val = val; W->names[n] = i; progress();
    } else {
        if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return SEM_FAILED; }
        i = it->second;
    }
    int pr = A[cur].proc;
    for (auto* s : W->procs[pr].sems) if (s->ino == i && s->refs > 0) { s->refs++; return (sem_t*)s; }
    VSem* s = new VSem{i, pr, 1};
    W->sems.push_back(s); W->procs[pr].sems.push_back(s);
    return (sem_t*)s;
}
static VSem* sem(sem_t* p, const char* what) {
    for (auto* s : W->procs[A[cur].proc].sems) if ((sem_t*)s == p) {
        if (s->refs <= 0) fatal(std::string("sem-use-after-close-") + what);
        return s;
    }
    fatal(std::string("bad-semaphore-") + what);
    return nullptr;
}
int __real_sem_close(sem_t*);
int __wrap_sem_close(sem_t* p) {
    if (!active()) return __real_sem_close(p);
    point(true); note("sem_close");
    sem(p, "close")->refs--;
    return 0;
}
int __real_sem_unlink(const char*);
int __wrap_sem_unlink(const char* name) {
    if (!active()) return __real_sem_unlink(name);
    point(true); note("sem_unlink(%s)", name);
    auto it = W->names.find(semName(name));
    if (it == W->names.end()) { errno = ENOENT; return -1; }
    it->second->linked = false; W->names.erase(it); progress();
    return 0;
}
int __real_sem_post(sem_t*);
int __wrap_sem_post(sem_t* p) {
    if (!active()) return __real_sem_post(p);
    point(true);
    VSem* s = sem(p, "post"); note("sem_post(#%d:%u)", s->ino->id, s->ino->val);
    s->ino->val++; progress();
    point(true); // (others may run before the caller notices)
    return 0;
}
int __real_sem_wait(sem_t*);
static int semWait(sem_t* p, long deadline) {
    point(true);
    VSem* s = sem(p, "wait"); Inode* i = s->ino;
    note("sem_wait(#%d:%u)", i->id, i->val);
    for (;;) {
        if (i->val > 0) { i->val--; progress(); return 0; }
        if (deadline >= 0 && vtime >= deadline) { errno = ETIMEDOUT; return -1; }
        Wake w = block([i] { return i->val > 0; }, deadline, true, false);
        if (w == W_INTR) { errno = EINTR; note("EINTR"); return -1; }
        if (w == W_TIME) { errno = ETIMEDOUT; return -1; }
    }
}
int __wrap_sem_wait(sem_t* p) { if (!active()) return __real_sem_wait(p); return semWait(p, -1); }
int __real_sem_trywait(sem_t*);
int __wrap_sem_trywait(sem_t* p) {
    if (!active()) return __real_sem_trywait(p);
    point(true);
    VSem* s = sem(p, "trywait"); note("sem_trywait(#%d:%u)", s->ino->id, s->ino->val);
    if (s->ino->val > 0) { s->ino->val--; progress(); A[cur].tries = 0; return 0; }
    // who tries again and again waits: somebody else has to go on
    if (++A[cur].tries > 50) { A[cur].tries = 0; Inode* i = s->ino; block([i] { return i->val > 0; }, -1, false, false); }
    errno = EAGAIN; return -1;
}
static long ns(const timespec* t) { return t->tv_sec * 1000000000L + t->tv_nsec; }
int __real_sem_timedwait(sem_t*, const timespec*);
int __wrap_sem_timedwait(sem_t* p, const timespec* t) { if (!active()) return __real_sem_timedwait(p, t); return semWait(p, ns(t)); }
int __wrap_sem_clockwait(sem_t* p, clockid_t, const timespec* t) { return semWait(p, ns(t)); }
int __real_sem_getvalue(sem_t*, int*);
int __wrap_sem_getvalue(sem_t* p, int* v) { if (!active()) return __real_sem_getvalue(p, v); point(true); *v = sem(p, "getvalue")->ino->val; return 0; }

// ---- time
int __wrap_clock_gettime(clockid_t c, timespec* t) {
    if (!active()) return __real_clock_gettime(c, t);
    t->tv_sec = vtime / 1000000000L; t->tv_nsec = vtime % 1000000000L; return 0;
}
int __real_gettimeofday(timeval*, void*);
int __wrap_gettimeofday(timeval* t, void* z) {
    if (!active()) return __real_gettimeofday(t, z);
    t->tv_sec = vtime / 1000000000L; t->tv_usec = vtime % 1000000000L / 1000; return 0;
}
time_t __real_time(time_t*);
time_t __wrap_time(time_t* t) { if (!active()) return __real_time(t); time_t v = vtime / 1000000000L; if (t) *t = v; return v; }
long __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { if (active()) return vtime; timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return ns(&t); }
long __wrap__ZNSt6chrono3_V212system_clock3nowEv() { if (active()) return vtime; timespec t; __real_clock_gettime(CLOCK_REALTIME, &t); return ns(&t); }
static void vsleep(long d) { point(true); long w = vtime + (d > 0 ? d : 1000); while (vtime < w) block(nullptr, w, false, true); }
int __real_nanosleep(const timespec*, timespec*);
int __wrap_nanosleep(const timespec* t, timespec* r) { if (!active()) return __real_nanosleep(t, r); vsleep(ns(t)); return 0; }
int __real_clock_nanosleep(clockid_t, int, const timespec*, timespec*);
int __wrap_clock_nanosleep(clockid_t c, int fl, const timespec* t, timespec* r) {
    if (!active()) return __real_clock_nanosleep(c, fl, t, r);
    vsleep(fl & TIMER_ABSTIME ? ns(t) - vtime : ns(t)); return 0;
}
int __real_usleep(useconds_t);
int __wrap_usleep(useconds_t u) { if (!active()) return __real_usleep(u); vsleep(u * 1000L); return 0; }
unsigned __real_sleep(unsigned);
unsigned __wrap_sleep(unsigned s) { if (!active()) return __real_sleep(s); vsleep(s * 1000000000L); return 0; }
int __real_sched_yield();
int __wrap_sched_yield() { if (!active()) return __real_sched_yield(); vsleep(1000); return 0; }
long __wrap_sysconf(int n) { return __real_sysconf(n); }

// ---- mutexes and condition variables
int __real_pthread_mutexattr_init(pthread_mutexattr_t*);
int __real_pthread_mutexattr_setrobust(pthread_mutexattr_t*, int);
int __real_pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*);
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* at) {
    if (!active()) return __real_pthread_mutex_init(m, at);
    point(true);
    Mtx x; x.inited = true;
    if (at) { int r = 0; pthread_mutexattr_getrobust(at, &r); x.robust = r == PTHREAD_MUTEX_ROBUST; pthread_mutexattr_gettype(at, &x.kind); }
    auto k = keyOf(m); note("mutex_init(%ld,%ld)", k.first, k.second);
    W->mtx[k] = x; progress();
    return 0;
}
int __real_pthread_mutex_destroy(pthread_mutex_t*);
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) {
    if (!active()) return __real_pthread_mutex_destroy(m);
    point(true);
    auto k = keyOf(m); auto it = W->mtx.find(k); note("mutex_destroy(%ld,%ld)", k.first, k.second);
    if (it != W->mtx.end()) { if (it->second.owner >= 0) return EBUSY; W->mtx.erase(it); }
    return 0;
}
static int mtxLock(std::pair<long,long> k, long deadline, bool tryonly) {
    Mtx& x = W->mtx[k];
    if (x.owner == cur && x.kind == PTHREAD_MUTEX_RECURSIVE) { x.depth++; return 0; }
    if (x.owner == cur && x.kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    for (;;) {
        Mtx& y = W->mtx[k];
        if (y.notrec) return ENOTRECOVERABLE;
        if (y.owner < 0) {
            y.owner = cur; y.depth = 1; progress();
            if (y.ownerdead) return EOWNERDEAD;
            return 0;
        }
        if (tryonly) return EBUSY;
        if (deadline >= 0 && vtime >= deadline) return ETIMEDOUT;
        Wake w = block([k] { auto& z = W->mtx[k]; return z.owner < 0 || z.notrec; }, deadline, false, false);
        if (w == W_TIME) return ETIMEDOUT;
    }
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    if (!active()) return __real_pthread_mutex_lock(m);
    point(true); auto k = keyOf(m); note("mutex_lock(%ld,%ld)", k.first, k.second);
    return mtxLock(k, -1, false);
}
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!active()) return __real_pthread_mutex_trylock(m);
    point(true); return mtxLock(keyOf(m), -1, true);
}
int __real_pthread_mutex_timedlock(pthread_mutex_t*, const timespec*);
int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) {
    if (!active()) return __real_pthread_mutex_timedlock(m, t);
    point(true); return mtxLock(keyOf(m), ns(t), false);
}
int __real_pthread_mutex_consistent(pthread_mutex_t*);
int __wrap_pthread_mutex_consistent(pthread_mutex_t* m) {
    if (!active()) return __real_pthread_mutex_consistent(m);
    auto& x = W->mtx[keyOf(m)]; if (!x.ownerdead) return EINVAL; x.ownerdead = false; return 0;
}
static int mtxUnlock(std::pair<long,long> k) {
    auto& x = W->mtx[k];
    if (x.owner != cur) { if (x.kind == PTHREAD_MUTEX_NORMAL && !x.robust) { x.owner = -1; return 0; } return EPERM; }
    if (--x.depth > 0) return 0;
    x.owner = -1; progress();
    if (x.ownerdead) x.notrec = true; // unlocked without being made consistent
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!active()) return __real_pthread_mutex_unlock(m);
    point(true); auto k = keyOf(m); note("mutex_unlock(%ld,%ld)", k.first, k.second);
    int r = mtxUnlock(k);
    point(true);
    return r;
}
int __real_pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*);
int __wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* at) {
    if (!active()) return __real_pthread_cond_init(c, at);
    point(true); W->conds[keyOf(c)].clear(); progress(); return 0;
}
int __real_pthread_cond_destroy(pthread_cond_t*);
int __wrap_pthread_cond_destroy(pthread_cond_t* c) {
    if (!active()) return __real_pthread_cond_destroy(c);
    point(true); auto k = keyOf(c); note("cond_destroy(%ld,%ld)", k.first, k.second);
    // glibc: blocks until the woken waiters have left
    return 0;
}
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, long deadline) {
    point(true);
    auto kc = keyOf(c), km = keyOf(m);
    note("cond_wait(%ld,%ld)", kc.first, kc.second);
    World::Waiter* w = new World::Waiter{cur, false};
    W->conds[kc].push_back(w);
    int r = mtxUnlock(km);
    if (r) { auto& q = W->conds[kc]; q.erase(std::find(q.begin(), q.end(), w)); return r; }
    int res = 0;
    if (!w->signalled) {
        Wake k = block([w] { return w->signalled; }, deadline, false, false);
        if (k == W_TIME && !w->signalled) res = ETIMEDOUT;
    }
    auto& q = W->conds[kc];
    auto it = std::find(q.begin(), q.end(), w); if (it != q.end()) q.erase(it);
    int lr = mtxLock(km, -1, false);
    note("cond_wait -> %d", res);
    if (lr) return lr;
    return res;
}
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!active()) return __real_pthread_cond_wait(c, m); return condWait(c, m, -1); }
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const timespec*);
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { if (!active()) return __real_pthread_cond_timedwait(c, m, t); return condWait(c, m, ns(t)); }
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* t) { return condWait(c, m, ns(t)); }
static int condSignal(pthread_cond_t* c, bool all) {
    point(true); auto kc = keyOf(c); note("cond_%s(%ld,%ld)", all ? "broadcast" : "signal", kc.first, kc.second);
    auto& q = W->conds[kc];
    std::vector<World::Waiter*> ws; for (auto* w : q) if (!w->signalled) ws.push_back(w);
    if (all) for (auto* w : ws) w->signalled = true;
    else if (!ws.empty()) ws[rnd() % ws.size()]->signalled = true;
    if (!ws.empty()) progress();
    point(true);
    return 0;
}
int __real_pthread_cond_signal(pthread_cond_t*);
int __wrap_pthread_cond_signal(pthread_cond_t* c) { if (!active()) return __real_pthread_cond_signal(c); return condSignal(c, false); }
int __real_pthread_cond_broadcast(pthread_cond_t*);
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { if (!active()) return __real_pthread_cond_broadcast(c); return condSignal(c, true); }

// ---- bulk copies: observable piecewise
static void bulk(char* d, const char* s, size_t n, int fill, bool back) {
    bool da = inArena(d), sa = s && inArena(s);
    if (!active() || !arena_base || (!da && !sa)) {
        if (!s) __real_memset(d, fill, n); else if (back) __real_memmove(d, s, n); else __real_memcpy(d, s, n);
        return;
    }
    if (!n) return;
    if (da) checkAccess(d, n, "write");
    if (sa) checkAccess(s, n, "read");
    std::vector<char> tmp; const char* src = s;
    if (s && !(s + n <= d || d + n <= s)) { tmp.assign(s, s + n); src = tmp.data(); }
    size_t step = n <= 64 ? 8 : (n + 7) / 8;
    for (size_t i = 0; i < n; i += step) {
        point(false);
        size_t k = std::min(step, n - i);
        if (!s) __real_memset(d + i, fill, k); else __real_memmove(d + i, src + i, k);
    }
    if (da) progress();
}
void* __wrap_memcpy(void* d, const void* s, size_t n) { bulk((char*)d, (const char*)s, n, 0, false); return d; }
void* __wrap_memmove(void* d, const void* s, size_t n) { bulk((char*)d, (const char*)s, n, 0, true); return d; }
void* __wrap_memset(void* d, int c, size_t n) { bulk((char*)d, nullptr, n, c, false); return d; }

// ---- -fsanitize=thread callbacks
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void*) {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define ACC(n) void __tsan_read##n(void* p) { access(p, n, false); } void __tsan_write##n(void* p) { access(p, n, true); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false); } void __tsan_unaligned_write##n(void* p) { access(p, n, true); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, false); } void __tsan_volatile_write##n(void* p) { access(p, n, true); } \
  void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false); } void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true); } \
  void __tsan_read_write##n(void* p) { access(p, n, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true); }
#define AT(n, T) \
  T __tsan_atomic##n##_load(const volatile T* a, int) { access((void*)a, sizeof(T), false); return *a; } \
  void __tsan_atomic##n##_store(volatile T* a, T v, int) { access((void*)a, sizeof(T), true); *a = v; } \
  T __tsan_atomic##n##_exchange(volatile T* a, T v, int) { access((void*)a, sizeof(T), true); T o = *a; *a = v; return o; } \
  T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) { access((void*)a, sizeof(T), true); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) { access((void*)a, sizeof(T), true); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) { access((void*)a, sizeof(T), true); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) { access((void*)a, sizeof(T), true); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) { access((void*)a, sizeof(T), true); T o = *a; *a = o ^ v; return o; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { access((void*)a, sizeof(T), true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int m, int f) { return __tsan_atomic##n##_compare_exchange_strong(a, c, v, m, f); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T c, T v, int, int) { access((void*)a, sizeof(T), true); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

void* operator new(size_t n) { if (void* p = vp::panicNew(n)) return p; if (void* p = malloc(n ? n : 1)) return p; throw std::bad_alloc(); }
void operator delete(void* p) noexcept { if (p && !vp::panicDelete(p)) free(p); }
void operator delete(void* p, size_t) noexcept { if (p && !vp::panicDelete(p)) free(p); }
