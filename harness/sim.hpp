// Deterministic execution environment for the code under test.
//
// All threads of a run are real pthreads, but exactly one runs at a time; the scheduler (seeded) chooses who
// continues at every scheduling point: pthread mutex / condition operations, thread creation and exit, every
// interposed system call and, in "fine" runs, sampled memory accesses of the code under test (compiler
// inserted load/store callbacks).  Time is virtual: it advances only when no thread can run.
// Descriptors are real kernel objects with numbers that are never reused within a run, timers are virtual.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace sim {

struct Cfg {
    uint64_t seed = 1;
    int policy = 0;          // 0 run-to-block, 1 random walk, 2 sparse random, 3 PCT
    int pct_depth = 3;
    long pct_len = 400;
    long stall = 0;         // every thread is now and then held back until nobody else can go on
    bool fine = false;       // preempt at memory accesses too
    int fine_gap = 200;      // mean number of accesses between forced switches
    bool eintr = false;      // interrupt blocking poll calls now and then
    bool shortio = false;    // deliver / accept fewer bytes than asked
    long max_steps = 600000; // per instant of virtual time
    // explicit preemptions: at scheduling step s switch to the k-th other runnable thread
    std::vector<std::pair<long,int>> forced;
};

// hooks into the harness; all may be null
struct Hooks {
    void (*on_socket)(int fd, int domain) = nullptr;
    void (*on_accept)(int lfd, int fd) = nullptr;
    void (*on_connect)(int fd, bool ok) = nullptr;
    void (*on_send)(int fd, const char *b, long n, int err) = nullptr;
    void (*on_hup)(int fd) = nullptr;             // a poll reported that the socket is broken
    void (*on_recv)(int fd, const char *b, long n, int err) = nullptr;
    void (*on_close)(int fd) = nullptr;
    void (*on_badfd)(const char *op, int fd) = nullptr;
    void (*on_listen)(int fd) = nullptr;
    void (*on_nofd)(const char *what) = nullptr;  // a descriptor was refused
    void (*on_badpath)(const char *op, const char *path) = nullptr;
    void (*on_stuck)(const char *what) = nullptr; // deadlock / hang; must not return
    void (*on_free)(void *p) = nullptr;
    void (*on_quiet)() = nullptr;                 // nothing can run before time passes
};
extern Hooks hooks;
extern std::string scratch; // only paths below this may be unlinked

void begin(const Cfg &c);
int self();                       // id of the current simulated thread
void set_tag(int t); int tag();   // threads inherit the tag of their creator
bool rawpoll(int fd, short ev);
bool is_lib_thread();             // created by the code under test
int spawn(std::function<void()> f);
void join(int id);
void point();                     // scheduling point
bool wait_until(std::function<bool()> pred, int64_t deadline_ns);
void settle();                    // run everything else until nothing can run without time passing
void stall(long n);               // hold this thread back from its n-th point on, until nobody else can go on
void sleep_ms(int64_t ms);
int64_t now_ms();
long steps();
void hole(int port, bool on);      // nobody answers at this port as long as it is on
void scarce(long skip, long n);   // after skip more descriptors the library gets, refuse it n of them
bool rnd_chance(int percent);
uint64_t rnd();

// fd bookkeeping
void adopt(int fd, const char *kind);       // descriptor handed to the library
struct FdInfo { int fd; std::string kind; bool open; bool lib; };
std::vector<FdInfo> fds();
int unique_fd(int fd);                      // move to a never-used number

// memory bookkeeping: allocations made while executing library code
void lib_enter();   // harness thread calls into the library
void lib_leave();
struct Lib { Lib(){ lib_enter(); } ~Lib(){ lib_leave(); } };
struct Har { Har(); ~Har(); int d; };       // harness code called back from the library
size_t lib_live();                          // number of live library allocations
std::string lib_live_desc();

// a reduced, raw version of system calls for the harness itself
int raw_close(int fd);
}
