#include "sim.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <deque>
#include <map>
#include <set>
#include <new>
#include <unordered_map>

namespace sim {
Hooks hooks;
std::string scratch;

enum State { RUN, BLOCKED, SETTLE, DONE };
struct Thread {
    int id;
    std::atomic<int> turn{0};
    State st = RUN;
    std::function<bool()> pred;
    int64_t deadline = -1;
    bool lib = false;       // created by library code
    long prio = 0;
    long stall = 0;         // held back from this many points on
    bool held = false;
    int tag = -1;           // inherited from the creating thread
    pthread_t pt{};
    std::function<void()> body;
};

static bool g_active = false;
static Cfg cfg;
static std::vector<Thread*> threads;
static int64_t now_ns_ = 0;
static long step_ = 0, step_base_ = 0, moved_ = 0;
static uint64_t rs = 88172645463325252ull;
static __thread Thread *cur = nullptr;
static __thread int depth = 0;      // >0: inside the simulator, do not interpose
static __thread int libdepth = 0;   // >0: executing library code
static long fine_left = 0;
static std::vector<long> pct_points;
static long pct_low = 0;

struct InSim { InSim(){ ++depth; } ~InSim(){ --depth; } };
// library code only: the harness itself is never interposed or preempted
static inline bool on() { return g_active && cur && depth == 0 && libdepth > 0; }

uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ull; }
bool rnd_chance(int p) { return (int)((rnd() >> 33) % 100) < p; }
static long rnd_below(long n) { return n <= 1 ? 0 : (long)((rnd() >> 20) % (uint64_t)n); }

static void futex_wait_turn(Thread *t) {
    while (t->turn.load(std::memory_order_acquire) == 0)
        syscall(SYS_futex, (int*)&t->turn, FUTEX_WAIT, 0, nullptr, nullptr, 0);
    t->turn.store(0, std::memory_order_release);
}
static void give_turn(Thread *t) {
    t->turn.store(1, std::memory_order_release);
    syscall(SYS_futex, (int*)&t->turn, FUTEX_WAKE, 1, nullptr, nullptr, 0);
}

// ---------------------------------------------------------------- virtual timers
struct VTimer { int fd; int64_t expiry = 0; int64_t interval = 0; };
static std::map<int, VTimer> vtimers;

struct Fd { std::string kind; bool open = true; bool lib = true; bool nonblock = false; };
static std::map<int, Fd> fdt;
static int next_fd = 64;

int raw_close(int fd) { return (int)syscall(SYS_close, fd); }
int unique_fd(int fd) {
    if (fd < 0) return fd;
    int n = (int)syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, next_fd);
    if (n < 0) return fd;
    syscall(SYS_close, fd);
    next_fd = n + 1;
    return n;
}
static long scarce_skip = 0, scarce_n = 0;
static bool refused(const char *what) {
    if (!scarce_n) return false;
    if (scarce_skip) { --scarce_skip; return false; }
    --scarce_n;
    if (hooks.on_nofd) hooks.on_nofd(what);
    errno = EMFILE;
    return true;
}
void scarce(long skip, long n) { scarce_skip = skip; scarce_n = n; }
static int track(int fd, const char *kind) {
    if (fd < 0) return fd;
    fd = unique_fd(fd);
    Fd f; f.kind = kind; fdt[fd] = f;
    return fd;
}
void adopt(int fd, const char *kind) { InSim g; Fd f; f.kind = kind; fdt[fd] = f; }
std::vector<FdInfo> fds() {
    InSim g; std::vector<FdInfo> r;
    for (auto &k : fdt) r.push_back({k.first, k.second.kind, k.second.open, k.second.lib});
    return r;
}
// complains about descriptors that were open once and are not any more
static bool stale(int fd, const char *op) {
    if (fd < 0) return false;
    auto it = fdt.find(fd);
    if (it == fdt.end()) return false;
    if (it->second.open) return false;
    if (hooks.on_badfd) hooks.on_badfd(op, fd);
    return true;
}

static void fire_timers() {
    for (auto &k : vtimers) {
        VTimer &t = k.second;
        while (t.expiry && t.expiry <= now_ns_) {
            uint64_t one = 1;
            syscall(SYS_write, t.fd, &one, 8);
            t.expiry = t.interval ? t.expiry + t.interval : 0;
        }
    }
}

// ---------------------------------------------------------------- scheduler
static bool is_ready(Thread *t) {
    if (t->st == RUN) return true;
    if (t->st != BLOCKED) return false;
    if (t->deadline >= 0 && now_ns_ >= t->deadline) return true;
    return t->pred && t->pred();
}

static Thread *pick(Thread *self, bool force) {
    for (;;) {
        std::vector<Thread*> r;
        for (auto *t : threads) if (is_ready(t)) r.push_back(t);
        if (r.empty())
            for (auto *t : threads) if (t->st == SETTLE) { if (hooks.on_quiet) hooks.on_quiet(); r.push_back(t); break; }
        if (!r.empty()) {
            std::vector<Thread*> f;
            for (auto *t : r) if (!t->held) f.push_back(t);
            if (f.empty()) f.push_back(r[r.size() > 1 ? rnd_below(r.size()) : 0]);
            r = f;
            if (r[0]->held) { r[0]->held = false; if (cfg.stall) r[0]->stall = 1 + rnd_below(cfg.stall); }
            bool self_ok = false;
            for (auto *t : r) if (t == self) self_ok = true;
            for (auto &f : cfg.forced)
                if (f.first == step_) {
                    std::vector<Thread*> o;
                    for (auto *t : r) if (t != self) o.push_back(t);
                    if (!o.empty()) return o[f.second % o.size()];
                }
            if (force && r.size() > 1) {
                std::vector<Thread*> o;
                for (auto *t : r) if (t != self) o.push_back(t);
                return o[rnd_below(o.size())];
            }
            switch (cfg.policy) {
            case 0: return self_ok ? self : r[0];
            case 1: return r[rnd_below(r.size())];
            case 2: return self_ok && !rnd_chance(8) ? self : r[rnd_below(r.size())];
            default: {
                for (long p : pct_points) if (p == step_ && self) self->prio = --pct_low;
                Thread *b = r[0];
                for (auto *t : r) if (t->prio > b->prio) b = t;
                return b;
            }
            }
        }
        if (hooks.on_quiet) hooks.on_quiet();
        int64_t m = -1;
        for (auto *t : threads)
            if (t->st == BLOCKED && t->deadline >= 0 && (m < 0 || t->deadline < m)) m = t->deadline;
        for (auto &k : vtimers)
            if (k.second.expiry && (m < 0 || k.second.expiry < m)) m = k.second.expiry;
        if (m < 0) { if (hooks.on_stuck) hooks.on_stuck("deadlock"); _exit(98); }
        if (m > now_ns_) now_ns_ = m;
        step_base_ = step_;
        moved_ = 0;
        fire_timers();
    }
}

// called with cur's state already set; returns when cur is chosen again
static void reschedule(bool force = false) {
    Thread *me = cur;
    ++step_;
    if (me->stall && !--me->stall) me->held = true;
    // (every byte transferred is worth some steps)
    if (step_ - step_base_ > cfg.max_steps + 80 * std::min(moved_, 60000L)) { if (hooks.on_stuck) hooks.on_stuck("hang"); _exit(97); }
    Thread *n = pick(me, force);
    if (n == me) { me->st = RUN; return; }
    give_turn(n);
    if (me->st == DONE) return;
    futex_wait_turn(me);
    me->st = RUN;
}

void point() { if (!g_active || !cur) return; InSim g; reschedule(); }

bool wait_until(std::function<bool()> pred, int64_t deadline) {
    InSim g;
    Thread *me = cur;
    for (;;) {
        if (pred()) return true;
        if (deadline >= 0 && now_ns_ >= deadline) return false;
        me->pred = pred; me->deadline = deadline; me->st = BLOCKED;
        reschedule();
        me->pred = nullptr; me->deadline = -1;
    }
}
void settle() { InSim g; cur->st = SETTLE; reschedule(); }
void sleep_ms(int64_t ms) { wait_until([]{ return false; }, now_ns_ + ms * 1000000); }
int64_t now_ms() { return now_ns_ / 1000000; }
long steps() { return step_; }
void stall(long n) { cur->stall = n; }
void set_tag(int t) { cur->tag = t; }
int tag() { return cur ? cur->tag : -1; }
bool rawpoll(int fd, short ev) { InSim g; pollfd p{fd, ev, 0}; struct timespec z{0, 0}; syscall(SYS_ppoll, &p, 1, &z, nullptr, 0); return p.revents & ev; }
int self() { return cur ? cur->id : -1; }
bool is_lib_thread() { return cur && cur->lib; }

static Thread *new_thread() {
    Thread *t = new Thread;
    t->id = (int)threads.size();
    t->prio = 1000 + rnd_below(1000000);
    if (cur) t->tag = cur->tag;
    if (cfg.stall) t->stall = 1 + rnd_below(cfg.stall);
    threads.push_back(t);
    return t;
}

void begin(const Cfg &c) {
    InSim g;
    cfg = c;
    rs = c.seed * 0x9E3779B97F4A7C15ull + 0x1234567;
    for (int i = 0; i < 8; i++) rnd();
    for (int i = 0; i < cfg.pct_depth; i++) pct_points.push_back(1 + rnd_below(cfg.pct_len));
    fine_left = 1 + rnd_below(2 * cfg.fine_gap);
    now_ns_ = 0;
    cur = new_thread();
    g_active = true;
}

// ---------------------------------------------------------------- memory bookkeeping
static std::unordered_map<void*, std::pair<size_t, void*>> *allocs = nullptr;
static bool is_lib_ctx() { return g_active && cur && depth == 0 && libdepth > 0; }
void lib_enter() { ++libdepth; }
void lib_leave() { --libdepth; }
Har::Har() { d = libdepth; libdepth = 0; }
Har::~Har() { libdepth = d; }
static void note_alloc(void *p, size_t n, void *ra) {
    if (!p || !is_lib_ctx()) return;
    InSim g; Har h;
    if (!allocs) allocs = new std::unordered_map<void*, std::pair<size_t, void*>>;
    (*allocs)[p] = {n, ra};
}
static void note_free(void *p) {
    if (!p || !g_active || !cur || depth) return;
    InSim g;
    if (hooks.on_free) hooks.on_free(p);
    if (allocs) allocs->erase(p);
}
size_t lib_live() { return allocs ? allocs->size() : 0; }
std::string lib_live_desc() {
    InSim g; std::string s;
    if (allocs) { int k = 0; for (auto &a : *allocs) { if (k++ > 6) break;
        char b[200]; Dl_info di; const char *nm = "?"; 
        if (dladdr(a.second.second, &di) && di.dli_sname) nm = di.dli_sname;
        snprintf(b, sizeof b, "%zu@%s ", a.second.first, nm); s += b; } }
    return s;
}

// ---------------------------------------------------------------- threads
template <class F> static F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }

struct Start { Thread *t; void *(*fn)(void*); void *arg; };
static int (*r_create)(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*);
static int (*r_join)(pthread_t, void**);
static int (*r_mlock)(pthread_mutex_t*), (*r_mtry)(pthread_mutex_t*), (*r_munlock)(pthread_mutex_t*);
static int (*r_cwait)(pthread_cond_t*, pthread_mutex_t*), (*r_csig)(pthread_cond_t*), (*r_cbc)(pthread_cond_t*);
__attribute__((constructor)) static void init_real() {
    r_create = real<decltype(r_create)>("pthread_create");
    r_join = real<decltype(r_join)>("pthread_join");
    r_mlock = real<decltype(r_mlock)>("pthread_mutex_lock");
    r_mtry = real<decltype(r_mtry)>("pthread_mutex_trylock");
    r_munlock = real<decltype(r_munlock)>("pthread_mutex_unlock");
    r_cwait = real<decltype(r_cwait)>("pthread_cond_wait");
    r_csig = real<decltype(r_csig)>("pthread_cond_signal");
    r_cbc = real<decltype(r_cbc)>("pthread_cond_broadcast");
}

static void thread_done() {
    depth = 1;
    cur->st = DONE;
    reschedule();
    cur = nullptr;
}
static void *trampoline(void *p) {
    Start *s = (Start*)p;
    cur = s->t;
    depth = 1;
    futex_wait_turn(cur);
    cur->st = RUN;
    auto fn = s->fn; auto arg = s->arg;
    delete s;
    if (cur->lib) libdepth = 1;
    depth = 0;
    void *r = fn(arg);
    thread_done();
    return r;
}
static int do_create(pthread_t *pt, const pthread_attr_t *at, void *(*fn)(void*), void *arg, bool lib) {
    Thread *t = new_thread();
    t->lib = lib;
    int r = r_create(pt, at, trampoline, new Start{t, fn, arg});
    if (r) { t->st = DONE; return r; }
    t->pt = *pt;
    return 0;
}
static void *run_body(void *p) { auto *f = (std::function<void()>*)p; (*f)(); return nullptr; }
int spawn(std::function<void()> f) {
    InSim g;
    pthread_t pt;
    auto *pf = new std::function<void()>(std::move(f));
    do_create(&pt, nullptr, run_body, pf, false);
    return threads.back()->id;
}
void join(int id) { Thread *t = threads[id]; wait_until([t]{ return t->st == DONE; }, -1); }

// ---------------------------------------------------------------- mutexes
struct Mx { Thread *owner = nullptr; int count = 0; };
static std::unordered_map<void*, Mx> mtx;
struct Cv { std::deque<std::pair<Thread*, bool*>> w; };
static std::unordered_map<void*, Cv> cvs;
struct Rw { Thread *w = nullptr; int r = 0; };
static std::unordered_map<void*, Rw> rws;

static int m_lock(pthread_mutex_t *m) {
    reschedule();
    Thread *me = cur;
    {
        Mx &x = mtx[m];
        if (x.owner == me) {
            if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { x.count++; return 0; }
            if ((m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
        }
    }
    wait_until([m]{ return mtx[m].owner == nullptr; }, -1);
    mtx[m].owner = me; mtx[m].count = 1;
    return 0;
}
static void m_unlock_nopoint(pthread_mutex_t *m) {
    auto it = mtx.find(m);
    if (it == mtx.end()) return;
    if (--it->second.count <= 0) mtx.erase(it);
}

// (more than a hundred years are as good as never)
static int64_t ts_ns(const struct timespec *t) { return (t->tv_sec > 4000000000L ? 4000000000L : (int64_t)t->tv_sec) * 1000000000 + t->tv_nsec; }
static const int64_t EPOCH_S = 1700000000; // virtual CLOCK_REALTIME origin

// ---------------------------------------------------------------- I/O
// connections to these ports are answered only when the port is taken out of the set
static std::set<int> holes;
static std::map<int, sockaddr_in> asking;   // by whom
static std::map<int, int> refusal;          // those that were refused then
static bool unanswered(int fd) {
    auto i = asking.find(fd);
    if (i == asking.end()) return false;
    if (holes.count(ntohs(i->second.sin_port))) return true;
    sockaddr_in a = i->second;
    asking.erase(i);
    if (syscall(SYS_connect, fd, &a, sizeof a) && errno != EINPROGRESS) refusal[fd] = errno;
    return false;
}
void hole(int port, bool on) { if (on) holes.insert(port); else holes.erase(port); }
static short raw_poll1(int fd, short ev) {
    if (unanswered(fd)) return 0;
    if (refusal.count(fd)) return (ev & (POLLIN | POLLOUT)) | POLLERR | POLLHUP;
    pollfd p{fd, ev, 0};
    struct timespec z{0, 0};
    syscall(SYS_ppoll, &p, 1, &z, nullptr, 0);
    return p.revents;
}
static int raw_poll(pollfd *f, nfds_t n) {
    struct timespec z{0, 0};
    if (!asking.empty() || !refusal.empty()) {
        int r = 0;
        for (nfds_t i = 0; i < n; i++) { f[i].revents = f[i].fd < 0 ? 0 : raw_poll1(f[i].fd, f[i].events); r += f[i].revents != 0; }
        return r;
    }
    return (int)syscall(SYS_ppoll, f, n, &z, nullptr, 0);
}
static bool nonblocking(int fd) {
    int fl = (int)syscall(SYS_fcntl, fd, F_GETFL, 0);
    return fl >= 0 && (fl & O_NONBLOCK);
}
static bool tracked(int fd) { return fdt.count(fd); }

static std::set<int> hups;
static int hup_seen(pollfd *f, nfds_t n, int r) {
    for (nfds_t i = 0; i < n && r > 0; i++)
        if (f[i].fd >= 0 && (f[i].revents & (POLLHUP | POLLERR)) && hups.insert(f[i].fd).second && hooks.on_hup) hooks.on_hup(f[i].fd);
    return r;
}
static int sim_poll(pollfd *f, nfds_t n, int64_t timeout_ns) {
    reschedule();
    for (nfds_t i = 0; i < n; i++) stale(f[i].fd, "poll");
    int r = raw_poll(f, n);
    if (r != 0 || timeout_ns == 0) return hup_seen(f, n, r);
    int64_t dl = timeout_ns < 0 ? -1 : now_ns_ + timeout_ns;
    if (cfg.eintr && rnd_chance(25)) {
        // at once, or after a part of the time has passed
        if (rnd_chance(50)) {
            int64_t ms = (dl < 0 ? 3000000000LL : timeout_ns) / 1000000;
            if (ms > 1) {
                wait_until([f, n]{ return raw_poll(f, n) > 0; }, now_ns_ + (1 + rnd_below((long)std::min<int64_t>(ms, 1000000) - 1)) * 1000000LL);
                r = raw_poll(f, n);
                if (r != 0) return hup_seen(f, n, r);
            }
        }
        for (nfds_t i = 0; i < n; i++) f[i].revents = 0;
        errno = EINTR;
        return -1;
    }
    wait_until([f, n]{ return raw_poll(f, n) > 0; }, dl);
    return hup_seen(f, n, raw_poll(f, n));
}
static ssize_t sim_recv(int fd, void *b, size_t n, int flags, bool is_read) {
    reschedule();
    if (stale(fd, "recv")) { errno = EBADF; return -1; }
    if (cfg.shortio && n > 1 && !(flags & MSG_PEEK) && rnd_chance(60)) n = 1 + rnd_below((long)n);
    ssize_t r;
    for (;;) {
        r = syscall(SYS_recvfrom, fd, b, n, flags | MSG_DONTWAIT, nullptr, nullptr);
        if (r < 0 && errno == EAGAIN && !(flags & MSG_DONTWAIT) && !nonblocking(fd)) {
            wait_until([fd]{ return raw_poll1(fd, POLLIN) != 0; }, -1);
            if (stale(fd, "recv")) { errno = EBADF; return -1; }
            continue;
        }
        break;
    }
    int e = errno;
    if (r > 0 && !(flags & MSG_PEEK)) moved_ += r;
    if (hooks.on_recv && !(flags & MSG_PEEK) && n > 0) hooks.on_recv(fd, (const char*)b, r, r < 0 ? e : 0);
    errno = e;
    return r;
}
static ssize_t sim_send(int fd, const void *b, size_t n, int flags) {
    reschedule();
    if (stale(fd, "send")) { errno = EBADF; return -1; }
    bool blocking = !(flags & MSG_DONTWAIT) && !nonblocking(fd);
    if (cfg.shortio && n > 1 && rnd_chance(60)) { n = 1 + rnd_below((long)n); }
    size_t done = 0;
    ssize_t r;
    for (;;) {
        r = syscall(SYS_sendto, fd, (const char*)b + done, n - done, flags | MSG_DONTWAIT | MSG_NOSIGNAL, nullptr, 0);
        if (r >= 0) { done += r; if (done >= n || !blocking) { r = (ssize_t)done; break; } continue; }
        if (errno == EAGAIN && blocking) {
            // a blocking send holds the thread until the peer makes room
            wait_until([fd]{ return raw_poll1(fd, POLLOUT) != 0; }, -1);
            if (stale(fd, "send")) { errno = EBADF; r = -1; break; }
            continue;
        }
        if (done) { r = (ssize_t)done; }
        break;
    }
    int e = errno;
    if (r < 0 && e == EPIPE && !(flags & MSG_NOSIGNAL)) raise(SIGPIPE);
    if (r > 0) moved_ += r;
    if (hooks.on_send) hooks.on_send(fd, (const char*)b, r, r < 0 ? e : 0);
    errno = e;
    return r;
}
static bool is_sock(int fd) { auto i = fdt.find(fd); return i != fdt.end() && i->second.kind == "sock"; }
static ssize_t sim_read(int fd, void *b, size_t n) {
    if (is_sock(fd)) return sim_recv(fd, b, n, 0, true);
    if (!tracked(fd)) return syscall(SYS_read, fd, b, n);
    reschedule();
    if (stale(fd, "read")) { errno = EBADF; return -1; }
    if (!nonblocking(fd)) {
        wait_until([fd]{ return raw_poll1(fd, POLLIN) != 0; }, -1);
        if (stale(fd, "read")) { errno = EBADF; return -1; }
    }
    return syscall(SYS_read, fd, b, n);
}
static ssize_t sim_write(int fd, const void *b, size_t n) {
    if (is_sock(fd)) return sim_send(fd, b, n, 0);
    if (!tracked(fd)) return syscall(SYS_write, fd, b, n);
    reschedule();
    if (stale(fd, "write")) { errno = EBADF; return -1; }
    return syscall(SYS_write, fd, b, n);
}
static int sim_close(int fd) {
    if (!tracked(fd)) { reschedule(); return (int)syscall(SYS_close, fd); }
    reschedule();
    if (stale(fd, "close")) { errno = EBADF; return -1; }
    fdt[fd].open = false;
    vtimers.erase(fd);
    asking.erase(fd);
    refusal.erase(fd);
    if (hooks.on_close) hooks.on_close(fd);
    return (int)syscall(SYS_close, fd);
}
static int sim_connect(int fd, const sockaddr *a, socklen_t l) {
    reschedule();
    if (stale(fd, "connect")) { errno = EBADF; return -1; }
    int fl = (int)syscall(SYS_fcntl, fd, F_GETFL, 0);
    bool blocking = !(fl & O_NONBLOCK);
    if (a->sa_family == AF_INET && (holes.count(ntohs(((const sockaddr_in*)a)->sin_port)) || asking.count(fd))) {
        if (unanswered(fd)) { errno = EALREADY; return -1; }
        asking[fd] = *(const sockaddr_in*)a;
        if (hooks.on_connect) hooks.on_connect(fd, true);
        if (!blocking) { errno = EINPROGRESS; return -1; }
        wait_until([fd]{ return !unanswered(fd); }, now_ns_ + 127000000000LL);   // (what Linux does by default)
        if (unanswered(fd)) { asking.erase(fd); errno = ETIMEDOUT; return -1; }
        if (refusal.count(fd)) { errno = refusal[fd]; refusal.erase(fd); return -1; }
        return 0;
    }
    if (blocking) syscall(SYS_fcntl, fd, F_SETFL, fl | O_NONBLOCK);
    int r, e;
    for (;;) {
        r = (int)syscall(SYS_connect, fd, a, l);
        e = errno;
        if (r == 0 || !blocking) break;
        if (e == EAGAIN) { // unix backlog full: a blocking connect waits
            bool first = true;
            wait_until([&]{ if (first) { first = false; return false; }
                            r = (int)syscall(SYS_connect, fd, a, l); e = errno; return r == 0 || e != EAGAIN; }, -1);
            break;
        }
        if (e == EINPROGRESS) {
            wait_until([fd]{ return raw_poll1(fd, POLLOUT) != 0; }, -1);
            socklen_t sl = sizeof e; e = 0;
            syscall(SYS_getsockopt, fd, SOL_SOCKET, SO_ERROR, &e, &sl);
            r = e ? -1 : 0;
            break;
        }
        break;
    }
    if (blocking) syscall(SYS_fcntl, fd, F_SETFL, fl);
    if (hooks.on_connect) hooks.on_connect(fd, r == 0 || e == EINPROGRESS);
    errno = e;
    return r;
}
static int sim_accept(int lfd, sockaddr *a, socklen_t *l, int flags) {
    reschedule();
    if (stale(lfd, "accept")) { errno = EBADF; return -1; }
    int r;
    if (raw_poll1(lfd, POLLIN) && refused("accept")) return -1;
    if (cfg.eintr && rnd_chance(20)) { errno = rnd_chance(50) ? ECONNABORTED : EINTR; return -1; }
    for (;;) {
        int fl = (int)syscall(SYS_fcntl, lfd, F_GETFL, 0);
        if (!(fl & O_NONBLOCK)) syscall(SYS_fcntl, lfd, F_SETFL, fl | O_NONBLOCK);
        r = (int)syscall(SYS_accept4, lfd, a, l, flags);
        int e = errno;
        if (!(fl & O_NONBLOCK)) syscall(SYS_fcntl, lfd, F_SETFL, fl);
        errno = e;
        if (r < 0 && e == EAGAIN && !(fl & O_NONBLOCK)) {
            wait_until([lfd]{ return raw_poll1(lfd, POLLIN) != 0; }, -1);
            if (stale(lfd, "accept")) { errno = EBADF; return -1; }
            continue;
        }
        break;
    }
    if (r >= 0) { r = track(r, "sock"); if (hooks.on_accept) hooks.on_accept(lfd, r); }
    return r;
}
static bool path_ok(const char *p) {
    return !scratch.empty() && strncmp(p, scratch.c_str(), scratch.size()) == 0 && !strstr(p, "..");
}
static void fine_access() {
    if (--fine_left > 0) return;
    fine_left = 1 + rnd_below(2 * cfg.fine_gap);
    InSim g;
    int e = errno;
    reschedule(true);
    errno = e;
}
} // namespace sim

using namespace sim;
#define FINE(name) extern "C" void __sanitizer_cov_##name(void*) { if (g_active && cfg.fine && cur && !depth) fine_access(); }
FINE(load1) FINE(load2) FINE(load4) FINE(load8) FINE(load16)
FINE(store1) FINE(store2) FINE(store4) FINE(store8) FINE(store16)

// ---------------------------------------------------------------- interposed symbols
extern "C" {
int pthread_create(pthread_t *pt, const pthread_attr_t *at, void *(*fn)(void*), void *arg) {
    if (!on()) return r_create(pt, at, fn, arg);
    InSim g; Har h;
    int r = do_create(pt, at, fn, arg, true);
    reschedule();
    return r;
}
int pthread_join(pthread_t pt, void **ret) {
    if (!on()) return r_join(pt, ret);
    Thread *t = nullptr;
    for (auto *x : threads) if (pthread_equal(x->pt, pt) && x != cur) t = x; // the newest with that handle
    if (t) wait_until([t]{ return t->st == DONE; }, -1);
    InSim g; Har h;
    return r_join(pt, ret);
}
int pthread_mutex_lock(pthread_mutex_t *m) { if (!on()) return r_mlock ? r_mlock(m) : 0; InSim g; return m_lock(m); }
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!on()) return r_mtry(m);
    InSim g; reschedule();
    Mx &x = mtx[m];
    if (x.owner == cur && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { x.count++; return 0; }
    if (x.owner) return EBUSY;
    x.owner = cur; x.count = 1; return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) {
    InSim g; reschedule();
    if (mtx[m].owner == cur && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { mtx[m].count++; return 0; }
    if (!wait_until([m]{ return mtx[m].owner == nullptr; }, ts_ns(ts) - EPOCH_S * 1000000000)) return ETIMEDOUT;
    mtx[m].owner = cur; mtx[m].count = 1; return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!on()) return r_munlock ? r_munlock(m) : 0;
    InSim g; m_unlock_nopoint(m); reschedule(); return 0;
}
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, int64_t dl) {
    InSim g;
    bool sig = false;
    cvs[c].w.push_back({cur, &sig});
    int cnt = mtx[m].count;
    mtx.erase(m);
    wait_until([&sig]{ return sig; }, dl);
    if (!sig) { auto &w = cvs[c].w; for (auto i = w.begin(); i != w.end(); ++i) if (i->second == &sig) { w.erase(i); break; } }
    bool s = sig;
    wait_until([m]{ return mtx[m].owner == nullptr; }, -1);
    mtx[m].owner = cur; mtx[m].count = cnt;
    return s ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!on()) return r_cwait(c, m); return cond_wait(c, m, -1); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
    return cond_wait(c, m, ts_ns(t) - EPOCH_S * 1000000000);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) {
    return cond_wait(c, m, ts_ns(t) - (k == CLOCK_REALTIME ? EPOCH_S * 1000000000 : 0));
}
int pthread_cond_signal(pthread_cond_t *c) {
    if (!on()) return r_csig(c);
    InSim g; auto &w = cvs[c].w;
    if (!w.empty()) { *w.front().second = true; w.pop_front(); }
    reschedule(); return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    if (!on()) return r_cbc(c);
    InSim g; auto &w = cvs[c].w;
    for (auto &x : w) *x.second = true;
    w.clear(); reschedule(); return 0;
}

int poll(struct pollfd *f, nfds_t n, int t) {
    if (!on()) { struct timespec ts{t / 1000, (t % 1000) * 1000000L}; return (int)syscall(SYS_ppoll, f, n, t < 0 ? nullptr : &ts, nullptr, 0); }
    InSim g; return sim_poll(f, n, t < 0 ? -1 : (int64_t)t * 1000000);
}
int ppoll(struct pollfd *f, nfds_t n, const struct timespec *ts, const sigset_t *) {
    if (!on()) return (int)syscall(SYS_ppoll, f, n, ts, nullptr, 0);
    InSim g; return sim_poll(f, n, ts ? ts_ns(ts) : -1);
}
int select(int nf, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv) {
    if (!on()) return (int)syscall(SYS_select, nf, r, w, x, tv);
    InSim g;
    std::vector<pollfd> p;
    for (int i = 0; i < nf; i++) {
        short ev = 0;
        if (r && FD_ISSET(i, r)) ev |= POLLIN;
        if (w && FD_ISSET(i, w)) ev |= POLLOUT;
        if (x && FD_ISSET(i, x)) ev |= POLLPRI;
        if (ev) p.push_back({i, ev, 0});
    }
    int res = sim_poll(p.data(), p.size(), tv ? (int64_t)tv->tv_sec * 1000000000 + tv->tv_usec * 1000LL : -1);
    if (res < 0) return res;
    if (r) FD_ZERO(r);
    if (w) FD_ZERO(w);
    if (x) FD_ZERO(x);
    int cnt = 0;
    for (auto &q : p) {
        if (r && (q.events & POLLIN) && (q.revents & (POLLIN | POLLHUP | POLLERR))) { FD_SET(q.fd, r); cnt++; }
        if (w && (q.events & POLLOUT) && (q.revents & (POLLOUT | POLLERR))) { FD_SET(q.fd, w); cnt++; }
    }
    return cnt;
}
int pselect(int nf, fd_set *r, fd_set *w, fd_set *x, const struct timespec *ts, const sigset_t *) {
    struct timeval tv; if (ts) { tv.tv_sec = ts->tv_sec; tv.tv_usec = ts->tv_nsec / 1000; }
    return select(nf, r, w, x, ts ? &tv : nullptr);
}
int epoll_create1(int fl) { if (!on()) return (int)syscall(SYS_epoll_create1, fl); InSim g; return track((int)syscall(SYS_epoll_create1, fl), "epoll"); }
int epoll_create(int) { return epoll_create1(0); }
int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
    if (on()) { InSim g; reschedule(); stale(ep, "epoll_ctl"); if (op != EPOLL_CTL_DEL) stale(fd, "epoll_ctl"); }
    return (int)syscall(SYS_epoll_ctl, ep, op, fd, ev);
}
int epoll_wait(int ep, struct epoll_event *ev, int n, int t) {
    if (!on()) return (int)syscall(SYS_epoll_pwait, ep, ev, n, t, nullptr, 8);
    InSim g;
    pollfd p{ep, POLLIN, 0};
    int r = sim_poll(&p, 1, t < 0 ? -1 : (int64_t)t * 1000000);
    if (r <= 0) return r;
    r = (int)syscall(SYS_epoll_pwait, ep, ev, n, 0, nullptr, 8);
    return r;
}
int epoll_pwait(int ep, struct epoll_event *ev, int n, int t, const sigset_t *) { return epoll_wait(ep, ev, n, t); }
int pipe2(int *f, int fl) {
    int r = (int)syscall(SYS_pipe2, f, fl);
    if (on() && !r) { InSim g; reschedule(); f[0] = track(f[0], "pipe"); f[1] = track(f[1], "pipe"); }
    return r;
}
int pipe(int *f) { return pipe2(f, 0); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
    if (!on()) { static auto real = (int(*)(pthread_rwlock_t*))dlsym(RTLD_NEXT, "pthread_rwlock_wrlock"); return real(l); }
   
    InSim g; reschedule();
    wait_until([l]{ return !rws[l].w && !rws[l].r; }, -1);
    rws[l].w = cur; return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
    if (!on()) { static auto real = (int(*)(pthread_rwlock_t*))dlsym(RTLD_NEXT, "pthread_rwlock_rdlock"); return real(l); }
   
    InSim g; reschedule();
    wait_until([l]{ return !rws[l].w; }, -1);
    rws[l].r++; return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) {
    if (!on()) { static auto real = (int(*)(pthread_rwlock_t*))dlsym(RTLD_NEXT, "pthread_rwlock_trywrlock"); return real(l); }
    InSim g; reschedule(); Rw &x = rws[l]; if (x.w || x.r) return EBUSY; x.w = cur; return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) {
    if (!on()) { static auto real = (int(*)(pthread_rwlock_t*))dlsym(RTLD_NEXT, "pthread_rwlock_tryrdlock"); return real(l); }
    InSim g; reschedule(); Rw &x = rws[l]; if (x.w) return EBUSY; x.r++; return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
    if (!on()) { static auto real = (int(*)(pthread_rwlock_t*))dlsym(RTLD_NEXT, "pthread_rwlock_unlock"); return real(l); }
   
    InSim g; Rw &x = rws[l];
    if (x.w == cur) x.w = nullptr; else if (x.r) x.r--;
    if (!x.w && !x.r) rws.erase(l);
    reschedule(); return 0;
}
ssize_t recv(int fd, void *b, size_t n, int fl) {
    if (!on()) return syscall(SYS_recvfrom, fd, b, n, fl, nullptr, nullptr);
    InSim g; return sim_recv(fd, b, n, fl, false);
}
ssize_t recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l) {
    if (!on()) return syscall(SYS_recvfrom, fd, b, n, fl, a, l);
    InSim g; return sim_recv(fd, b, n, fl, false);
}
ssize_t recvmsg(int fd, struct msghdr *m, int fl) {
    if (!on() || !tracked(fd)) return syscall(SYS_recvmsg, fd, m, fl);
    InSim g;
    for (size_t i = 0; i < m->msg_iovlen; i++) if (m->msg_iov[i].iov_len) return sim_recv(fd, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, fl, false);
    return 0;
}
ssize_t send(int fd, const void *b, size_t n, int fl) {
    if (!on()) return syscall(SYS_sendto, fd, b, n, fl, nullptr, 0);
    InSim g; return sim_send(fd, b, n, fl);
}
ssize_t sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l) {
    if (!on()) return syscall(SYS_sendto, fd, b, n, fl, a, l);
    InSim g; return sim_send(fd, b, n, fl);
}
ssize_t sendmsg(int fd, const struct msghdr *m, int fl) {
    if (!on() || !tracked(fd)) return syscall(SYS_sendmsg, fd, m, fl);
    InSim g;
    for (size_t i = 0; i < m->msg_iovlen; i++) if (m->msg_iov[i].iov_len) return sim_send(fd, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, fl);
    return 0;
}
ssize_t read(int fd, void *b, size_t n) { if (!on()) return syscall(SYS_read, fd, b, n); InSim g; return sim_read(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { if (!on()) return syscall(SYS_write, fd, b, n); InSim g; return sim_write(fd, b, n); }
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (!on() || !tracked(fd)) return syscall(SYS_readv, fd, v, c);
    InSim g;
    for (int i = 0; i < c; i++) if (v[i].iov_len) return sim_read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!on() || !tracked(fd)) return syscall(SYS_writev, fd, v, c);
    InSim g;
    for (int i = 0; i < c; i++) if (v[i].iov_len) return sim_write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
int eventfd_write(int fd, eventfd_t v) { return write(fd, &v, 8) == 8 ? 0 : -1; }
int eventfd_read(int fd, eventfd_t *v) { return read(fd, v, 8) == 8 ? 0 : -1; }
int close(int fd) { if (!on()) return (int)syscall(SYS_close, fd); InSim g; return sim_close(fd); }
int shutdown(int fd, int how) {
    if (!on()) return (int)syscall(SYS_shutdown, fd, how);
    InSim g; reschedule(); stale(fd, "shutdown"); return (int)syscall(SYS_shutdown, fd, how);
}
int socket(int d, int t, int p) {
    if (!on()) return (int)syscall(SYS_socket, d, t, p);
    InSim g; reschedule();
    if (refused("socket")) return -1;
    int fd = track((int)syscall(SYS_socket, d, t, p), "sock");
    if (fd >= 0 && hooks.on_socket) hooks.on_socket(fd, d);
    return fd;
}
int connect(int fd, const struct sockaddr *a, socklen_t l) { if (!on()) return (int)syscall(SYS_connect, fd, a, l); InSim g; return sim_connect(fd, a, l); }
int accept4(int fd, struct sockaddr *a, socklen_t *l, int fl) { if (!on()) return (int)syscall(SYS_accept4, fd, a, l, fl); InSim g; return sim_accept(fd, a, l, fl); }
int accept(int fd, struct sockaddr *a, socklen_t *l) { if (!on()) return (int)syscall(SYS_accept4, fd, a, l, 0); InSim g; return sim_accept(fd, a, l, 0); }
int listen(int fd, int b) {
    if (!on()) return (int)syscall(SYS_listen, fd, b);
    InSim g; reschedule(); stale(fd, "listen");
    int r = (int)syscall(SYS_listen, fd, b);
    if (!r && hooks.on_listen) hooks.on_listen(fd);
    return r;
}
int bind(int fd, const struct sockaddr *a, socklen_t l) {
    if (!on()) return (int)syscall(SYS_bind, fd, a, l);
    InSim g; reschedule(); stale(fd, "bind");
    if (a->sa_family == AF_UNIX) {
        const char *p = ((const sockaddr_un*)a)->sun_path;
        if (!path_ok(p)) { if (hooks.on_badpath) hooks.on_badpath("bind", p); errno = EACCES; return -1; }
    }
    return (int)syscall(SYS_bind, fd, a, l);
}
int setsockopt(int fd, int lv, int o, const void *v, socklen_t l) {
    if (!on()) return (int)syscall(SYS_setsockopt, fd, lv, o, v, l);
    InSim g; reschedule(); stale(fd, "setsockopt"); return (int)syscall(SYS_setsockopt, fd, lv, o, v, l);
}
int getsockopt(int fd, int lv, int o, void *v, socklen_t *l) {
    if (!on()) return (int)syscall(SYS_getsockopt, fd, lv, o, v, l);
    InSim g; reschedule(); stale(fd, "getsockopt");
    if (lv == SOL_SOCKET && o == SO_ERROR && refusal.count(fd)) { *(int*)v = refusal[fd]; refusal.erase(fd); return 0; }
    return (int)syscall(SYS_getsockopt, fd, lv, o, v, l);
}
int unlink(const char *p) {
    if (!on()) return (int)syscall(SYS_unlink, p);
    InSim g; reschedule();
    if (!path_ok(p)) { if (hooks.on_badpath) hooks.on_badpath("unlink", p); errno = EACCES; return -1; }
    return (int)syscall(SYS_unlink, p);
}
int remove(const char *p) { return unlink(p); }
int rename(const char *a, const char *b) {
    if (!on()) return (int)syscall(SYS_rename, a, b);
    if (hooks.on_badpath) { InSim g; hooks.on_badpath("rename", a); }
    errno = EACCES; return -1;
}
int access(const char *p, int m) { if (on()) { InSim g; reschedule(); } return (int)syscall(SYS_access, p, m); }
int eventfd(unsigned int v, int fl) {
    if (!on()) return (int)syscall(SYS_eventfd2, v, fl);
    InSim g; reschedule(); if (refused("event")) return -1; return track((int)syscall(SYS_eventfd2, v, fl), "event");
}
int timerfd_create(clockid_t, int fl) {
    bool l = on();
    InSim g; reschedule();
    if (l && refused("timer")) return -1;
    int fd = track((int)syscall(SYS_eventfd2, 0, (fl & TFD_NONBLOCK) ? EFD_NONBLOCK : 0), "timer");
    VTimer t; t.fd = fd; vtimers[fd] = t;
    return fd;
}
int timerfd_settime(int fd, int fl, const struct itimerspec *n, struct itimerspec *o) {
    InSim g; reschedule();
    if (stale(fd, "timerfd_settime")) { errno = EBADF; return -1; }
    auto it = vtimers.find(fd);
    if (it == vtimers.end()) { errno = EBADF; return -1; }
    if (n->it_value.tv_sec < 0 || n->it_value.tv_nsec < 0 || n->it_value.tv_nsec > 999999999 || n->it_interval.tv_sec < 0) { errno = EINVAL; return -1; }
    VTimer &t = it->second;
    if (o) { memset(o, 0, sizeof *o); if (t.expiry) { int64_t d = t.expiry - now_ns_; o->it_value.tv_sec = d / 1000000000; o->it_value.tv_nsec = d % 1000000000; } }
    int64_t v = ts_ns(&n->it_value);
    t.expiry = v == 0 ? 0 : (fl & TFD_TIMER_ABSTIME) ? v : now_ns_ + v;
    t.interval = ts_ns(&n->it_interval);
    if (raw_poll1(fd, POLLIN)) { uint64_t x; syscall(SYS_read, fd, &x, 8); }
    return 0;
}
int timerfd_gettime(int fd, struct itimerspec *o) {
    InSim g; auto it = vtimers.find(fd);
    if (it == vtimers.end()) { errno = EBADF; return -1; }
    memset(o, 0, sizeof *o);
    if (it->second.expiry) { int64_t d = it->second.expiry - now_ns_; o->it_value.tv_sec = d / 1000000000; o->it_value.tv_nsec = d % 1000000000; }
    return 0;
}
int fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    if (on()) { InSim g; reschedule(); stale(fd, "fcntl"); }
    return (int)syscall(SYS_fcntl, fd, cmd, a);
}
int fcntl64(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    if (on()) { InSim g; reschedule(); stale(fd, "fcntl"); }
    return (int)syscall(SYS_fcntl, fd, cmd, a);
}
int nanosleep(const struct timespec *t, struct timespec *) {
    if (!on()) return (int)syscall(SYS_nanosleep, t, nullptr);
    wait_until([]{ return false; }, now_ns_ + ts_ns(t)); return 0;
}
int clock_nanosleep(clockid_t k, int fl, const struct timespec *t, struct timespec *) {
    if (!on()) return (int)syscall(SYS_clock_nanosleep, k, fl, t, nullptr);
    int64_t d = ts_ns(t);
    if (fl & TIMER_ABSTIME) { if (k == CLOCK_REALTIME) d -= EPOCH_S * 1000000000; } else d += now_ns_;
    wait_until([]{ return false; }, d); return 0;
}
unsigned sleep(unsigned s) { struct timespec t{(time_t)s, 0}; nanosleep(&t, nullptr); return 0; }
int usleep(useconds_t u) { struct timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
int sched_yield() { if (on()) { InSim g; reschedule(true); return 0; } return (int)syscall(SYS_sched_yield); }
int clock_gettime(clockid_t k, struct timespec *t) {
    if (!on()) return (int)syscall(SYS_clock_gettime, k, t);
    int64_t v = now_ns_ + (k == CLOCK_REALTIME ? EPOCH_S * 1000000000 : 0);
    t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0;
}
int gettimeofday(struct timeval *tv, void *) {
    struct timespec t; clock_gettime(CLOCK_REALTIME, &t);
    if (tv) { tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; } return 0;
}
time_t time(time_t *o) {
    struct timespec t; clock_gettime(CLOCK_REALTIME, &t);
    if (o) *o = t.tv_sec; return t.tv_sec;
}

// C allocation of the statically linked code (library objects are linked with --wrap)
void *__real_malloc(size_t); void __real_free(void*); void *__real_calloc(size_t, size_t); void *__real_realloc(void*, size_t);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); note_alloc(p, n, __builtin_return_address(0)); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); note_alloc(p, a * b, __builtin_return_address(0)); return p; }
void *__wrap_realloc(void *o, size_t n) { note_free(o); void *p = __real_realloc(o, n); note_alloc(p, n, __builtin_return_address(0)); return p; }
void __wrap_free(void *p) { note_free(p); __real_free(p); }
}

static void *op_new(size_t n, void *ra) {
    void *p = __real_malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    note_alloc(p, n, ra);
    return p;
}
void *operator new(size_t n) { return op_new(n, __builtin_return_address(0)); }
void *operator new[](size_t n) { return op_new(n, __builtin_return_address(0)); }
void operator delete(void *p) noexcept { note_free(p); __real_free(p); }
void operator delete[](void *p) noexcept { note_free(p); __real_free(p); }
void operator delete(void *p, size_t) noexcept { note_free(p); __real_free(p); }
void operator delete[](void *p, size_t) noexcept { note_free(p); __real_free(p); }
void *operator new(size_t n, const std::nothrow_t&) noexcept { void *p = __real_malloc(n ? n : 1); note_alloc(p, n, __builtin_return_address(0)); return p; }
void *operator new[](size_t n, const std::nothrow_t&) noexcept { void *p = __real_malloc(n ? n : 1); note_alloc(p, n, __builtin_return_address(0)); return p; }
