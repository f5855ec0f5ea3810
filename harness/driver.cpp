// Runs scenarios: API calls of the library under the deterministic environment of sim.cpp, and prints what happened.
//   driver <scenario file>         scenarios start with "scenario <name> key=value ...", see vf/scen.py
// Every scenario runs in a child process; the events go to shared memory so that a crash loses nothing.
#include "sim.hpp"
#include "Client.hpp"
#include "Connection.hpp"
#include "Server.hpp"
#include "Request.hpp"
#include "values/All.hpp"
#include <arpa/inet.h>
#include <atomic>
#include <errno.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <netinet/in.h>
#include <signal.h>
#include <sstream>
#include <stdarg.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace DowowNetwork;
using std::string;
using sim::Har;
using sim::Lib;

// ---------------------------------------------------------------- event log
static char *g_log; static const size_t LOGSZ = 64u << 20;
static std::atomic<size_t> *g_off;
static long n_lines, n_bytes;            // (the first bytes transferred are worth some lines)
static void logs(const string &s) {
    if (++n_lines > 20000 + 2 * std::min(n_bytes, 40000L)) {   // goes round in circles
        n_lines = -1000000000;
        char h[64]; snprintf(h, sizeof h, "%ld %d %d ", (long)sim::now_ms(), sim::self(), sim::tag());
        logs(string(h) + "stuck flood");
        _exit(0);
    }
    size_t o = *g_off;
    if (o + s.size() + 1 >= LOGSZ) return;
    memcpy(g_log + o, s.data(), s.size());
    g_log[o + s.size()] = '\n';
    *g_off = o + s.size() + 1;
}
static void ev(const char *fmt, ...) {
    char b[1024];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    char h[64]; snprintf(h, sizeof h, "%ld %d %d ", (long)sim::now_ms(), sim::self(), sim::tag());
    logs(string(h) + b);
}
static void evs(const string &x) { char h[64]; snprintf(h, sizeof h, "%ld %d %d ", (long)sim::now_ms(), sim::self(), sim::tag()); logs(string(h) + x); }
static string hex(const char *p, size_t n) {
    static const char *d = "0123456789abcdef"; string r; r.reserve(2 * n);
    for (size_t i = 0; i < n; i++) { r += d[(uint8_t)p[i] >> 4]; r += d[p[i] & 15]; }
    return r.empty() ? "-" : r;
}
static string unhex(const string &s) {
    string r; if (s == "-") return r;
    for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)strtol(s.substr(i, 2).c_str(), 0, 16);
    return r;
}
static string ser(const Request *r) { // serialized content, the harness's own copy
    Request c; c.CopyFrom(r);
    uint32_t n = c.GetSize(); const char *b = c.Serialize(); string s(b, n); delete[] b;
    return s;
}

// ---------------------------------------------------------------- world
typedef std::map<string, string> Args;
struct Op { string name; std::vector<string> a; Args k; };
typedef std::vector<Op> Prog;
struct Ep { Connection *c = nullptr; Client *cl = nullptr; bool server = false; };
static std::vector<Ep> eps(4096);
static int n_eps = 0;
struct Srv { Server *s = nullptr; string ip, path; int port = 0; Prog con, dis; bool has_con = false, has_dis = false; };
static std::vector<Srv> srvs(4);
static std::map<string, SafeConnection*> refs;
static std::map<string, int> ref_ep;
static std::map<string, int> raws;       // raw peers and listeners
static std::map<string, bool> gates;
static std::map<string, Prog> progs;     // t<n>: threads, h<n>: handlers
static std::map<string, int> threads_started;
static int op_no = 0;
static __thread int in_handler_ep = -1;
static __thread Connection *in_handler_c = nullptr;
static __thread bool has_slot = false;
static string scratch;

static int ep_of(Connection *c) { for (int i = 0; i < n_eps; i++) if (eps[i].c == c) return i; return -1; }
static string val(const Op &o, const char *k, const char *d = "") { auto i = o.k.find(k); return i == o.k.end() ? d : i->second; }
static long num(const Op &o, const char *k, long d = 0) { auto i = o.k.find(k); return i == o.k.end() ? d : atol(i->second.c_str()); }
static void run(const Prog &p);

template <int N> static void handler(Connection *c, Request *r) {
    Har g;
    int e = ep_of(c);
    int oe = in_handler_ep; Connection *oc = in_handler_c;
    in_handler_ep = e; in_handler_c = c;
    evs("hcall " + std::to_string(e) + " " + std::to_string(N) + " " + hex(ser(r).data(), ser(r).size()));
    run(progs["h" + std::to_string(N)]);
    delete r;
    ev("hret %d %d", e, N);
    in_handler_ep = oe; in_handler_c = oc;
}
static RequestHandler hs[] = {nullptr, handler<1>, handler<2>, handler<3>, handler<4>, handler<5>, handler<6>};

static int add_ep(Connection *c, Client *cl, bool server) { int i = n_eps++; eps[i] = {c, cl, server}; return i; }
static void conn_handler(Server *s, Connection *c) {
    Har g;
    int e = add_ep(c, nullptr, true), k = 0;
    for (size_t i = 0; i < srvs.size(); i++) if (srvs[i].s == s) k = i;
    int oe = in_handler_ep; Connection *oc = in_handler_c;
    in_handler_ep = e; in_handler_c = c;
    ev("connH %d %d %u", k, e, c->id);
    run(srvs[k].con);
    ev("connHR %d %d", k, e);
    in_handler_ep = oe; in_handler_c = oc;
}
static void dis_handler(Server *s, Connection *c) {
    Har g;
    int e = ep_of(c), k = 0;
    if (e < 0) e = add_ep(c, nullptr, true);
    for (size_t i = 0; i < srvs.size(); i++) if (srvs[i].s == s) k = i;
    int oe = in_handler_ep; Connection *oc = in_handler_c;
    in_handler_ep = e; in_handler_c = c;
    ev("disH %d %d %u", k, e, c->id);
    run(srvs[k].dis);
    ev("disHR %d %d", k, e);
    in_handler_ep = oe; in_handler_c = oc;
}

// the slots of handlers are their own: several may be running
static string slot_of(const string &t) { return t[1] == '8' || t[1] == '9' ? t + "_" + std::to_string(sim::self()) : t; }
static Connection *target(const string &t0, int &e) {
    if (t0 == "@") { e = in_handler_ep; return in_handler_c; }
    if (t0[0] == 'r') {
        string t = slot_of(t0);
        auto i = refs.find(t);
        if (i == refs.end() || !i->second) { e = -1; return nullptr; }
        e = ref_ep[t];
        return &(*i->second)();
    }
    e = atoi(t0.c_str() + 1);
    return eps[e].c;
}

static Request *build(const Op &o) {
    static long fresh = 0;
    long key = num(o, "key"); if (in_handler_c && key) key += 100000 * ++fresh;   // handler programs run many times
    Request *r = new Request(unhex(val(o, "name", "61")));
    r->SetId((uint32_t)strtoul(val(o, "id", "0").c_str(), 0, 10));
    if (o.k.count("key")) r->Emplace<Value32U>("k", (uint32_t)key);
    long size = num(o, "size", -1);
    if (size >= 0) { string p; for (long i = 0; i < size; i++) p += (char)((key * 31 + i * 7) & 255); ValueStr v(p); r->Set("p", &v); }
    // arguments of all the other types
    unsigned long x = num(o, "x");
    for (int i = 0; x; i++, x /= 9) {
        string n = "x" + std::to_string(i); unsigned long y = x * 2654435761ul;
        switch (x % 9) {
            case 0: r->Emplace<Value8U>(n, y); break;    case 1: r->Emplace<Value8S>(n, y); break;
            case 2: r->Emplace<Value16U>(n, y); break;   case 3: r->Emplace<Value16S>(n, y); break;
            case 4: r->Emplace<Value32S>(n, y); break;   case 5: r->Emplace<Value64U>(n, y * y); break;
            case 6: r->Emplace<Value64S>(n, y * y); break;
            case 7: { ValueUndefined v; r->Set(n, &v); break; }
            default: {
                ValueArr a, b; Value16U u(y); ValueStr t(string("a\0b", 3)); b.Push(&u); b.Push(&t); a.Push(&b); a.Push(&u); ValueArr e; a.Push(&e); r->Set(n, &a);
            }
        }
    }
    return r;
}
// EMPTY, LONG and L<length> (padded to exactly that length) are special
static string path(const string &n) {
    if (n == "EMPTY") return "";
    if (n == "LONG") return scratch + "/" + string(120, 'x');
    string s = scratch + "/" + n;
    if (n.size() > 1 && n[0] == 'L' && isdigit(n[1]) && s.size() < (size_t)atoi(n.c_str() + 1)) s += string(atoi(n.c_str() + 1) - s.size(), 'x');
    return s;
}

// every process has a loopback address of its own, so that the ports of concurrent runs never meet
static uint32_t loop_addr() { unsigned p = getpid(); return htonl(0x7f000000u | ((p >> 16 & 0x7f) + 1) << 16 | (p & 0xffff)); }
static string loop_ip() { in_addr a{loop_addr()}; return inet_ntoa(a); }

// raw sockets of the harness
static int raw_listen(const string &n, const string &kind, int backlog) {
    int fd;
    if (kind == "unix") {
        fd = sim::unique_fd(socket(AF_UNIX, SOCK_STREAM, 0));
        sockaddr_un a; a.sun_family = AF_UNIX; memset(a.sun_path, 0, sizeof a.sun_path); memcpy(a.sun_path, path(n).data(), std::min(path(n).size(), sizeof a.sun_path));
        bind(fd, (sockaddr*)&a, sizeof a);
    } else {
        fd = sim::unique_fd(socket(AF_INET, SOCK_STREAM, 0));
        sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = loop_addr();
        bind(fd, (sockaddr*)&a, sizeof a);
    }
    listen(fd, backlog);
    fcntl(fd, F_SETFL, O_NONBLOCK);
    raws[n] = fd;
    return fd;
}
static int port_of(int fd) { sockaddr_in a; socklen_t l = sizeof a; getsockname(fd, (sockaddr*)&a, &l); return ntohs(a.sin_port); }
static std::map<string, int> ports;      // fixed ports by name
static int any_port(const string &n) {   // a port nobody listens on
    if (ports.count(n)) return ports[n];
    int fd = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = loop_addr();
    bind(fd, (sockaddr*)&a, sizeof a);
    int p = port_of(fd); close(fd);
    return ports[n] = p;
}
static void read_some(const string &n, long max) {
    int fd = raws[n]; string all; char b[65536];
    while (max != 0) {
        ssize_t r = recv(fd, b, max > 0 && max < (long)sizeof b ? max : sizeof b, MSG_DONTWAIT);
        if (r <= 0) { if (r == 0 || errno != EAGAIN) ev("preof %s %d", n.c_str(), r == 0 ? 0 : errno); break; }
        all.append(b, r); if (max > 0) max -= r;
    }
    ev("pread %s %ld", n.c_str(), (long)all.size());
}

static void call(const Op &o);
static void exec(const Op &o) {
    const string &n = o.name;
    // ---- harness
    if (n == "sleep") { sim::sleep_ms(atol(o.a[0].c_str())); return; }
    if (n == "settle") { sim::settle(); return; }
    if (n == "yield") { for (long i = o.a.empty() ? 1 : atol(o.a[0].c_str()); i > 0; i--) sim::point(); return; }
    if (n == "stall") { sim::stall(atol(o.a[0].c_str())); return; }
    if (n == "gate") { string g = o.a[0]; sim::wait_until([g]{ return gates[g]; }, -1); return; }
    if (n == "open") { gates[o.a[0]] = true; return; }
    if (n == "shut") { gates[o.a[0]] = false; return; }
    if (n == "start") {
        string t = o.a[0];
        Connection *hc = in_handler_c; int he = in_handler_ep;
        threads_started[t] = sim::spawn([t, hc, he]{ in_handler_c = hc; in_handler_ep = he; run(progs[t]); });
        return;
    }
    if (n == "join") { sim::join(threads_started[o.a[0]]); return; }
    if (n == "listen") { raw_listen(o.a[0], val(o, "kind", "unix"), num(o, "backlog", 16)); return; }
    if (n == "unlisten") { close(raws[o.a[0]]); unlink(path(o.a[0]).c_str()); return; }
    if (n == "paccept") { // raw peer from the harness listener
        int l = raws[o.a[1]];
        long ms = num(o, "ms", -1);   // if somebody comes within ms
        if (!sim::wait_until([l]{ return sim::rawpoll(l, 1); }, ms < 0 ? -1 : (sim::now_ms() + ms) * 1000000)) { raws[o.a[0]] = -1; return; }
        int fd = sim::unique_fd(accept4(l, 0, 0, 0));
        raws[o.a[0]] = fd; ev("paccept %s", o.a[0].c_str());
        return;
    }
    if (n == "pconnect") { // raw client
        string kind = val(o, "kind", "unix"), to = o.a[1];
        int fd, r;
        if (kind == "unix") {
            fd = sim::unique_fd(socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0));
            sockaddr_un a; a.sun_family = AF_UNIX; memset(a.sun_path, 0, sizeof a.sun_path); memcpy(a.sun_path, path(to).data(), std::min(path(to).size(), sizeof a.sun_path));
            r = connect(fd, (sockaddr*)&a, sizeof a);
        } else {
            fd = sim::unique_fd(socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0));
            sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = loop_addr(); a.sin_port = htons(any_port(to));
            r = connect(fd, (sockaddr*)&a, sizeof a);
            if (r && errno == EINPROGRESS) r = 0;
        }
        raws[o.a[0]] = fd;
        ev("pconnect %s %s %d", o.a[0].c_str(), to.c_str(), r == 0);
        return;
    }
    if (n == "psend") {
        string b = unhex(o.a[1]); int fd = raws[o.a[0]];
        long chunk = num(o, "chunk", 0), gap = num(o, "gap", 0);
        size_t off = 0;
        while (off < b.size()) {
            size_t m = b.size() - off;
            if (chunk && m > (size_t)chunk) m = chunk;
            ssize_t r = send(fd, b.data() + off, m, MSG_DONTWAIT | MSG_NOSIGNAL);
            if (r > 0) { ev("psend %s %ld", o.a[0].c_str(), (long)r); off += r; }
            else if (r < 0 && errno == EAGAIN) { if (!sim::wait_until([fd]{ return sim::rawpoll(fd, 4 | 8 | 16); }, sim::now_ms() * 1000000 + 30000000000LL)) break; }
            else break;
            if (chunk) { if (gap) sim::sleep_ms(gap); else if (num(o, "settle", 0)) sim::settle(); else sim::point(); }
        }
        return;
    }
    if (n == "pread") { read_some(o.a[0], o.a.size() > 1 ? atol(o.a[1].c_str()) : -1); return; }
    if (n == "pwaitread") { // read until there has been nothing for the given time, or the end
        int fd = raws[o.a[0]]; long ms = num(o, "ms", 1000); char b[65536];
        for (;;) {
            if (!sim::wait_until([fd]{ return sim::rawpoll(fd, 1); }, (sim::now_ms() + ms) * 1000000)) break;
            ssize_t r = recv(fd, b, num(o, "max", sizeof b), MSG_DONTWAIT);
            if (r <= 0) { ev("preof %s %d", o.a[0].c_str(), r == 0 ? 0 : errno); break; }
            ev("pread %s %ld", o.a[0].c_str(), (long)r);
        }
        return;
    }
    if (n == "pbuf") { int v = num(o, "rcv", 0); if (v) setsockopt(raws[o.a[0]], SOL_SOCKET, SO_RCVBUF, &v, sizeof v); v = num(o, "snd", 0); if (v) setsockopt(raws[o.a[0]], SOL_SOCKET, SO_SNDBUF, &v, sizeof v); return; }
    if (n == "pclose") { close(raws[o.a[0]]); ev("pclose %s", o.a[0].c_str()); return; }
    if (n == "preset") { linger l{1, 0}; setsockopt(raws[o.a[0]], SOL_SOCKET, SO_LINGER, &l, sizeof l); close(raws[o.a[0]]); ev("pclose %s", o.a[0].c_str()); return; }
    if (n == "pshut") { shutdown(raws[o.a[0]], num(o, "both", 0) ? SHUT_RDWR : SHUT_WR); ev("pshut %s", o.a[0].c_str()); return; }
    if (n == "pcheck") { // what a peer sees: is the socket still open?
        char b[65536]; int fd = raws[o.a[0]]; ssize_t r; long got = 0;
        while ((r = recv(fd, b, sizeof b, MSG_DONTWAIT)) > 0) got += r;
        ev("pcheck %s %d", o.a[0].c_str(), r < 0 && errno == EAGAIN ? 1 : 0);
        return;
    }
    if (n == "file") { string p = path(o.a[0]); if (val(o, "dir") == "1") mkdir(p.c_str(), 0700); else { int fd = open(p.c_str(), O_CREAT | O_WRONLY, 0600); close(fd); } ev("file %s", o.a[0].c_str()); return; }
    if (n == "exists") { ev("exists %s %d", o.a[0].c_str(), access(path(o.a[0]).c_str(), F_OK) == 0); return; }
    if (n == "hole") { sim::hole(raws.count(o.a[0]) ? port_of(raws[o.a[0]]) : any_port(o.a[0]), num(o, "on", 1)); return; }
    if (n == "nofd") { sim::scarce(num(o, "skip", 0), num(o, "n", 0)); return; }
    if (n == "note") { evs("note " + (o.a.empty() ? string() : o.a[0])); return; }
    call(o);
}
// handler programs of the harness run below library frames; socket calls of the harness are raw
static void run(const Prog &p) { for (auto &o : p) exec(o); }

#define CALL(...) int op = ++op_no; ev("C %d " __VA_ARGS__);
static void ret(int op, const char *fmt, ...) {
    char b[256]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    ev("R %d %s", op, b);
}
static void call(const Op &o) {
    const string &n = o.name;
    int e = -1;
    // ---- creating
    if (n == "pair") { // e = Connection over one end, raw peer on the other
        int sv[2];
        if (val(o, "kind", "unix") == "unix") {
            socketpair(AF_UNIX, SOCK_STREAM, 0, sv);
            sv[0] = sim::unique_fd(sv[0]); sv[1] = sim::unique_fd(sv[1]);
        } else {
            int l = raw_listen("pairl", "tcp", 4);
            sv[1] = sim::unique_fd(socket(AF_INET, SOCK_STREAM, 0));
            sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = loop_addr(); a.sin_port = htons(port_of(l));
            connect(sv[1], (sockaddr*)&a, sizeof a);
            sv[0] = sim::unique_fd(accept4(l, 0, 0, 0));
            close(l);
        }
        int sb = num(o, "sndbuf", 0);
        if (sb) { setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &sb, sizeof sb); setsockopt(sv[1], SOL_SOCKET, SO_RCVBUF, &sb, sizeof sb); }
        raws[o.a[1]] = sv[1];
        e = n_eps++;
        sim::adopt(sv[0], "sock");
        int op = ++op_no;
        ev("C %d ctor %d fd=%d", op, e, sv[0]);
        sim::set_tag(e);
        Connection *c; { Lib g; c = new Connection(sv[0]); }
        sim::set_tag(-1);
        eps[e] = {c, nullptr, false};
        ret(op, "1");
        return;
    }
    if (n == "acceptc") { // accept from the harness listener, as a Connection
        int l = raws[o.a[0]];
        if (!sim::wait_until([l]{ return sim::rawpoll(l, 1); }, (sim::now_ms() + 200000) * 1000000)) return;
        int fd = sim::unique_fd(accept4(l, 0, 0, 0));
        e = n_eps++;
        sim::adopt(fd, "sock");
        int op = ++op_no;
        ev("C %d ctor %d fd=%d", op, e, fd);
        sim::set_tag(e);
        Connection *c; { Lib g; c = new Connection(fd); }
        sim::set_tag(-1);
        eps[e] = {c, nullptr, false};
        ret(op, "1");
        return;
    }
    if (n == "client") {
        e = n_eps++;
        int op = ++op_no;
        ev("C %d client %d", op, e);
        Client *c; { Lib g; c = new Client(); }
        eps[e] = {c, c, false};
        ret(op, "1");
        return;
    }
    if (n == "server") { int k = atoi(o.a[0].c_str() + 1); int op = ++op_no; ev("C %d snew %d con=%ld dis=%ld", op, k, num(o, "con", 1), num(o, "dis", 1)); Server *s; { Lib g; s = new Server(); }
        srvs[k].s = s; srvs[k].con = progs["c" + std::to_string(k)]; srvs[k].dis = progs["d" + std::to_string(k)];
        { Lib g; if (num(o, "con", 1)) s->SetConnectedHandler(conn_handler); if (num(o, "dis", 1)) s->SetDisconnectedHandler(dis_handler); }
        ret(op, "1"); return; }
    if (n[0] == 's' && n.size() > 1 && (n == "sstart" || n == "sstop" || n == "swait" || n == "smax" || n == "sdel" || n == "sget" || n == "sgettype" || n == "sinfo")) {
        int k = atoi(o.a[0].c_str() + 1); Server *s = srvs[k].s;
        int op = ++op_no;
        if (n == "sstart") {
            string kind = val(o, "kind", "unix"), at = val(o, "at", "s0");
            bool r;
            string pth = path(at);
            string ip = val(o, "ip", loop_ip().c_str());
            int port = kind == "tcp" ? (raws.count(at) ? port_of(raws[at]) : any_port(at)) : 0;
            ev("C %d sstart %d kind=%s at=%s ip=%s exp=%s dof=%d", op, k, kind.c_str(), at.c_str(), ip.c_str(), val(o, "exp", "any").c_str(), (int)num(o, "dof", 1));
            { Lib g; r = kind == "unix" ? s->StartUnix(pth, num(o, "dof", 1)) : s->StartTcp(ip, port); }
            if (r) { srvs[k].ip = ip; srvs[k].port = port; srvs[k].path = pth; }
            ret(op, "%d", r);
        } else if (n == "sstop") { ev("C %d sstop %d n=%ld", op, k, num(o, "n", 0)); { Lib g; s->Stop(num(o, "n", 0)); } ret(op, "1"); }
        else if (n == "swait") { ev("C %d swait %d n=%ld", op, k, num(o, "n", -1)); { Lib g; s->WaitForStop(num(o, "n", -1)); } ret(op, "1"); }
        else if (n == "smax") { ev("C %d smax %d v=%ld", op, k, num(o, "v")); int32_t g2; { Lib g; s->SetMaxConnections(num(o, "v")); g2 = s->GetMaxConnections(); } ret(op, "%d", g2); }
        else if (n == "sgettype") { ev("C %d stype %d", op, k); int r; { Lib g; r = s->GetType(); } ret(op, "%d", r); }
        else if (n == "sinfo") { ev("C %d sinfo %d", op, k); int r; { Lib g; r = s->GetType() == SocketTypeUnix ? s->GetUnixPath() == srvs[k].path : s->GetType() == SocketTypeTcp ? s->GetTcpPort() == srvs[k].port && s->GetTcpIpString() == srvs[k].ip && s->GetTcpIp() == ntohl(inet_addr(srvs[k].ip.c_str())) : 1; } ret(op, "%d", r); }
        else if (n == "sdel") { ev("C %d sdel %d", op, k); { Lib g; delete s; } srvs[k].s = nullptr; ret(op, "1"); }
        else if (n == "sget") {
            string slot = slot_of(val(o, "r", "r0")); SafeConnection *sc;
            string t = val(o, "tag", "");
            ev("C %d sget %d id=%ld tag=%s", op, k, num(o, "id", 0), t.c_str());
            { Lib g; sc = t.size() ? s->GetConnection(t) : s->GetConnection((uint32_t)num(o, "id", 0)); }
            refs[slot] = sc;
            int re = -1;
            unsigned cid = 0;
            if (sc) { Connection *x = &(*sc)(); cid = x->id; re = ep_of(x); if (re < 0) re = add_ep(x, nullptr, true); ref_ep[slot] = re; }
            ret(op, "%d %d %u", sc != nullptr, re, cid);
        }
        return;
    }
    if (n == "rel") {
        string slot = slot_of(o.a[0]);
        auto i = refs.find(slot);
        if (i == refs.end() || !i->second) return;
        SafeConnection *sc = i->second; i->second = nullptr;
        int op = ++op_no; ev("C %d rel %d", op, ref_ep[slot]);
        { Lib g; delete sc; }
        ret(op, "1");
        return;
    }
    if (n == "scopy" || n == "sassign") { // a reference becomes a copy of another one
        string from = slot_of(o.a[0]), to = slot_of(val(o, "r", "r0"));
        if (!refs[from] || (n == "sassign") != (refs[to] != nullptr)) return;
        int op = ++op_no; ev("C %d %s %d %d", op, n.c_str(), ref_ep[from], n == "sassign" ? ref_ep[to] : -1);
        { Lib g; if (refs[to]) *refs[to] = *refs[from]; else refs[to] = new SafeConnection(*refs[from]); }
        ref_ep[to] = ref_ep[from];
        ret(op, "1 %d", ref_ep[from]);
        return;
    }
    // ---- on a connection
    Connection *c = target(o.a[0], e);
    if (!c) return;
    int op = ++op_no;
    if (n == "connect") {
        Client *cl = eps[e].cl;
        string kind = val(o, "kind", "unix"), at = val(o, "at", "l0");
        long to = num(o, "n", 30);
        ev("C %d connect %d kind=%s at=%s n=%ld exp=%s", op, e, kind.c_str(), at.c_str(), to, val(o, "exp", "any").c_str());
        bool r;
        int port = kind == "tcp" ? (raws.count(at) ? port_of(raws[at]) : any_port(at)) : 0;
        string pth = path(at);
        string ip = val(o, "ip", loop_ip().c_str());
        sim::set_tag(e);
        { Lib g; r = kind == "unix" ? cl->ConnectUnix(pth, to) : cl->ConnectTcp(ip, port, to); }
        sim::set_tag(-1);
        ret(op, "%d", r);
    } else if (n == "push") {
        int copy = num(o, "copy", 1), aut = num(o, "auto", 1), tmo = num(o, "n", 0), ovl = num(o, "ovl", 0);
        Request *r;
        if (copy || ovl) r = build(o); else { Lib g; r = build(o); }
        string s = ser(r);
        evs("C " + std::to_string(op) + " push " + std::to_string(e) + " auto=" + std::to_string(aut) + " n=" + std::to_string(tmo) + " id=" + std::to_string(r->GetId()) + " b=" + hex(s.data(), s.size()));
        Request *res;
        { Lib g; res = ovl ? c->Push(*r, tmo, aut) : c->Push(r, copy, tmo, aut); }
        if (res) { string t = ser(res); evs("R " + std::to_string(op) + " " + hex(t.data(), t.size())); delete res; } else ret(op, "0");
        if (copy || ovl) {
            if (ser(r) != s) ev("changed %d", e);
            r->SetName("changed"); r->SetId(999); r->Emplace<Value8U>("k", 1); r->Emplace<ValueStr>("p", string("q"));
            delete r;
        }
    } else if (n == "pull") {
        ev("C %d pull %d n=%ld", op, e, num(o, "n"));
        Request *r; { Lib g; r = c->Pull(num(o, "n")); }
        if (r) { string t = ser(r); evs("R " + std::to_string(op) + " " + hex(t.data(), t.size())); delete r; } else ret(op, "0");
    } else if (n == "disc") {
        ev("C %d disc %d f=%ld w=%ld", op, e, num(o, "f"), num(o, "w"));
        { Lib g; c->Disconnect(num(o, "f"), num(o, "w")); }
        ret(op, "1");
    } else if (n == "wait") {
        ev("C %d wait %d n=%ld", op, e, num(o, "n", -1));
        bool r; { Lib g; r = c->WaitForStop(num(o, "n", -1)); }
        ret(op, "%d", r);
    } else if (n == "obs") {
        int r;
        ev("C %d get %d k=conn", op, e); { Lib g; r = c->IsConnected(); } ret(op, "%d", r);
        op = ++op_no; ev("C %d get %d k=disc", op, e); { Lib g; r = c->IsDisconnecting(); } ret(op, "%d", r);
        op = ++op_no; ev("C %d get %d k=type", op, e); { Lib g; r = c->GetType() != SocketTypeUndefined; } ret(op, "%d", r);
        op = ++op_no; ev("C %d get %d k=stop", op, e); { r = sim::rawpoll(c->GetStoppedEvent(), 1); } ret(op, "%d", r);
        if (eps[e].cl) { op = ++op_no; ev("C %d get %d k=cing", op, e); { Lib g; r = eps[e].cl->IsConnecting(); } ret(op, "%d", r); }
    } else if (n == "get") {
        string k = val(o, "k"); int r = 0;
        ev("C %d get %d k=%s", op, e, k.c_str());
        { Lib g; r = k == "conn" ? c->IsConnected() : k == "disc" ? c->IsDisconnecting() : k == "type" ? c->GetType() != SocketTypeUndefined : (int)sim::rawpoll(c->GetStoppedEvent(), 1); }
        ret(op, "%d", r);
    } else if (n == "seth") {
        int h = num(o, "h");
        ev("C %d seth %d h=%d name=%s", op, e, h, val(o, "name", "61").c_str());
        { Lib g; c->SetHandlerNamed(unhex(val(o, "name", "61")), hs[h]); }
        ret(op, "1");
    } else if (n == "setdef") {
        int h = num(o, "h");
        ev("C %d setdef %d h=%d", op, e, h);
        { Lib g; c->SetHandlerDefault(hs[h]); }
        ret(op, "1");
    } else if (n == "setsa" || n == "setna" || n == "setmax" || n == "setsbs" || n == "setrbs") {
        long v = num(o, "v"), r = 0;
        ev("C %d set %d k=%s v=%ld", op, e, n.c_str() + 3, v);
        { Lib g;
          if (n == "setsa") { c->SetOurSaInterval(v); r = c->GetOurSaInterval(); }
          else if (n == "setna") { c->SetTheirNaIntervalLimit(v); r = c->GetTheirNaIntervalLimit(); }
          else if (n == "setmax") { c->SetMaxRequestSize(v); r = c->GetMaxRequestSize(); }
          else if (n == "setsbs") { c->SetSendBlockSize(v); r = c->GetSendBlockSize(); }
          else { c->SetRecvBlockSize(v); r = c->GetRecvBlockSize(); } }
        ret(op, "%ld", r);
    } else if (n == "cfg") { // what is configured now
        int h1 = 0, h2 = 0; string g1;
        { Lib g; auto a = c->GetHandlerDefault(), b = c->GetHandlerNamed(unhex(val(o, "name", "61")));
          for (int i = 1; i < 7; i++) { if (hs[i] == a) h1 = i; if (hs[i] == b) h2 = i; } 
          ev("C %d cfg %d name=%s", op, e, val(o, "name", "61").c_str());
          ret(op, "%d %d %ld %ld %u %u %u %s", h1, h2, (long)c->GetOurSaInterval(), (long)c->GetTheirNaIntervalLimit(), c->GetMaxRequestSize(), c->GetSendBlockSize(), c->GetRecvBlockSize(), c->tag.empty() ? "-" : c->tag.c_str()); }
    } else if (n == "tag") { string v = val(o, "v"); if (v == "id") v = std::to_string(c->id); ev("C %d tag %d v=%s", op, e, v.c_str()); { Lib g; c->tag = v; } ret(op, "1"); }
    else if (n == "inc") { ev("C %d inc %d", op, e); { Lib g; c->IncreaseRefs(); } ret(op, "1"); }
    else if (n == "dec") { ev("C %d dec %d", op, e); { Lib g; c->DecreaseRefs(); } ret(op, "1"); }
    else if (n == "del") {
        ev("C %d dtor %d", op, e);
        { Lib g; if (eps[e].cl) delete eps[e].cl; else delete c; }
        eps[e].c = nullptr; eps[e].cl = nullptr;
        ret(op, "1");
    } else { fprintf(stderr, "unknown operation %s\n", n.c_str()); _exit(90); }
}

// ---------------------------------------------------------------- hooks
static void h_quiet() {
    string s = "q";
    for (auto &f : sim::fds())
        if (f.open && f.kind == "sock") {
            char b[64];
            int v = 0; socklen_t l = sizeof v;
            getsockopt(f.fd, SOL_SOCKET, SO_ACCEPTCONN, &v, &l);
            snprintf(b, sizeof b, " %d:%d:%d:%d", f.fd, sim::rawpoll(f.fd, 4), sim::rawpoll(f.fd, 1), v);
            s += b;
        }
    evs(s);
}
static void h_send(int fd, const char *b, long n, int err) { if (n > 0) n_bytes += n; if (n < 0) { if (err != EAGAIN && err != EINTR) ev("snd %d -1 %d", fd, err); } else evs("snd " + std::to_string(fd) + " " + std::to_string(n) + " " + hex(b, n)); }
static void h_recv(int fd, const char *b, long n, int err) { if (n > 0) n_bytes += n; if (n < 0) { if (err != EAGAIN && err != EINTR) ev("rcv %d -1 %d", fd, err); } else evs("rcv " + std::to_string(fd) + " " + std::to_string(n) + " " + hex(b, n)); }
static void h_hup(int fd) { ev("hup %d", fd); }
static void h_close(int fd) {
    int un = 0; ioctl(fd, FIONREAD, &un);
    string k; for (auto &f : sim::fds()) if (f.fd == fd) k = f.kind;
    sockaddr_storage pa; socklen_t pl = sizeof pa;   // was it connected?
    ev("close %d %s %d %d", fd, k.c_str(), un, k == "sock" && getpeername(fd, (sockaddr*)&pa, &pl) == 0);
}
static void h_socket(int fd, int d) { ev("socket %d %d", fd, d == AF_UNIX); }
static void h_accept(int l, int fd) { ev("accept %d %d", l, fd); }
static void h_connect(int fd, bool ok) { ev("connect %d %d", fd, ok); }
static void h_listen(int fd) { ev("listen %d", fd); }
static void h_nofd(const char *what) { ev("nofd %s", what); }
static void h_badfd(const char *op, int fd) { ev("badfd %d %s", fd, op); }
static void h_badpath(const char *op, const char *p) { ev("badpath %s %s", op, p); }
static void h_free(void *p) {
    for (int i = 0; i < n_eps; i++) if (eps[i].c == p && eps[i].server) { ev("free %d", i); eps[i].c = nullptr; }
}
static void h_stuck(const char *w) { ev("stuck %s", w); _exit(0); }

static Op parse(const string &l) {
    std::istringstream in(l); Op o; string w; in >> o.name;
    while (in >> w) { auto p = w.find('='); if (p == string::npos) o.a.push_back(w); else o.k[w.substr(0, p)] = w.substr(p + 1); }
    return o;
}

static void child(const std::vector<string> &lines) {
    Op head = parse(lines[0]);
    sim::Cfg cfg;
    cfg.seed = num(head, "seed", 1); cfg.policy = num(head, "policy", 0); cfg.fine = num(head, "fine", 0); cfg.fine_gap = num(head, "gap", 200);
    cfg.eintr = num(head, "eintr", 0); cfg.shortio = num(head, "short", 0); cfg.pct_depth = num(head, "pctd", 3); cfg.pct_len = num(head, "pctl", 400); cfg.stall = num(head, "stall", 0);
    string cp = "main";
    for (size_t i = 1; i < lines.size(); i++) {
        if (lines[i].empty()) continue;
        if (lines[i][0] == '[') { cp = lines[i].substr(1, lines[i].find(']') - 1); progs[cp]; continue; }
        progs[cp].push_back(parse(lines[i]));
    }
    char tmpl[] = "/tmp/vfs.XXXXXX"; scratch = mkdtemp(tmpl); sim::scratch = scratch + "/";
    evs("scratch " + scratch);
    auto &h = sim::hooks;
    h.on_send = h_send; h.on_recv = h_recv; h.on_hup = h_hup; h.on_close = h_close; h.on_socket = h_socket; h.on_accept = h_accept; h.on_connect = h_connect;
    h.on_badfd = h_badfd; h.on_badpath = h_badpath; h.on_free = h_free; h.on_stuck = h_stuck; h.on_quiet = h_quiet; h.on_listen = h_listen; h.on_nofd = h_nofd;
    sim::begin(cfg);
    run(progs["main"]);
    // everything the scenario left is taken down by its own last operations; what is left now is a leak
    sim::settle();
    string f = "end";
    for (auto &x : sim::fds()) if (x.open) f += " " + std::to_string(x.fd) + ":" + x.kind;
    evs(f + " mem " + std::to_string(sim::lib_live()) + " " + sim::lib_live_desc());
    _exit(0);
}

int main(int argc, char **argv) {
    g_log = (char*)mmap(0, LOGSZ + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_off = (std::atomic<size_t>*)(g_log + LOGSZ);
    setvbuf(stdout, nullptr, _IOFBF, 1 << 20);
    signal(SIGPIPE, SIG_DFL);
    std::ifstream in(argv[1]);
    std::vector<std::vector<string>> sc; string l;
    while (std::getline(in, l)) { if (l.compare(0, 9, "scenario ") == 0) sc.emplace_back(); if (!sc.empty()) sc.back().push_back(l); }
    for (auto &s : sc) {
        *g_off = 0;
        fflush(stdout);
        string ef = string(argv[1]) + ".err";
        pid_t p = fork();
        if (!p) {
            int e = open(ef.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600); dup2(e, 2); dup2(e, 1); close(e);
            alarm(60);
            child(s);
        }
        int st = 0; waitpid(p, &st, 0);
        std::istringstream hd(s[0]); string w, name; hd >> w >> name;
        printf("=== %s\n", name.c_str());
        fwrite(g_log, 1, *g_off, stdout);
        // remove the scratch directory of the child
        string lg(g_log, std::min<size_t>(*g_off, 200)); auto q = lg.find("scratch /tmp/vfs.");
        if (q != string::npos) {
            string d = lg.substr(q + 8, lg.find('\n', q) - q - 8);
            string cmd = "rm -rf -- '" + d + "'"; if (d.find('\'') == string::npos && d.size() > 12) system(cmd.c_str());
        }
        if (st) {
            std::ifstream e(ef); string all((std::istreambuf_iterator<char>(e)), std::istreambuf_iterator<char>());
            for (auto &c : all) if (c == '\n') c = '~';
            printf("0 -1 -1 crash %d %s\n", st, all.substr(0, 3000).c_str());
        }
        printf("=== end\n");
    }
    return 0;
}
