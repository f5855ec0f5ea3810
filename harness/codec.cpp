// Executes codec and container commands (one per line on stdin) with the code under test and prints what it did.
//   D <hex>            decode a request: "used <n>" or "used <n> R <request>"; also checks reuse of a used object
//   T <hex> / V <hex>  the same for a datum / a value
//   E <request>        build through the public API, serialize: "E <hex> <GetSize> <used by decoding it> R <request decoded>"
// request := <id 8 hex> <name> <nargs> {<name> <value>}     (names and texts in hex, '-' when empty)
// value   := i<type> <le hex> | s <hex> | u <hex> | a <n> value*
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "Request.hpp"
#include "Datum.hpp"
#include "values/All.hpp"
#include "values/CreateValue.hpp"
using namespace DowowNetwork;
using std::string;

static string hex(const string &s) {
    if (s.empty()) return "-";
    string r; char b[3];
    for (unsigned char c : s) { snprintf(b, 3, "%02x", c); r += b; }
    return r;
}
static string unhex(const string &h) {
    string r;
    if (h == "-") return r;
    for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16);
    return r;
}
static string le(uint64_t v, int n) { string s; for (int i = 0; i < n; i++) s += (char)(v >> (8 * i)); return s; }
static uint64_t num(const string &b) { uint64_t v = 0; for (size_t i = b.size(); i--;) v = v << 8 | (unsigned char)b[i]; return v; }
static const int isize[9] = {0, 8, 8, 4, 4, 2, 2, 1, 1};

static string show(Value *v) {
    if (!v) return "null";
    int t = v->GetType();
    string o;
    switch (t) {
    case 1: return "i1 " + hex(le((uint64_t)dynamic_cast<Value64S*>(v)->Get(), 8));
    case 2: return "i2 " + hex(le(dynamic_cast<Value64U*>(v)->Get(), 8));
    case 3: return "i3 " + hex(le((uint64_t)(int64_t)dynamic_cast<Value32S*>(v)->Get(), 4));
    case 4: return "i4 " + hex(le(dynamic_cast<Value32U*>(v)->Get(), 4));
    case 5: return "i5 " + hex(le((uint64_t)(int64_t)dynamic_cast<Value16S*>(v)->Get(), 2));
    case 6: return "i6 " + hex(le(dynamic_cast<Value16U*>(v)->Get(), 2));
    case 7: return "i7 " + hex(le(dynamic_cast<Value8U*>(v)->Get(), 1));
    case 8: return "i8 " + hex(le((uint64_t)(int64_t)dynamic_cast<Value8S*>(v)->Get(), 1));
    case 9: return "s " + hex(dynamic_cast<ValueStr*>(v)->Get());
    case 10: {
        auto *a = dynamic_cast<ValueArr*>(v);
        o = "a " + std::to_string(a->GetCount());
        for (uint32_t i = 0; i < a->GetCount(); i++) o += " " + show(a->Get(i));
        return o;
    }
    case 0: { // raw data is only visible in the encoding
        const char *s = v->Serialize();
        string c(s + 5, v->GetSize() - 5);
        delete[] s;
        return "u " + hex(c);
    }
    }
    return "type" + std::to_string(t);
}
static string show(const Request &r) {
    string o = hex(le(r.GetId(), 4)) + " " + hex(r.GetName()) + " " + std::to_string(r.GetArguments().size());
    for (auto *d : r.GetArguments()) o += " " + hex(d->GetName()) + " " + show(d->GetValue());
    return o;
}
static std::unique_ptr<Value> parse_value(std::istream &in) {
    string k, h; in >> k;
    if (k == "a") {
        int n; in >> n;
        auto *a = new ValueArr();
        for (int i = 0; i < n; i++) { auto e = parse_value(in); a->Push(e.get()); }
        return std::unique_ptr<Value>(a);
    }
    in >> h;
    string b = unhex(h);
    if (k == "s") return std::unique_ptr<Value>(new ValueStr(b));
    if (k == "u") {
        auto *u = new ValueUndefined();
        string e = string(1, '\0') + le(b.size(), 4) + b;
        u->Deserialize(e.data(), e.size());
        return std::unique_ptr<Value>(u);
    }
    uint64_t v = num(b);
    switch (k[1] - '0') {
    case 1: return std::unique_ptr<Value>(new Value64S((int64_t)v));
    case 2: return std::unique_ptr<Value>(new Value64U(v));
    case 3: return std::unique_ptr<Value>(new Value32S((int32_t)v));
    case 4: return std::unique_ptr<Value>(new Value32U((uint32_t)v));
    case 5: return std::unique_ptr<Value>(new Value16S((int16_t)v));
    case 6: return std::unique_ptr<Value>(new Value16U((uint16_t)v));
    case 7: return std::unique_ptr<Value>(new Value8U((uint8_t)v));
    default: return std::unique_ptr<Value>(new Value8S((int8_t)v));
    }
}
// the request in a buffer of exactly its size, so that any access outside is seen
struct Exact {
    char *p; uint32_t n;
    explicit Exact(const string &s) : p((char*)malloc(s.size())), n(s.size()) { memcpy(p, s.data(), n); }
    ~Exact() { free(p); }
};
static string round(const char *s, uint32_t n) { string r(s, n); delete[] s; return hex(r); }

static void cmd_D(const string &h) {
    string b = unhex(h);
    Request r, dirty("old");
    dirty.Emplace<Value32S>("x", 7); dirty.Emplace<ValueStr>("a", string("old")); dirty.SetId(77);
    uint32_t u, u2;
    { Exact e(b); u = r.Deserialize(e.p, e.n); if (string(e.p, e.n) != b) { puts("MODIFIED"); return; } }
    { Exact e(b); u2 = dirty.Deserialize(e.p, e.n); }
    if (u != u2) { printf("REUSE %u %u\n", u, u2); return; }
    if (!u) { puts("used 0"); return; }
    if (show(r) != show(dirty)) { printf("REUSE %s\n", show(dirty).c_str()); return; }
    printf("used %u R %s E %s %u\n", u, show(r).c_str(), round(r.Serialize(), r.GetSize()).c_str(), r.GetSize());
}
static void cmd_T(const string &h) {
    string b = unhex(h);
    Datum d, dirty; dirty.SetName("old"); ValueStr s("zz"); dirty.SetValue(&s);
    Exact e(b);
    uint32_t u = d.Deserialize(e.p, e.n), u2 = dirty.Deserialize(e.p, e.n);
    if (u != u2) { printf("REUSE %u %u\n", u, u2); return; }
    if (!u) { puts("used 0"); return; }
    if (show(d.GetValue()) != show(dirty.GetValue()) || d.GetName() != dirty.GetName()) { puts("REUSE"); return; }
    if (d.GetType() != d.GetValue()->GetType()) { puts("TYPE"); return; }
    char *ser = d.Serialize();
    printf("used %u R %s %s E %s %u\n", u, hex(d.GetName()).c_str(), show(d.GetValue()).c_str(), round(ser, d.GetSize()).c_str(), d.GetSize());
}
static void cmd_V(const string &h) {
    string b = unhex(h);
    uint8_t t = b.empty() ? 0 : (uint8_t)b[0];
    std::unique_ptr<Value> v(CreateValue(t)), dirty(CreateValue(t));
    // something old inside
    if (auto *a = dynamic_cast<ValueArr*>(dirty.get())) { a->New(3); ValueStr s("q"); a->Set(1, &s); }
    if (auto *a = dynamic_cast<ValueStr*>(dirty.get())) a->Set("older");
    if (dynamic_cast<ValueUndefined*>(dirty.get())) { char raw[] = {0, 2, 0, 0, 0, 5, 6}; dirty->Deserialize(raw, 7); }
    Exact e(b);
    uint32_t u = v->Deserialize(e.p, e.n), u2 = dirty->Deserialize(e.p, e.n);
    if (u != u2) { printf("REUSE %u %u\n", u, u2); return; }
    // a rejected value must still be usable
    string after = show(v.get()), after2 = show(dirty.get());
    if (!u) { puts("used 0"); return; }
    if (after != after2) { puts("REUSE"); return; }
    printf("used %u R %s E %s %u\n", u, after.c_str(), round(v->Serialize(), v->GetSize()).c_str(), v->GetSize());
}
static void cmd_E(std::istream &in) {
    string id, name; int n; in >> id >> name >> n;
    std::vector<std::pair<string, std::unique_ptr<Value>>> a;
    for (int i = 0; i < n; i++) { string k; in >> k; auto v = parse_value(in); a.emplace_back(unhex(k), std::move(v)); }
    Request r(unhex(name));
    r.SetId((uint32_t)num(unhex(id)));
    for (auto &x : a) r.Set(x.first, x.second.get());
    uint32_t sz = r.GetSize();
    string enc; { const char *s = r.Serialize(); enc = string(s, sz); delete[] s; }
    Request d;
    Exact e(enc);
    uint32_t u = d.Deserialize(e.p, e.n);
    printf("E %s %u %u R %s R %s\n", hex(enc).c_str(), sz, u, show(d).c_str(), show(r).c_str());
}
// container sessions: "O" starts one, "o <op> <k> ..." is one operation; prints "<ret> | r1 | r2 | a1 | a2"
static std::unique_ptr<Request> R[3];
static std::unique_ptr<ValueArr> A[3];
static void assign(Value *p, Value *v) { // change a value in place
    if (auto *a = dynamic_cast<ValueArr*>(p)) { a->Push(v); return; }
    if (p->GetType() != v->GetType()) return;
#define AS(T) if (auto *x = dynamic_cast<T*>(p)) { x->Set(dynamic_cast<T*>(v)->Get()); return; }
    AS(Value64S) AS(Value64U) AS(Value32S) AS(Value32U) AS(Value16S) AS(Value16U) AS(Value8S) AS(Value8U)
    if (auto *x = dynamic_cast<ValueStr*>(p)) { string s = dynamic_cast<ValueStr*>(v)->Get(); x->Set(s.data(), s.size()); return; }
    p->CopyFrom(v);
}
static string typed(Request &r, const string &n, int t) {
    Value *p = nullptr;
    switch (t) {
    case 0: p = r.Get<ValueUndefined>(n); break; case 1: p = r.Get<Value64S>(n); break; case 2: p = r.Get<Value64U>(n); break;
    case 3: p = r.Get<Value32S>(n); break; case 4: p = r.Get<Value32U>(n); break; case 5: p = r.Get<Value16S>(n); break;
    case 6: p = r.Get<Value16U>(n); break; case 7: p = r.Get<Value8U>(n); break; case 8: p = r.Get<Value8S>(n); break;
    case 9: p = r.Get<ValueStr>(n); break; case 10: p = r.Get<ValueArr>(n); break;
    }
    return p ? "val " + show(p) : "null";
}
static void cmd_o(std::istream &in) {
    string o, h, ret = "none"; int k, i, j; in >> o >> k;
    auto name = [&]{ string x; in >> x; return unhex(x); };
    auto val = [](Value *p) { return p ? "val " + show(p) : string("null"); };
    auto boolean = [](bool b) { return string(b ? "true" : "false"); };
    Request &r = *R[k]; ValueArr &a = *A[k];
    if (o == "name") r.SetName(name());
    else if (o == "id") { r.SetId((uint32_t)num(name())); }
    else if (o == "set") { string n = name(); auto v = parse_value(in); r.Set(n, v.get()); assign(v.get(), v.get()); }
    else if (o == "setref") { string n = name(); auto v = parse_value(in); r.Set(n, *v); }
    else if (o == "steal") { string n = name(); auto v = parse_value(in); r.Set(n, v.release(), false); }
    else if (o == "emplace") {
        string n = name(); auto v = parse_value(in);
        if (auto *x = dynamic_cast<Value32S*>(v.get())) r.Emplace<Value32S>(n, x->Get());
        else if (auto *x = dynamic_cast<ValueStr*>(v.get())) r.Emplace<ValueStr>(n, x->Get());
        else if (auto *x = dynamic_cast<Value8U*>(v.get())) r.Emplace<Value8U>(n, x->Get());
        else if (auto *x = dynamic_cast<Value64S*>(v.get())) r.Emplace<Value64S>(n, x->Get());
        else r.Set(n, v.get());
    }
    else if (o == "setarr") { string n = name(); in >> j; r.Set(n, A[j].get()); }
    else if (o == "del") r.Set(name(), nullptr);
    else if (o == "get") ret = val(r.Get(name()));
    else if (o == "gett") { string n = name(); in >> i; ret = typed(r, n, i); }
    else if (o == "self") { string n = name(); Value *p = r.Get(n); if (p) r.Set(n, p); }
    else if (o == "inner") { string n = name(); in >> i; auto *p = r.Get<ValueArr>(n); if (p && p->Get(i)) r.Set(n, p->Get(i)); }
    else if (o == "mut") { string n = name(); auto v = parse_value(in); Value *p = r.Get(n); if (p) assign(p, v.get()); }
    else if (o == "copy") { in >> j; r.CopyFrom(R[j].get()); }
    else if (o == "newr") R[k].reset(new Request());
    else if (o == "dec") { Exact e(name()); r.Deserialize(e.p, e.n); }
    else if (o == "apush") { auto v = parse_value(in); a.Push(v.get()); }
    else if (o == "apusha") { in >> j; a.Push(A[j].get()); }
    else if (o == "aset") { in >> i; auto v = parse_value(in); ret = boolean(a.Set(i, v.get())); }
    else if (o == "aseta") { in >> i >> j; ret = boolean(a.Set(i, A[j].get())); }
    else if (o == "asetnull") { in >> i; ret = boolean(a.Set(i, nullptr)); }
    else if (o == "asetown") { in >> i >> j; ret = boolean(a.Set(i, a.Get(j))); }
    else if (o == "ainner") { in >> i; auto *p = dynamic_cast<ValueArr*>(a.Get(i)); if (p && p->Get(0)) a.Set(i, p->Get(0)); }
    else if (o == "aget") { in >> i; ret = val(a.Get(i)); }
    else if (o == "anew") { in >> i; a.New(i); }
    else if (o == "aclear") a.Clear();
    else if (o == "acopy") { in >> j; a.CopyFrom(A[j].get()); }
    else if (o == "aup") { in >> i; auto *p = dynamic_cast<ValueArr*>(a.Get(i)); if (p) a.CopyFrom(p); }
    else if (o == "adown") { in >> i; auto *p = dynamic_cast<ValueArr*>(a.Get(i)); if (p) p->CopyFrom(&a); }
    else if (o == "amut") { in >> i; auto v = parse_value(in); if (a.Get(i)) assign(a.Get(i), v.get()); }
    else if (o == "avcopy") { in >> i >> j; Value *p = a.Get(i), *q = a.Get(j); if (p && q && p->GetType() == q->GetType()) p->CopyFrom(q); }
    else ret = "UNKNOWN";
    // the list of arguments and the getter must agree
    for (int q = 1; q <= 2; q++) for (auto *d : R[q]->GetArguments()) if (!R[q]->Get(d->GetName())) ret = "LOST";
    printf("%s | %s | %s | %s | %s\n", ret.c_str(), show(*R[1]).c_str(), show(*R[2]).c_str(), show(A[1].get()).c_str(), show(A[2].get()).c_str());
}
static void cmd_O() {
    for (int q = 1; q <= 2; q++) { R[q].reset(); A[q].reset(); }
}
// number of live allocations, to see what a command left behind
static long live = 0;
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
int main(int argc, char **argv) {
    string line;
    __sanitizer_install_malloc_and_free_hooks([](const volatile void *p, size_t) { if (p) live++; }, [](const volatile void *p) { if (p) live--; });
    bool leaks = argc > 1;
    long base = -1;
    setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
    long k = 0;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        string c, h; in >> c;
        printf("@%ld ", k++);
        fflush(stdout);
        if (c == "O") {
            cmd_O();
            if (base >= 0 && live != base && leaks) printf("LEAK %ld\n", live - base); else puts("ok");
            base = live;
            for (int q = 1; q <= 2; q++) { R[q].reset(new Request()); A[q].reset(new ValueArr()); }
            continue;
        }
        if (c == "o") { cmd_o(in); continue; }
        long before = live;
        if (c == "D") { in >> h; cmd_D(h); }
        else if (c == "T") { in >> h; cmd_T(h); }
        else if (c == "V") { in >> h; cmd_V(h); }
        else if (c == "E") cmd_E(in);
        h.clear(); h.shrink_to_fit();
        if (leaks && k > 20 && live > before + 2) printf("LEAK %ld\n", live - before);
        fflush(stdout);
    }
    return 0;
}
