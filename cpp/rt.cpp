#include "rt.hpp"
#include <cmath>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

#ifdef RT_THREADS       // the runs of a program overlap
constexpr bool RT_TOGETHER = true;
constexpr int RT_ALARM = 240;
#else
constexpr bool RT_TOGETHER = false;
constexpr int RT_ALARM = 60;
#endif

// ---------------------------------------------------------------- heap guards
#ifndef RT_SAN
extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __wrap_malloc(size_t);
void __wrap_free(void*);
void* __wrap_calloc(size_t, size_t);
void* __wrap_realloc(void*, size_t);
}
namespace {
constexpr size_t G = 64;                        // guard bytes on either side
constexpr unsigned char GB = 0xA5, FB = 0xDD;
constexpr uint64_t POISON = 0x7ff8dead5eedbeefull;
struct Hdr { Hdr* next; Hdr* prev; size_t n; uint64_t magic; bool freed; };
constexpr uint64_t MAGIC = 0xfa57ad00c0ffee11ull;
Hdr* head = nullptr;
bool on = false;
constexpr size_t HS = (sizeof(Hdr) + 63) / 64 * 64;
unsigned char* user(Hdr* h) { return reinterpret_cast<unsigned char*>(h) + HS + G; }
}
extern "C" void* __wrap_malloc(size_t n)
{
    if (!on) return __real_malloc(n);
    size_t tot = HS + G + n + G;
    auto* h = static_cast<Hdr*>(__real_malloc(tot));
    h->n = n; h->magic = MAGIC; h->freed = false;
    h->prev = nullptr; h->next = head; if (head) head->prev = h; head = h;
    memset(reinterpret_cast<unsigned char*>(h) + HS, GB, G);
    unsigned char* u = user(h);
    size_t k = 0;
    for (; k + 8 <= n; k += 8) memcpy(u + k, &POISON, 8);
    for (; k < n; ++k) u[k] = FB;
    memset(u + n, GB, G);
    return u;
}
extern "C" void __wrap_free(void* p)
{
    if (!p) return;
    // ours?
    for (Hdr* h = head; h; h = h->next) if (user(h) == p) {
        if (h->freed) { fprintf(stderr, "double free\n"); abort(); }
        h->freed = true;                        // quarantined until the run ends
        memset(p, FB, h->n);
        return;
    }
    __real_free(p);
}
extern "C" void* __wrap_calloc(size_t a, size_t b)
{
    void* p = __wrap_malloc(a * b);
    memset(p, 0, a * b);
    return p;
}
extern "C" void* __wrap_realloc(void* p, size_t n)
{
    void* q = __wrap_malloc(n);
    if (p) {
        size_t m = n;
        for (Hdr* h = head; h; h = h->next) if (user(h) == p) m = std::min(n, h->n);
        memcpy(q, p, m);
        __wrap_free(p);
    }
    return q;
}
// everything that uses new goes through the guarded heap as well
void* operator new(size_t n) { return __wrap_malloc(n); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
namespace rt {
void heap_start() { on = true; }
void heap_stop() { on = false; }
const char* heap_check()
{
    for (Hdr* h = head; h; h = h->next) {
        auto* b = reinterpret_cast<unsigned char*>(h) + HS;
        auto* u = user(h);
        for (size_t k = 0; k < G; ++k) if (b[k] != GB || u[h->n + k] != GB) return "heap block overrun";
        if (h->freed) for (size_t k = 0; k < h->n; ++k) if (u[k] != FB) return "write to freed memory";
    }
    return nullptr;
}

#else   // a sanitizer watches the heap
namespace rt {
void heap_start() {}
void heap_stop() {}
const char* heap_check() { return nullptr; }
#endif

// ------------------------------------------------------------------- guarded
static constexpr uint64_t CAN = 0x7ff4c0dec0dec0deull;
void Guarded::make(size_t n_, double fill, size_t shift)
{
    n = n_; off = 16 + shift;
    raw.assign(n + off + 16, CAN);
    for (size_t k = 0; k < n; ++k) memcpy(&raw[off + k], &fill, 8);
}
bool Guarded::intact() const
{
    for (size_t k = 0; k < raw.size(); ++k)
        if ((k < off || k >= off + n) && raw[k] != CAN) return false;
    return true;
}

void Session::watch(const void* p, size_t n)
{
    Watch w{p, n, {}};
    w.copy.assign(static_cast<const char*>(p), static_cast<const char*>(p) + n);
    watches.push_back(std::move(w));
}

double sd(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
double from_hex(const char* s) { return sd(strtoull(s, nullptr, 16)); }
VecXd vecd(std::initializer_list<uint64_t> bits)
{
    VecXd v(bits.size()); size_t k = 0;
    for (auto b : bits) v(k++) = sd(b);
    return v;
}
MatXd matd(int r, int c, std::initializer_list<uint64_t> bits)
{
    MatXd m(r, c); size_t k = 0;
    for (auto b : bits) { m(k % r, k / r) = sd(b); ++k; }
    return m;
}

static void num(FILE* f, double d, bool sign = false)
{
    if (d == 0 && !sign) d = 0;                  // results: log no sign of zero
    uint64_t b; memcpy(&b, &d, 8);
    if (std::isnan(d)) b = 0x7ff8000000000000ull;
    fprintf(f, "[%d,%d]", (int32_t)(b >> 32), (int32_t)(b & 0xffffffffu));
}
static void nums(FILE* f, const Nums& x, bool sign = false)
{
    fputc('[', f);
    for (size_t k = 0; k < x.size(); ++k) { if (k) fputc(',', f); num(f, x[k], sign); }
    fputc(']', f);
}

Session::State Session::state()
{
    State s;
    for (auto& l : leaves) {
        Nums v, a;
        for (size_t k = 0; k < l->n(); ++k) v.push_back(l->val(k));
        if (l->has_adj()) for (size_t k = 0; k < l->n(); ++k) a.push_back(l->adj(k));
        s.emplace_back(v, a);
    }
    return s;
}
std::string Session::step(const Cmd& c, Nums& ret)
{
    if (c.op == "set") leaves[c.i - 1]->set(c.x);
    else if (c.op == "seta") leaves[c.i - 1]->seta(c.x);
    else if (c.op == "rst") {
        for (size_t i = 0; i < leaves.size(); ++i)
            if (c.i == 0 || c.i == (int)i + 1) leaves[i]->rst();
    } else if (const char* s = exprs[c.e - 1]->act(c, ret)) return s;
    return "";
}
std::string Session::intact()
{
    std::string note;
    if (const char* s = heap_check()) note = s;
    heap_stop();
    for (auto& l : leaves) if (!l->intact()) note = "memory around a viewed variable changed";
    for (auto& e : exprs) if (!e->intact()) note = "memory around the bound cache changed";
    for (auto& w : watches) if (memcmp(w.p, w.copy.data(), w.n)) note = "constant data changed";
    return note;
}
void Session::log(const Cmd& c, const Nums& ret, const State& st, const std::string& note, FILE* f)
{
    fprintf(f, "{\"op\":\"%s\",\"e\":%d,\"q\":%d,\"q2\":%d,\"i\":%d,\"tmp\":%s,\"x\":", c.op.c_str(), c.e, c.q, c.q2, c.i, c.tmp ? "true" : "false");
    nums(f, c.x, true);
    fputs(",\"ret\":", f); nums(f, ret);
    for (int a = 0; a < 2; ++a) {
        fputs(a ? ",\"adj\":[" : ",\"val\":[", f);
        for (size_t i = 0; i < st.size(); ++i) {
            if (i) fputc(',', f);
            nums(f, a ? st[i].second : st[i].first, !a);
        }
        fputc(']', f);
    }
    fprintf(f, ",\"ok\":%s,\"note\":\"%s\"}\n", note.empty() ? "true" : "false", note.c_str());
    fflush(f);
}

void Session::go(const Run& r, FILE* f)
{
    for (size_t k = 0; k < r.cmds.size(); ) {
        auto& c = r.cmds[k];
        size_t n = c.par > 1 ? c.par : 1;
        std::vector<Nums> ret(n);
        std::vector<std::string> note(n);
        State s;
        if (n == 1) {
            heap_start();
            note[0] = step(c, ret[0]);
            auto m = intact(); if (!m.empty()) note[0] = m;
        } else {
            // overlapping commands are independent: they are recorded one after the
            // other, each with the changes to the leaves it may change
            s = state();
            std::vector<std::thread> ts;
            for (size_t j = 0; j < n; ++j)
                ts.emplace_back([&, j] { note[j] = step(r.cmds[k + j], ret[j]); });
            for (auto& t : ts) t.join();
            auto m = intact(); if (!m.empty()) note[n - 1] = m;
        }
        State end = state();
        for (size_t j = 0; j + 1 < n; ++j) {
            for (int i : r.cmds[k + j].w) s[i - 1] = end[i - 1];
            log(r.cmds[k + j], ret[j], s, note[j], f);
        }
        log(r.cmds[k + n - 1], ret[n - 1], end, note[n - 1], f);
        k += n;
    }
}

// Runs of one program, each with leaves and expressions of its own: in one process,
// in parallel threads if so built, else one after the other in processes of their own.
static void execute(Prog p, const std::string& id, const std::string& dir, const std::vector<std::pair<std::string, Run>>& runs)
{
    pid_t pid = fork();
    std::string base = dir + "/" + id + ".";
    if (pid == 0) {
        alarm(RT_ALARM);
        freopen((base + runs[0].first + ".err").c_str(), "w", stderr);
        std::vector<FILE*> fs;
        for (auto& r : runs) fs.push_back(fopen((base + r.first + ".log").c_str(), "w"));
        std::vector<std::thread> ts;
        for (size_t j = 1; j < runs.size(); ++j) ts.emplace_back([&, j] { p(runs[j].second, fs[j]); });
        p(runs[0].second, fs[0]);
        for (auto& t : ts) t.join();
        for (auto f : fs) fclose(f);
        _exit(0);
    }
    int st; waitpid(pid, &st, 0);
    for (auto& r : runs) std::ofstream(base + r.first + ".rc") << (WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st)) << "\n";
}

// Script file:  P <prog> <run> / C op e q q2 i rv tmp par nw w1..wnw n x1..xn / E
int main_(int argc, char** argv, const std::vector<std::pair<const char*, Prog>>& progs)
{
    std::map<std::string, Prog> by;
    for (auto& p : progs) by[p.first] = p.second;
    std::ifstream in(argv[1]);
    std::string dir = argv[2], line, id, rn;
    Run r;
    std::vector<std::pair<std::string, Run>> runs;
    std::string last;
    auto flush = [&] { if (!runs.empty() && by.count(last)) execute(by[last], last, dir, runs); runs.clear(); };
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string t; is >> t;
        if (t == "P") { is >> id >> rn; r = Run(); }
        else if (t == "C") {
            Cmd c; size_t n, nw;
            is >> c.op >> c.e >> c.q >> c.q2 >> c.i >> c.rv >> c.tmp >> c.par >> nw;
            c.w.resize(nw);
            for (auto& i : c.w) is >> i;
            is >> n;
            for (size_t k = 0; k < n; ++k) { std::string h; is >> h; c.x.push_back(from_hex(h.c_str())); }
            r.cmds.push_back(c);
        } else if (t == "E") {
            if (!RT_TOGETHER || id != last) flush();
            last = id;
            runs.emplace_back(rn, r);
        }
    }
    flush();
    return 0;
}
} // namespace rt
