// Interpreter of VarLife histories on real ad::Var / ad::VarView objects.
//   vl <file of histories> <output directory> ; one process per history.
// Contains no expected results: it executes and logs what can be read.
#include <fastad>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <variant>
#include <vector>

#ifndef VAL
#define VAL double
#endif
using T = VAL;
using namespace ad;
using VS = Var<T, scl>; using VV = Var<T, vec>; using VM = Var<T, mat>;
using WS = VarView<T, scl>; using WV = VarView<T, vec>; using WM = VarView<T, mat>;

struct Cmd { std::string op, sh; int q, q2, q3, how, n, r, c; std::vector<int> x; };
constexpr int NS = 6, NE = 2, EL = 12, PAD = 8;
static const T CAN = T(-77777);

template <class X> using P = std::unique_ptr<X>;
using Slot = std::variant<std::monostate, P<VS>, P<VV>, P<VM>, P<WS>, P<WV>, P<WM>>;
static Slot sl[NS + 1];
static std::vector<char> state(NS + 1, 'n');      // n none, u usable, x only destroy/assign
static std::vector<std::pair<int, int>> where(NS + 1, {0, 0});
static std::vector<T> ev[NE + 1], ea[NE + 1];
static T* eval_(int j) { return ev[j].data() + PAD; }
static T* eadj_(int j) { return ea[j].data() + PAD; }

template <class X> struct is_p : std::false_type {};
template <class X> struct is_p<P<X>> : std::true_type {};
template <class X> constexpr bool owning = std::is_same_v<X, VS> || std::is_same_v<X, VV> || std::is_same_v<X, VM>;
template <class F> static void with(int q, F&& f)
{
    std::visit([&](auto& p) { if constexpr (is_p<std::decay_t<decltype(p)>>::value) f(*p); }, sl[q]);
}
template <class X> static constexpr bool is_s = std::is_same_v<typename X::shape_t, scl>;
template <class X> static constexpr bool is_v = std::is_same_v<typename X::shape_t, vec>;

static int asint(T d) { return (d == std::floor(d) && std::fabs(d) < 1e8) ? (int)d : 999999999; }
static std::string note;

// write the cells of an object through one of its accessors
template <class X> static void write(X& o, const Cmd& c, bool adj)
{
    size_t R = o.rows();
    auto& g = adj ? o.get_adj() : o.get();
    for (size_t k = 0; k < c.x.size(); ++k) {
        T z = c.x[k];
        size_t i = k % R, j = k / R;
        switch (c.how) {
        case 0: if (adj) o.get_adj(i, j) = z; else o.get(i, j) = z; break;
        case 1: (adj ? o.data_adj() : o.data())[k] = z; break;
        default:
            if constexpr (is_s<X>) g = z; else g(i, j) = z;
        }
    }
    if constexpr (!is_s<X>) if (c.how == 3) {           // whole-object assignment
        Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> m(o.rows(), o.cols());
        for (size_t k = 0; k < c.x.size(); ++k) m(k % R, k / R) = c.x[k];
        g = m;
    }
}
template <class X> static void look(FILE* f, X& o)
{
    const X& k = o;
    const char* sh = is_s<X> ? "s" : is_v<X> ? "v" : "m";
    if (k.size() != k.rows() * k.cols()) note = "size is not rows*cols";
    fprintf(f, "{\"sh\":\"%s\",\"r\":%d,\"c\":%d,\"val\":[", sh, (int)k.rows(), (int)k.cols());
    for (int pass = 0; pass < 2; ++pass) {
        if (pass) fputs("],\"adj\":[", f);
        for (size_t j = 0, e = 0; j < k.cols(); ++j)
            for (size_t i = 0; i < k.rows(); ++i, ++e) {
                T a = pass ? k.get_adj(i, j) : k.get(i, j);
                T b = (pass ? k.data_adj() : k.data())[e];
                T d;
                if constexpr (is_s<X>) d = pass ? k.get_adj() : k.get(); else d = pass ? k.get_adj()(i, j) : k.get()(i, j);
                if (!(a == b && a == d)) note = "accessors disagree";
                fprintf(f, "%s%d", e ? "," : "", asint(a));
            }
    }
    fputs("]}", f);
}
static void state_line(FILE* f, const Cmd& c, const std::vector<T>& ret)
{
    fprintf(f, "{\"cmd\":{\"op\":\"%s\",\"q\":%d,\"q2\":%d,\"q3\":%d,\"how\":%d,\"n\":%d,\"r\":%d,\"c\":%d,\"sh\":\"%s\",\"x\":[", c.op.c_str(), c.q, c.q2, c.q3, c.how, c.n, c.r, c.c, c.sh.c_str());
    for (size_t k = 0; k < c.x.size(); ++k) fprintf(f, "%s%d", k ? "," : "", c.x[k]);
    fputs("]},\"ret\":[", f);
    for (size_t k = 0; k < ret.size(); ++k) fprintf(f, "%s%d", k ? "," : "", asint(ret[k]));
    fputs("],\"sl\":[", f);
    for (int q = 1; q <= NS; ++q) {
        if (q > 1) fputc(',', f);
        if (state[q] == 'u') with(q, [&](auto& o) { look(f, o); });
        else fputs("{\"sh\":\"\",\"r\":0,\"c\":0,\"val\":[],\"adj\":[]}", f);
    }
    fputs("],\"ext\":[", f);
    for (int j = 1; j <= NE; ++j) {
        fprintf(f, "%s{\"val\":[", j > 1 ? "," : "");
        for (int k = 0; k < EL; ++k) fprintf(f, "%s%d", k ? "," : "", asint(eval_(j)[k]));
        fputs("],\"adj\":[", f);
        for (int k = 0; k < EL; ++k) fprintf(f, "%s%d", k ? "," : "", asint(eadj_(j)[k]));
        fputs("]}", f);
        for (int k = 0; k < PAD; ++k)
            if (ev[j][k] != CAN || ea[j][k] != CAN || ev[j][PAD + EL + k] != CAN || ea[j][PAD + EL + k] != CAN) note = "memory around an external buffer changed";
    }
    fprintf(f, "],\"ok\":%s,\"note\":\"%s\"}\n", note.empty() ? "true" : "false", note.c_str());
    fflush(f);
}
// views of an object that loses its storage may only be destroyed from now on
static std::vector<int> owner(NS + 1, 0);
static void detach(int q) { for (int p = 1; p <= NS; ++p) if (owner[p] == q && q > 0) { state[p] = 'x'; owner[p] = 0; } }

template <class E, class F> static void through(E&& e, F&& f) { auto b = ad::bind(e); f(b); }
template <class V> static void vals(std::vector<T>& r, const V& v)
{
    if constexpr (std::is_arithmetic_v<V>) r.push_back(v);
    else for (long j = 0; j < v.cols(); ++j) for (long i = 0; i < v.rows(); ++i) r.push_back(v(i, j));
}
template <class A, class B> constexpr bool conforms = is_s<A> || is_s<B> || std::is_same_v<typename A::shape_t, typename B::shape_t>;
template <class A, class B> static void mul(A& a, B& b, const Cmd& c, std::vector<T>& ret)
{
    if constexpr (conforms<A, B>) {
        T w = c.x[0];
        if constexpr (is_s<A> && is_s<B>) {
            if (c.how) { auto x = ad::bind(a * b); ret.push_back(ad::evaluate(x)); ad::evaluate_adj(x, w); }
            else ret.push_back(ad::autodiff(ad::bind(a * b), w));
        } else {
            if (c.how) { auto x = ad::bind(ad::sum(a * b)); ret.push_back(ad::evaluate(x)); ad::evaluate_adj(x, w); }
            else ret.push_back(ad::autodiff(ad::bind(ad::sum(a * b)), w));
        }
    }
}
template <class A, class B, class W> static void eqev(A& a, B& b, W& w, std::vector<T>& ret)
{
    if constexpr (conforms<A, B>) {
        using S = std::conditional_t<is_s<A>, typename B::shape_t, typename A::shape_t>;
        if constexpr (std::is_same_v<S, typename W::shape_t>) {
            auto x = ad::bind(w = a * b);
            vals(ret, ad::evaluate(x));
        }
    }
}
static void act(const Cmd& c, std::vector<T>& ret)
{
    auto put = [&](int q, auto* p, int own) { sl[q] = P<std::decay_t<decltype(*p)>>(p); state[q] = 'u'; owner[q] = own; };
    auto root = [&](int q) { return owner[q]; };
    if (c.op == "new") {
        if (c.sh == "s") { if (c.how) put(c.q, new VS(T(c.x[0])), 0); else put(c.q, new VS(), 0); }
        else if (c.sh == "v") put(c.q, new VV(c.r), 0);
        else put(c.q, new VM(c.r, c.c), 0);
        owner[c.q] = c.q;
    } else if (c.op == "ext") {
        T *v = eval_(c.q2) + c.n, *a = eadj_(c.q2) + c.n;
        if (c.sh == "s") { if (c.how) { auto* p = new WS(); p->bind({v, a}); put(c.q, p, -1); } else put(c.q, new WS(v, a), -1); }
        else if (c.sh == "v") { if (c.how) { auto* p = new WV(nullptr, nullptr, c.r); p->bind({v, a}); put(c.q, p, -1); } else put(c.q, new WV(v, a, c.r), -1); }
        else { if (c.how) { auto* p = new WM(nullptr, nullptr, c.r, c.c); p->bind({v, a}); put(c.q, p, -1); } else put(c.q, new WM(v, a, c.r, c.c), -1); }
    } else if (c.op == "copy") with(c.q, [&](auto& o) {
        using X = std::decay_t<decltype(o)>;
        if constexpr (owning<X>) { put(c.q2, new X(o), c.q2); }
    });
    else if (c.op == "bag") with(c.q, [&](auto& o) {
        using X = std::decay_t<decltype(o)>;
        if constexpr (owning<X>) {
            std::vector<X> bag;
            for (int k = 0; k < 3 + c.how; ++k) bag.push_back(o);
            bag.insert(bag.begin() + 1, o);
            bag.erase(bag.begin());
            put(c.q2, new X(bag[c.how]), c.q2);
        }
    });
    else if (c.op == "move") with(c.q, [&](auto& o) {
        using X = std::decay_t<decltype(o)>;
        if constexpr (owning<X>) { auto* p = new X(std::move(o)); detach(c.q); put(c.q2, p, c.q2); state[c.q] = 'x'; }
    });
    else if (c.op == "assign" || c.op == "massign") with(c.q, [&](auto& o) {
        using X = std::decay_t<decltype(o)>;
        if constexpr (owning<X>) {
            X& t = *std::get<P<X>>(sl[c.q2]);
            if (c.op == "assign") t = static_cast<const X&>(o); else t = std::move(o);
            if (c.q != c.q2) {
                if (c.op == "massign") { detach(c.q); detach(c.q2); state[c.q] = 'x'; }
                state[c.q2] = 'u'; owner[c.q2] = c.q2;
            }
            owner[c.q] = c.q;
        }
    });
    else if (c.op == "view") with(c.q, [&](auto& o) {
        using X = std::decay_t<decltype(o)>;
        using W = VarView<T, typename X::shape_t>;
        put(c.q2, new W(o), root(c.q));
    });
    else if (c.op == "sub") with(c.q, [&](auto& o) {
        using X = std::decay_t<decltype(o)>;
        if constexpr (is_v<X>) {
            switch (c.how) {
            case 0: put(c.q2, new WS(o(c.n)), root(c.q)); break;
            case 1: put(c.q2, new WS(o[c.n]), root(c.q)); break;
            case 2: put(c.q2, new WV(o.head(c.n)), root(c.q)); break;
            case 3: put(c.q2, new WV(o.tail(c.n)), root(c.q)); break;
            }
        }
    });
    else if (c.op == "rebind") with(c.q, [&](auto& o) {
        auto p = o.bind({eval_(c.q2) + c.n, eadj_(c.q2) + c.n});
        if (p.val != eval_(c.q2) + c.n + o.size() || p.adj != eadj_(c.q2) + c.n + o.size()) note = "bind returned a wrong position";
        state[c.q] = 'u'; owner[c.q] = -1;
    });
    else if (c.op == "kill") { detach(c.q); sl[c.q] = std::monostate(); state[c.q] = 'n'; owner[c.q] = 0; }
    else if (c.op == "set") with(c.q, [&](auto& o) { write(o, c, false); });
    else if (c.op == "seta") with(c.q, [&](auto& o) { write(o, c, true); });
    else if (c.op == "fill") with(c.q, [&](auto& o) {
        switch (c.how) { case 0: o.zero(); break; case 1: o.ones(); break; case 2: o.zero_adj(); break; case 3: o.ones_adj(); break; case 4: o.reset_adj(); break; }
    });
    else if (c.op == "mul") with(c.q, [&](auto& a) { with(c.q2, [&](auto& b) { mul(a, b, c, ret); }); });
    else if (c.op == "eq") with(c.q, [&](auto& a) { with(c.q2, [&](auto& b) { with(c.q3, [&](auto& w) { eqev(a, b, w, ret); }); }); });
}

int main(int, char** argv)
{
    std::ifstream in(argv[1]);
    std::string dir = argv[2], line, id;
    std::vector<Cmd> cs;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string t; is >> t;
        if (t == "P") { is >> id; cs.clear(); }
        else if (t == "C") {
            Cmd c; size_t n;
            is >> c.op >> c.q >> c.q2 >> c.q3 >> c.how >> c.n >> c.r >> c.c >> c.sh >> n;
            c.x.resize(n); for (auto& z : c.x) is >> z;
            cs.push_back(c);
        } else if (t == "E") {
            pid_t pid = fork();
            if (pid == 0) {
                alarm(60);
                std::string base = dir + "/" + id;
                FILE* f = fopen((base + ".log").c_str(), "w");
                freopen((base + ".err").c_str(), "w", stderr);
                for (int j = 1; j <= NE; ++j) {
                    ev[j].assign(EL + 2 * PAD, CAN); ea[j].assign(EL + 2 * PAD, CAN);
                    std::fill_n(eval_(j), EL, T(0)); std::fill_n(eadj_(j), EL, T(0));
                }
                for (auto& c : cs) { std::vector<T> ret; note.clear(); act(c, ret); state_line(f, c, ret); }
                for (auto& s : sl) s = std::monostate();
                fclose(f);
                _exit(0);
            }
            int st; waitpid(pid, &st, 0);
            std::ofstream(dir + "/" + id + ".rc") << (WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st)) << "\n";
        }
    }
    return 0;
}
