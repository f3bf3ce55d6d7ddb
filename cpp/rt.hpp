// Runtime of the conformance programs: executes a script of session actions on
// real FastAD objects (public API only) and logs every action with the complete
// observable state afterwards.  It contains no expected results.
#pragma once
#include <fastad>
#include <cstdio>
#include <cstdint>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace rt {

using VecXd = Eigen::VectorXd;
using MatXd = Eigen::MatrixXd;
using Nums = std::vector<double>;

// heap with guard words and poisoned contents (rt.cpp; malloc/free are wrapped)
void heap_start();
void heap_stop();
const char* heap_check();      // null if every guard word and freed block is intact

double from_hex(const char* s);
struct Cmd {
    std::string op, note;
    int e = 0, q = 0, q2 = 0, i = 0, rv = 0, tmp = 0;
    int par = 0;                    // this many commands, from this one on, overlap in time
    std::vector<int> w;             // leaves an overlapping command may change
    Nums x;
};
struct Run { std::vector<Cmd> cmds; };

// memory with guard words on both sides, owned by the "user"
struct Guarded {
    std::vector<uint64_t> raw;
    size_t n = 0, off = 0;
    void make(size_t n_, double fill, size_t shift);
    double* data() { return reinterpret_cast<double*>(raw.data() + off); }
    bool intact() const;
};

struct Leaf {
    virtual ~Leaf() {}
    virtual size_t n() = 0;
    virtual double val(size_t k) = 0;
    virtual double adj(size_t k) = 0;
    virtual void set(const Nums& x) = 0;
    virtual void seta(const Nums& x) = 0;
    virtual void rst() = 0;
    virtual bool has_adj() { return true; }
    virtual bool intact() { return true; }
};

inline double& el(double& x, size_t) { return x; }
template <class M> inline double& el(M& m, size_t k) { return m(k % m.rows(), k / m.rows()); }

template <class V>
struct VLeaf : Leaf {
    V& v;
    Guarded *gv, *ga;
    VLeaf(V& v_, Guarded* a = nullptr, Guarded* b = nullptr) : v(v_), gv(a), ga(b) {}
    size_t n() override { return v.size(); }
    double val(size_t k) override { return el(v.get(), k); }
    double adj(size_t k) override { return el(v.get_adj(), k); }
    void set(const Nums& x) override { for (size_t k = 0; k < x.size(); ++k) el(v.get(), k) = x[k]; }
    void seta(const Nums& x) override { for (size_t k = 0; k < x.size(); ++k) el(v.get_adj(), k) = x[k]; }
    void rst() override { v.reset_adj(); }
    bool intact() override { return (!gv || gv->intact()) && (!ga || ga->intact()); }
};
// externally owned data of a constant_view
struct CLeaf : Leaf {
    Guarded& g;
    CLeaf(Guarded& g_) : g(g_) {}
    size_t n() override { return g.n; }
    double val(size_t k) override { return g.data()[k]; }
    double adj(size_t) override { return 0; }
    void set(const Nums& x) override { for (size_t k = 0; k < x.size(); ++k) g.data()[k] = x[k]; }
    void seta(const Nums&) override {}
    void rst() override {}
    bool has_adj() override { return false; }
    bool intact() override { return g.intact(); }
};
// a plain Eigen/scalar object used to build constants: must never change
struct Watch { const void* p; size_t n; std::vector<char> copy; };

template <class T> inline void out(Nums& r, const T& v)
{
    if constexpr (std::is_arithmetic_v<T>) { r.push_back(v); }
    else {
        for (long j = 0; j < v.cols(); ++j)
            for (long i = 0; i < v.rows(); ++i) r.push_back(v(i, j));
    }
}

template <class E> auto seed_of(const Nums& x, size_t r, size_t c)
{
    using S = typename E::shape_t;
    if constexpr (std::is_same_v<S, ad::scl>) { return x[0]; }
    else if constexpr (std::is_same_v<S, ad::vec>) {
        Eigen::Array<double, Eigen::Dynamic, 1> a(r);
        for (size_t k = 0; k < r; ++k) a(k) = x[k];
        return a;
    } else {
        Eigen::Array<double, Eigen::Dynamic, Eigen::Dynamic> a(r, c);
        for (size_t k = 0; k < r * c; ++k) a(k % r, k / r) = x[k];
        return a;
    }
}

struct Expr {
    virtual ~Expr() {}
    virtual const char* act(const Cmd& c, Nums& ret) = 0;
    virtual bool intact() { return true; }
};

template <class T, class F>
inline void call(T& obj, const Cmd& c, Nums& ret, F&& seed)
{
    if (c.op == "fwd") {
        if (c.rv) out(ret, ad::evaluate(std::move(obj)));
        else out(ret, ad::evaluate(obj));
    } else if (c.op == "bwd") {
        if (c.rv) ad::evaluate_adj(std::move(obj), seed());
        else ad::evaluate_adj(obj, seed());
    } else {
        if (c.rv) out(ret, ad::autodiff(std::move(obj), seed()));
        else out(ret, ad::autodiff(obj, seed()));
    }
}
// the default seed of scalar expressions
template <class E, class T>
inline bool call_default(T& obj, const Cmd& c, Nums& ret)
{
    if constexpr (std::is_same_v<typename E::shape_t, ad::scl>) {
        if (c.op == "bwd") { ad::evaluate_adj(obj); return true; }
        if (c.op == "ad") { out(ret, ad::autodiff(obj)); return true; }
    }
    return false;
}

// expression objects created by ad::bind
template <class Mk>
struct Bound : Expr {
    using E = std::decay_t<decltype(std::declval<Mk&>()())>;
    using B = ad::core::ExprBind<E>;
    Mk mk;
    std::unique_ptr<B> sl[4];
    Bound(const Mk& m) : mk(m) {}
    const char* act(const Cmd& c, Nums& ret) override
    {
        if (c.op == "bind") sl[c.q].reset(new B(ad::bind(mk())));
        else if (c.op == "copy") sl[c.q2].reset(new B(*sl[c.q]));
        else if (c.op == "move") { sl[c.q2].reset(new B(std::move(*sl[c.q]))); sl[c.q].reset(); }
        else if (c.op == "assign") *sl[c.q2] = *sl[c.q];
        else if (c.op == "massign") { *sl[c.q2] = std::move(*sl[c.q]); if (c.q != c.q2) sl[c.q].reset(); }
        else if (c.op == "kill") sl[c.q].reset();
        else if (c.op == "bag") {           // through a container that relocates its elements
            std::vector<B> bag;
            for (int k = 0; k < 3; ++k) bag.push_back(*sl[c.q]);
            bag.insert(bag.begin(), std::move(*sl[c.q]));
            bag.erase(bag.begin() + 1);
            sl[c.q].reset(new B(std::move(bag[c.q % bag.size()])));
        }
        else {
            auto seed = [&] { auto& e = sl[c.q]->get(); return seed_of<E>(c.x, e.rows(), e.cols()); };
            if (c.tmp) out(ret, ad::autodiff(ad::bind(mk()), seed()));
            else if (c.rv == 2 && call_default<E>(*sl[c.q], c, ret)) {}
            else call(*sl[c.q], c, ret, seed);
        }
        return nullptr;
    }
};

// raw expression objects bound by the user to his own memory
template <class Mk>
struct Raw : Expr {
    using E = std::decay_t<decltype(std::declval<Mk&>()())>;
    Mk mk;
    struct Slot { E e; Guarded v, a; };
    std::unique_ptr<Slot> sl[4];
    Raw(const Mk& m) : mk(m) {}
    const char* act(const Cmd& c, Nums& ret) override
    {
        if (c.op == "bind") {
            if (!sl[c.q]) sl[c.q].reset(new Slot{mk(), {}, {}});
            auto& s = *sl[c.q];
            auto sz = s.e.bind_cache_size();
            // c.x = fill pattern, shift of the buffers
            s.v.make(sz(0), c.x[0], (size_t)c.x[1]);
            s.a.make(sz(1), c.x[0], (size_t)c.x[2]);
            if constexpr (ad::util::is_constant_v<E>) {
                if (sz(0) || sz(1)) return "a constant asked for cache";
                return nullptr;
            } else {
            auto p = s.e.bind_cache({s.v.data(), s.a.data()});
            if (p.val != s.v.data() + sz(0)) return "bind_cache did not consume the advertised value slots";
            if (p.adj != s.a.data() + sz(1)) return "bind_cache did not consume the advertised adjoint slots";
            }
        } else if (c.op == "kill") sl[c.q].reset();
        else {
            auto& s = *sl[c.q];
            auto seed = [&] { return seed_of<E>(c.x, s.e.rows(), s.e.cols()); };
            if (c.rv == 2 && call_default<E>(s.e, c, ret)) {}
            else call(s.e, c, ret, seed);
        }
        return nullptr;
    }
    bool intact() override
    {
        for (auto& s : sl) if (s && !(s->v.intact() && s->a.intact())) return false;
        return true;
    }
};
template <class Mk> Expr* bound(const Mk& m) { return new Bound<Mk>(m); }
template <class Mk> Expr* raw(const Mk& m) { return new Raw<Mk>(m); }

struct Session {
    std::vector<std::unique_ptr<Leaf>> leaves;
    std::vector<std::unique_ptr<Expr>> exprs;
    std::vector<Watch> watches;
    void watch(const void* p, size_t n);
    template <class M> const M& wconst(const M& m) { watch(m.data(), m.size() * sizeof(*m.data())); return m; }
    void go(const Run& r, FILE* log);
private:
    using State = std::vector<std::pair<Nums, Nums>>;      // values and adjoints of the leaves
    State state();
    std::string step(const Cmd& c, Nums& ret);
    std::string intact();
    void log(const Cmd& c, const Nums& ret, const State& s, const std::string& note, FILE* f);
};

VecXd vecd(std::initializer_list<uint64_t> bits);
MatXd matd(int r, int c, std::initializer_list<uint64_t> bits);
double sd(uint64_t bits);

using Prog = void (*)(const Run&, FILE*);
int main_(int argc, char** argv, const std::vector<std::pair<const char*, Prog>>& progs);

} // namespace rt
