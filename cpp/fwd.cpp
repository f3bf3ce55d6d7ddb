// Interpreter of Forward histories on real ad::ForwardVar objects.
//   fwd <file of histories> <output directory>
// Contains no expected results: it executes and logs what can be read.
#include <fastad>
#include <cmath>
#include <cstdio>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
using namespace ad;
#ifndef VAL
#define VAL double
#endif
using T = VAL;
using FV = ForwardVar<T>;
constexpr int NR = 6;
static std::string note;

static double dbl(std::istringstream& is)
{
    int64_t hi, lo; is >> hi >> lo;
    uint64_t b = (uint64_t)(uint32_t)hi << 32 | (uint32_t)lo;
    double d; memcpy(&d, &b, 8); return d;
}
static void num(FILE* f, double d)
{
    if (d == 0) d = 0;
    uint64_t b; memcpy(&b, &d, 8);
    if (std::isnan(d)) b = 0x7ff8000000000000ull;
    fprintf(f, "[%d,%d]", (int32_t)(b >> 32), (int32_t)(b & 0xffffffffu));
}
// u: an lvalue register or a temporary
template <class A> static FV un(const std::string& f, A&& a)
{
    if (f == "neg") return -a;
    if (f == "sin") return sin(a);
    if (f == "cos") return cos(a);
    if (f == "tan") return tan(a);
    if (f == "asin") return asin(a);
    if (f == "acos") return acos(a);
    if (f == "atan") return atan(a);
    if (f == "exp") return exp(a);
    if (f == "log") return log(a);
    if (f == "sqrt") return sqrt(a);
    if (f == "erf") return erf(a);
    abort();
}
static FV bin(const std::string& f, const FV& a, const FV& b)
{
    if (f == "+") return a + b;
    if (f == "-") return a - b;
    if (f == "*") return a * b;
    if (f == "/") return a / b;
    abort();
}
static std::vector<FV> R(NR + 1);
static FV tree(std::istringstream& is)
{
    std::string k, f; is >> k;
    if (k == "r") { int j; is >> j; return R[j]; }
    if (k == "c") return FV(dbl(is));
    is >> f;
    if (k == "u") {
        // operate on the register itself where the operand is one
        auto pos = is.tellg(); std::string k2; int j;
        if (is >> k2 && k2 == "r") { is >> j; return un(f, R[j]); }
        is.clear(); is.seekg(pos);
        return un(f, tree(is));
    }
    FV a = tree(is); FV b = tree(is);
    return bin(f, a, b);
}
static void act(std::istringstream& is)
{
    std::string op, f; int t, a, b, how;
    is >> op >> f >> t >> a >> b >> how;
    if (op == "default") { if (how % 2) R[t] = FV(); else { FV z; R[t] = z; } }
    else if (op == "new") { double x = dbl(is); if (how % 3 == 0) R[t] = x; else if (how % 3 == 1) R[t] = FV(x); else { FV z = x; R[t] = z; } }
    else if (op == "new2") { double x = dbl(is), y = dbl(is); if (how % 2) R[t] = FV(x, y); else { FV z(x); if (z.set_adjoint(y) != y && y == y) note = "set_adjoint"; R[t] = z; } }
    else if (op == "setv") { double x = dbl(is); if (how % 2) R[t].get_value() = x; else R[t].set_value(x); }
    else if (op == "setd") { double x = dbl(is); if (how % 2) R[t].get_adjoint() = x; else R[t].set_adjoint(x); }
    else if (op == "copy") { FV z(R[a]); R[t] = std::move(z); }
    else if (op == "assign") R[t] = R[a];
    else if (op == "un") { if (how % 2) R[t] = un(f, R[a]); else { const FV& c = R[a]; FV z = un(f, c); R[t] = z; } }
    else if (op == "bin") R[t] = bin(f, R[a], R[b]);
    else if (op == "inc") { if (how % 2) R[t] += R[a]; else { FV& z = (R[t] += R[a]); if (&z != &R[t]) note = "+= does not return its left operand"; } }
    else if (op == "incx") R[t] += tree(is);
    else if (op == "expr") { if (how % 2) R[t] = tree(is); else { FV z = tree(is); R[t] = z; } }
    else abort();
}
int main(int, char** argv)
{
    std::ifstream in(argv[1]);
    std::string dir = argv[2], line;
    FILE* f = nullptr;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string t; is >> t;
        if (t == "P") { std::string id; is >> id; f = fopen((dir + "/" + id + ".log").c_str(), "w"); R.assign(NR + 1, FV()); }
        else if (t == "C") {
            note.clear();
            act(is);
            fputs("{\"regs\":[", f);
            for (int j = 1; j <= NR; ++j) {
                const FV& c = R[j];
                uint64_t x, y; double p = R[j].get_value(), q = c.get_value(); memcpy(&x, &p, 8); memcpy(&y, &q, 8);
                if (x != y) note = "accessors disagree";
                fputs(j > 1 ? ",{\"v\":" : "{\"v\":", f); num(f, c.get_value());
                fputs(",\"d\":", f); num(f, c.get_adjoint()); fputc('}', f);
            }
            fprintf(f, "],\"ok\":%s,\"note\":\"%s\"}\n", note.empty() ? "true" : "false", note.c_str());
            fflush(f);
        } else if (t == "E") fclose(f);
    }
}
