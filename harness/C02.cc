#include "harness.h"
#include "vec_int64.h"
using namespace NTL;
using namespace H;
typedef __int128 i128;
static const int64_t MX = INT64_MAX, MN = INT64_MIN;
static int64_t val(Rng &r) {
    switch (r.in(0, 7)) {
        case 0: return 0; case 1: return r.in(-3, 3); case 2: return r.in(-1000, 1000); case 3: return MX - r.in(0, 2); case 4: return MN + r.in(0, 2);
        case 5: return (r.coin() ? 1 : -1) * ((int64_t)1 << r.in(0, 62)); case 6: return r.in(-2000000000LL, 2000000000LL); default: return (int64_t)r.next();
    }
}
static bool fits(i128 x) { return x >= MN && x <= MX; }
static Vec<int64_t> fill(Rng &r, int n) { Vec<int64_t> v; v.SetLength(n); for (int i = 0; i < n; ++i) v[i] = val(r); return v; }
static void check(const Vec<int64_t> &a, const std::vector<i128> &e, const std::string &w) {
    same((size_t)a.length(), e.size(), w + ": length");
    for (size_t i = 0; i < e.size(); ++i) if ((i128)a[i] != e[i]) fail(w + ": component " + std::to_string(i) + " is " + std::to_string(a[i]) + ", expected " + std::to_string((long long)e[i]));
}
static Vec<int64_t> junk(Rng &r, int n) { Vec<int64_t> v; int L = r.coin() ? n : r.in(0, n + 3); v.SetLength(L); for (int i = 0; i < L; ++i) v[i] = 99 + i; return v; }
static void run(Case &c) {
    Rng &r = c.r;
    int n = c.k < 40 ? c.k / 4 + 1 : r.in(1, 40), op = c.k % 10;
    if (r.one_in(15)) n = r.in(40, 300);
    c.d << "op " << op << " n=" << n << " ";
    if (op <= 1) {          // add, sub, all aliasings
        Vec<int64_t> v = fill(r, n), w = fill(r, n);
        for (int i = 0; i < n; ++i) while (!fits(op ? (i128)v[i] - w[i] : (i128)v[i] + w[i])) { v[i] /= 2; w[i] /= 2; }
        int al = r.in(0, 4);
        std::vector<i128> e(n); 
        if (al == 3) { for (int i = 0; i < n; ++i) while (!fits(2 * (i128)v[i])) v[i] /= 2; w = v; }
        for (int i = 0; i < n; ++i) e[i] = op ? (i128)v[i] - w[i] : (i128)v[i] + w[i];
        c.d << (op ? "sub" : "add") << " aliasing " << al << " " << v << " " << w; c.publish();
        Vec<int64_t> v0 = v, w0 = w;
        if (al == 0) { Vec<int64_t> o = junk(r, n); if (op) sub(o, v, w); else add(o, v, w); check(o, e, "result"); ok(v == v0 && w == w0, "input modified"); }
        else if (al == 1) { if (op) sub(v, v, w); else add(v, v, w); check(v, e, "result (out=first)"); ok(w == w0, "input modified"); }
        else if (al == 2) { if (op) sub(w, v, w); else add(w, v, w); check(w, e, "result (out=second)"); ok(v == v0, "input modified"); }
        else if (al == 3) { if (op) sub(v, v, v); else add(v, v, v); check(v, e, "result (all the same)"); }
        else { Vec<int64_t> o = op ? v - w : v + w; check(o, e, "operator"); ok(v == v0 && w == w0, "input modified"); }
    } else if (op == 2) {
        Vec<int64_t> v = fill(r, n); int64_t s = val(r);
        if (s == MN || s == MX) s = r.coin() ? 1 : -1;
        for (int i = 0; i < n; ++i) while (!fits((i128)v[i] * s)) v[i] /= 2;
        std::vector<i128> e(n); for (int i = 0; i < n; ++i) e[i] = (i128)v[i] * s;
        c.d << "scale " << s << " " << v; c.publish();
        Vec<int64_t> v0 = v, o = junk(r, n); mul(o, s, v); check(o, e, "mul"); ok(v == v0, "input modified");
        check(s * v, e, "operator*");
        Vec<int64_t> a = v; mul(a, s, a); check(a, e, "mul in place");
    } else if (op == 3) {   // inner product
        Vec<int64_t> v = fill(r, n), w = fill(r, n); i128 s = 0;
        for (int i = 0; i < n; ++i) { i128 p; while (p = (i128)v[i] * w[i], !fits(p) || !fits(s + p)) { v[i] /= 2; w[i] /= 2; } s += p; }
        c.d << "dot " << v << " " << w; c.publish();
        int64_t o = val(r); mul(o, v, w); ok((i128)o == s, "inner product is " + std::to_string(o) + " expected " + std::to_string((long long)s));
        ok((i128)(v * w) == s, "operator* of vectors");
    } else if (op == 4) {
        int m = r.in(0, 12); if (n > 40) n = 40;
        Mat<int64_t> A; A.SetDims(m, n); Vec<int64_t> v = fill(r, n); std::vector<i128> e(m);
        for (int j = 0; j < m; ++j) { i128 s = 0; for (int i = 0; i < n; ++i) { int64_t a = val(r); while (!fits((i128)a * v[i]) || !fits(s + (i128)a * v[i])) a /= 2; A[j][i] = a; s += (i128)a * v[i]; } e[j] = s; }
        c.d << "matvec " << A << " " << v; c.publish();
        Mat<int64_t> A0 = A; Vec<int64_t> v0 = v, o = junk(r, m); mul(o, A, v); check(o, e, "mul"); check(A * v, e, "operator*"); ok(A == A0 && v == v0, "input modified");
    } else if (op == 5) {   // copies
        Vec<int64_t> v = fill(r, n); c.d << "copy " << v; c.publish();
        std::vector<int64_t> a(n + 6, 12345); conv(&a[3], v);
        for (int i = 0; i < n; ++i) same(a[3 + i], v[i], "array component " + std::to_string(i));
        for (int i = 0; i < 3; ++i) ok(a[i] == 12345 && a[n + 3 + i] == 12345, "wrote outside the array");
        Vec<int64_t> o = junk(r, n); conv(o, &a[3], n); ok(o == v, "copy from the array");
        ok(a[2] == 12345 && a[n + 3] == 12345, "array modified");
        if (r.one_in(4)) { Vec<int64_t> z = junk(r, 3); conv(z, &a[0], 0); same(z.length(), 0L, "empty copy"); }
    } else {                // order
        Vec<int64_t> a = fill(r, n), b = fill(r, n), d = fill(r, n);
        int pre = r.in(0, n); for (int i = 0; i < pre; ++i) { b[i] = a[i]; if (r.coin()) d[i] = a[i]; }
        if (op == 6) b = a;
        if (op == 7) { b = a; int i = r.in(0, n - 1); b[i] = val(r); }
        if (op == 8) { b = a; b[n - 1] = a[n - 1] == MX ? a[n - 1] - 1 : a[n - 1] + 1; }
        c.d << "order " << a << " " << b << " " << d; c.publish();
        auto lt = [&](const Vec<int64_t> &x, const Vec<int64_t> &y) { for (int i = 0; i < n; ++i) if (x[i] != y[i]) return x[i] < y[i]; return false; };
        const Vec<int64_t> *p[3] = {&a, &b, &d};
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { same((bool)(*p[i] < *p[j]), lt(*p[i], *p[j]), "a<b"); same(vi64less()(*p[i], *p[j]), lt(*p[i], *p[j]), "key order"); }
        if (op == 9) ok(ends([&] { Vec<int64_t> x = a; x.SetLength(n + 1); x[n] = 0; volatile bool q = x < a; (void)q; }), "vectors of different lengths compared without an error");
    }
}
int main(int argc, char **argv) { return main_(argc, argv, run, 40000, 1500000); }
