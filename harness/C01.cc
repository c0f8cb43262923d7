#include "harness.h"
#include "tools.h"
#include "vec_int64.h"
using namespace NTL;
using namespace H;
// independent count: Pascal
static ZZ cnt(int64_t n, int64_t d) { ZZ r(1); for (int64_t i = 1; i < n; ++i) { r *= ZZ(d + i); r /= ZZ(i); } return r; }
static std::vector<std::pair<int64_t, int64_t> > cases;
static void init() {
    for (int n = 1; n <= 8; ++n) for (int d = 0; d <= 14; ++d) if (cnt(n, d) <= 60000) cases.push_back(std::make_pair(n, d));
    int64_t big[][2] = {{1, 50000}, {1, 99999}, {2, 40000}, {2, 99999}, {3, 400}, {3, 300}, {4, 77}, {5, 33}, {6, 20}, {7, 15}, {9, 9}, {10, 8}, {12, 6}, {15, 5}, {20, 4}, {30, 3}, {60, 2}, {61, 3}, {200, 2}, {400, 1}, {64, 1}, {1000, 1}, {100, 0}, {300, 0}};
    for (auto &b : big) cases.push_back(std::make_pair(b[0], b[1]));
}
static void run(Case &c) {
    int64_t n, d;
    if (c.k < (long)cases.size()) { n = cases[c.k].first; d = cases[c.k].second; }
    else { do { n = c.r.in(1, 40); d = c.r.in(0, 300); } while (cnt(n, d) > 20000); }
    int dirty = c.k % 4;
    c.d << "tuple_list_generator(n=" << n << ", d=" << d << ") prior content kind " << dirty; c.publish();
    Vec<Vec<int64_t> > out;
    if (dirty == 1) { out.SetLength(3); for (int i = 0; i < 3; ++i) { out[i].SetLength(n + 2); for (int j = 0; j < n + 2; ++j) out[i][j] = 7 + i; } }
    if (dirty == 2) { int64_t L = 2 * to_long(cnt(n, d)) + 5; if (L > 100000) L = 100000; out.SetLength(L); for (int64_t i = 0; i < L; ++i) { out[i].SetLength(1 + i % 3); out[i][0] = -5; } }
    if (dirty == 3) { tuple_list_generator(out, d > 3 ? 3 : d + 1, n > 4 ? 4 : n + 1); }
    tuple_list_generator(out, d, n);
    same(ZZ(out.length()), cnt(n, d), "number of monomials");
    for (int64_t i = 0; i < out.length(); ++i) {
        same((int64_t)out[i].length(), n, "length of entry " + std::to_string(i));
        int64_t s = 0;
        for (int64_t j = 0; j < n; ++j) { ok(out[i][j] >= 0, "negative exponent in entry " + std::to_string(i)); s += out[i][j]; }
        same(s, d, "degree of entry " + std::to_string(i));
        if (i) {
            bool less = false;
            for (int64_t j = 0; j < n; ++j) if (out[i - 1][j] != out[i][j]) { less = out[i - 1][j] < out[i][j]; break; }
            ok(less, "entries " + std::to_string(i - 1) + " and " + std::to_string(i) + " not strictly increasing");
        }
    }
    // strictly increasing + right degree + right count = complete
}
int main(int argc, char **argv) { init(); return main_(argc, argv, run, cases.size() + 60, cases.size() + 1500); }
