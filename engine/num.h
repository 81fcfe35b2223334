// Numeric layer of the abstract domain: linear expressions over symbols,
// exact rational simplex used to decide entailment between linear
// constraints (convex polyhedra in constraint form), and Fourier-Motzkin
// projection used by the join.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

typedef __int128 I;
static const I I_MAX = (((I)1) << 100);
static const I I_MIN = -I_MAX;

inline std::string istr(I v) {
    if (v >= I_MAX) return "+inf";
    if (v <= I_MIN) return "-inf";
    if (v == 0) return "0";
    bool n = v < 0;
    if (n) v = -v;
    std::string s;
    while (v) { s += char('0' + (int)(v % 10)); v /= 10; }
    if (n) s += '-';
    std::reverse(s.begin(), s.end());
    return s;
}
inline I iabs(I a) { return a < 0 ? -a : a; }
inline I igcd(I a, I b) {
    a = iabs(a); b = iabs(b);
    if ((a >> 63) == 0 && (b >> 63) == 0) {
        uint64_t x = (uint64_t)a, y = (uint64_t)b;
        while (y) { uint64_t t = x % y; x = y; y = t; }
        return x;
    }
    while (b) { I t = a % b; a = b; b = t; }
    return a;
}
inline I floordiv(I a, I b) { // b>0
    I q = a / b;
    if (a % b != 0 && a < 0) --q;
    return q;
}

struct Lin {
    std::vector<std::pair<int, I>> t; // sorted by symbol
    I c = 0;
    Lin() {}
    Lin(I k) : c(k) {}
    Lin(int k) : c(k) {}
    Lin(long k) : c(k) {}
    Lin(unsigned long k) : c(k) {}
    static Lin sym(int s) { Lin l; l.t.push_back({s, 1}); return l; }
    bool isConst() const { return t.empty(); }
    bool operator==(const Lin& o) const { return c == o.c && t == o.t; }
    bool operator!=(const Lin& o) const { return !(*this == o); }
    bool operator<(const Lin& o) const { return c != o.c ? c < o.c : t < o.t; }
    I coef(int s) const {
        for (auto& p : t) if (p.first == s) return p.second;
        return 0;
    }
    std::string str() const {
        std::string s;
        for (auto& p : t) {
            if (!s.empty() && p.second >= 0) s += "+";
            if (p.second == -1) s += "-";
            else if (p.second != 1) s += istr(p.second) + "*";
            s += "s" + std::to_string(p.first);
        }
        if (c != 0 || s.empty()) {
            if (!s.empty() && c >= 0) s += "+";
            s += istr(c);
        }
        return s;
    }
};
inline Lin addmul(const Lin& a, const Lin& b, I k) {
    Lin r;
    r.c = a.c + b.c * k;
    r.t.reserve(a.t.size() + b.t.size());
    size_t i = 0, j = 0;
    while (i < a.t.size() || j < b.t.size()) {
        if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) {
            r.t.push_back(a.t[i++]);
        } else if (i == a.t.size() || b.t[j].first < a.t[i].first) {
            if (k != 0) r.t.push_back({b.t[j].first, b.t[j].second * k});
            ++j;
        } else {
            I v = a.t[i].second + b.t[j].second * k;
            if (v != 0) r.t.push_back({a.t[i].first, v});
            ++i; ++j;
        }
    }
    return r;
}
inline Lin operator+(const Lin& a, const Lin& b) { return addmul(a, b, 1); }
inline Lin operator-(const Lin& a, const Lin& b) { return addmul(a, b, -1); }
inline Lin operator*(const Lin& a, I k) {
    if (k == 0) return Lin(0);
    Lin r = a; r.c *= k;
    for (auto& p : r.t) p.second *= k;
    return r;
}
inline Lin operator-(const Lin& a) { return a * (I)-1; }
// substitute symbols by expressions
inline Lin subst(const Lin& e, const std::map<int, Lin>& m) {
    Lin r(e.c);
    for (auto& p : e.t) {
        auto it = m.find(p.first);
        if (it == m.end()) r = addmul(r, Lin::sym(p.first), p.second);
        else r = addmul(r, it->second, p.second);
    }
    return r;
}

// ---------------------------------------------------------------- rationals
struct LPFail {};
struct Q {
    I n, d;
    Q(I a = 0) : n(a), d(1) {}
    Q(I a, I b) : n(a), d(b) { norm(); }
    void norm() {
        if (d == 1) return;
        if (d < 0) { n = -n; d = -d; }
        I g = igcd(n, d);
        if (g > 1) { n /= g; d /= g; }
    }
    bool zero() const { return n == 0; }
};
inline I mulo(I a, I b) {
    if ((int64_t)a == a && (int64_t)b == b) return (I)(int64_t)a * (int64_t)b;
    I r;
    if (__builtin_mul_overflow(a, b, &r)) throw LPFail();
    return r;
}
inline I addo(I a, I b) {
    I r;
    if (__builtin_add_overflow(a, b, &r)) throw LPFail();
    return r;
}
inline Q operator*(const Q& a, const Q& b) {
    if (a.n == 0 || b.n == 0) return Q(0);
    if (a.d == 1 && b.d == 1) return Q(mulo(a.n, b.n));
    return Q(mulo(a.n, b.n), mulo(a.d, b.d));
}
inline Q operator+(const Q& a, const Q& b) {
    if (a.n == 0) return b;
    if (b.n == 0) return a;
    if (a.d == 1 && b.d == 1) return Q(addo(a.n, b.n));
    return Q(addo(mulo(a.n, b.d), mulo(b.n, a.d)), mulo(a.d, b.d));
}
inline Q neg(const Q& a) { Q r = a; r.n = -r.n; return r; }
inline Q inv(const Q& a) { return Q(a.d, a.n); }
inline bool less(const Q& a, const Q& b) {
    if (a.d == b.d) return a.n < b.n;
    return mulo(a.n, b.d) < mulo(b.n, a.d);
}

// 64-bit rationals for the tableau; overflow raises LPFail
struct R64 {
    int64_t n, d;
    R64(int64_t a = 0) : n(a), d(1) {}
    bool zero() const { return n == 0; }
    static R64 mk(I n, I d) {
        if (d != 1) {
            if (d < 0) { n = -n; d = -d; }
            I g = igcd(n, d);
            if (g > 1) { n /= g; d /= g; }
        }
        if ((int64_t)n != n || (int64_t)d != d || n == INT64_MIN) throw LPFail();
        R64 r; r.n = (int64_t)n; r.d = (int64_t)d; return r;
    }
};
inline R64 operator*(const R64& a, const R64& b) {
    if (a.n == 0 || b.n == 0) return R64(0);
    if (a.d == 1 && b.d == 1) {
        int64_t r;
        if (__builtin_mul_overflow(a.n, b.n, &r) || r == INT64_MIN) throw LPFail();
        return R64(r);
    }
    return R64::mk((I)a.n * b.n, (a.d == 1 && b.d == 1) ? 1 : (I)a.d * b.d);
}
inline R64 operator+(const R64& a, const R64& b) {
    if (a.n == 0) return b;
    if (b.n == 0) return a;
    if (a.d == 1 && b.d == 1) {
        int64_t r;
        if (__builtin_add_overflow(a.n, b.n, &r) || r == INT64_MIN) throw LPFail();
        return R64(r);
    }
    if (a.d == b.d) return R64::mk((I)a.n + b.n, a.d);
    return R64::mk(addo(mulo(a.n, b.d), mulo(b.n, a.d)), mulo(a.d, b.d));
}
inline R64 neg(const R64& a) { R64 r = a; r.n = -r.n; return r; }
inline R64 inv(const R64& a) { R64 r; r.n = a.n < 0 ? -a.d : a.d; r.d = a.n < 0 ? -a.n : a.n; return r; }
inline Q toQ(const R64& a) { Q q; q.n = a.n; q.d = a.d; return q; }
inline Q toQ(const Q& a) { return a; }
template <class T> T fromI(I v);
template <> inline R64 fromI<R64>(I v) { if ((int64_t)v != v || v == INT64_MIN) throw LPFail(); return R64((int64_t)v); }
template <> inline Q fromI<Q>(I v) { return Q(v); }

extern long g_lpCalls, g_lpPivots;

// Dictionary simplex with rows sum a_ij x_j <= b_i, x_j >= 0.  Rows are
// activated lazily, only when the current basic point violates them.
template <class T> struct Simplex {
    int n, m;
    std::vector<std::vector<T>> A;
    std::vector<Q> b;
    std::vector<T> c;
    Q v;
    std::vector<int> N, B;
    std::vector<int> where;               // original variable -> row when basic, -1 otherwise
    struct Row { std::vector<std::pair<int, I>> t; Q rhs; };
    std::vector<Row> pend;                // not yet active
    int nextSlack;
    explicit Simplex(int nv) : n(nv), m(0), c(nv), where(nv, -1) {
        for (int i = 0; i < nv; ++i) N.push_back(i);
        nextSlack = nv;
    }
    void row(std::vector<std::pair<int, I>>&& r, const Q& rhs) { pend.push_back({std::move(r), rhs}); }
    Q value(int x) const { return where[x] < 0 ? Q(0) : b[where[x]]; }
    Q slack(const Row& r) const {         // rhs - row at the current point
        Q s = r.rhs;
        for (auto& p : r.t) if (where[p.first] >= 0) s = s + Q(-p.second) * b[where[p.first]];
        return s;
    }
    void activate(const Row& r) {
        std::vector<T> a(n);
        Q rhs = r.rhs;
        std::vector<int> pos;
        for (auto& p : r.t) {
            int w = where[p.first];
            if (w < 0) {
                for (int j = 0; j < n; ++j) if (N[j] == p.first) { a[j] = a[j] + fromI<T>(p.second); break; }
            } else {
                T k = fromI<T>(-p.second);
                rhs = rhs + Q(-p.second) * b[w];
                for (int j = 0; j < n; ++j) if (!A[w][j].zero()) a[j] = a[j] + k * A[w][j];
            }
        }
        A.push_back(std::move(a)); b.push_back(rhs); B.push_back(nextSlack++); ++m;
    }
    void pivot(int r, int e) {
        ++g_lpPivots;
        T ip = inv(A[r][e]);
        b[r] = b[r] * toQ(ip);
        std::vector<int> nz;
        for (int j = 0; j < n; ++j) if (j != e && !A[r][j].zero()) { A[r][j] = A[r][j] * ip; nz.push_back(j); }
        A[r][e] = ip;
        for (int i = 0; i < m; ++i) {
            if (i == r || A[i][e].zero()) continue;
            T nf = neg(A[i][e]);
            if (b[r].n != 0) b[i] = b[i] + toQ(nf) * b[r];
            for (int j : nz) A[i][j] = A[i][j] + nf * A[r][j];
            A[i][e] = nf * A[r][e];
        }
        if (!c[e].zero()) {
            T f = c[e];
            v = v + toQ(f) * b[r];
            for (int j : nz) c[j] = c[j] + neg(f) * A[r][j];
            c[e] = neg(f) * A[r][e];
        }
        std::swap(N[e], B[r]);
        if (B[r] < (int)where.size()) where[B[r]] = r;
        if (N[e] < (int)where.size()) where[N[e]] = -1;
    }
    bool feasibleActive() {
        int it = 0;
        for (;;) {
            int r = -1;
            if (it < 60) {
                for (int i = 0; i < m; ++i)
                    if (b[i].n < 0 && (r < 0 || less(b[i], b[r]))) r = i;
            } else {
                for (int i = 0; i < m; ++i)
                    if (b[i].n < 0 && (r < 0 || B[i] < B[r])) r = i;
            }
            if (r < 0) return true;
            int e = -1;
            for (int j = 0; j < n; ++j)
                if (A[r][j].n < 0 && (e < 0 || N[j] < N[e])) e = j;
            if (e < 0) return false;
            pivot(r, e);
            if (++it > 2000) throw LPFail();
        }
    }
    // activates violated rows; false when there are none
    bool grow(bool all) {
        std::vector<Row> keep, go;
        for (auto& r : pend) if (all || slack(r).n < 0) go.push_back(std::move(r)); else keep.push_back(std::move(r));
        pend.swap(keep);
        for (auto& r : go) activate(r);
        return !go.empty();
    }
    bool feasible() {
        for (;;) {
            if (!feasibleActive()) return false;
            if (!grow(false)) return true;
        }
    }
    int maximizeActive() {
        int it = 0;
        for (;;) {
            int e = -1;
            for (int j = 0; j < n; ++j)
                if (c[j].n > 0 && (e < 0 || N[j] < N[e])) e = j;
            if (e < 0) return 0;
            int r = -1; Q best;
            for (int i = 0; i < m; ++i) {
                if (A[i][e].n <= 0) continue;
                Q q = b[i] * toQ(inv(A[i][e]));
                if (r < 0 || less(q, best) || (!less(best, q) && B[i] < B[r])) { r = i; best = q; }
            }
            if (r < 0) return 1;
            pivot(r, e);
            if (++it > 2000) throw LPFail();
        }
    }
    // after feasible() the dictionary may have been pivoted while c was
    // carried along, so c is expressed in the current nonbasics.
    // returns 0 optimal, 1 unbounded
    int maximize() {
        for (;;) {
            int k = maximizeActive();
            if (k == 1) {
                if (pend.empty()) return 1;
                grow(true);
                if (!feasibleActive()) throw LPFail();
                continue;
            }
            if (!grow(false)) return 0;
            if (!feasibleActive()) throw LPFail();
        }
    }
};
