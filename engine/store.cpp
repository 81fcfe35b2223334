#include "store.h"
SymTab g_sym;
long g_lpCalls = 0, g_lpPivots = 0;

// bounds this far out (the limits of 64-bit integers) are not given to the LP
static const I FAR_HI = ((I)1 << 63) - 1, FAR_LO = -((I)1 << 63);

static void component(const Num& n, const std::vector<Lin>& seeds, std::vector<Lin>& rows,
                      std::map<int, int>& col) {
    std::vector<Lin> all;
    all.reserve(n.cons.r().size());
    for (auto& e : n.cons.r()) {
        Lin f = n.simp(e);
        if (!f.t.empty()) all.push_back(std::move(f));
    }
    std::vector<char> used(all.size(), 0);
    std::set<int> vars;
    for (auto& s : seeds) for (auto& p : s.t) vars.insert(p.first);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < all.size(); ++i) {
            if (used[i]) continue;
            bool hit = false;
            for (auto& p : all[i].t) if (vars.count(p.first)) { hit = true; break; }
            if (!hit) continue;
            used[i] = 1; ch = true;
            for (auto& p : all[i].t) vars.insert(p.first);
        }
    }
    for (size_t i = 0; i < all.size(); ++i) if (used[i]) rows.push_back(all[i]);
    for (auto& s : seeds) rows.push_back(s);
    for (int v : vars) { int k = (int)col.size(); col[v] = k; }
}

// variables are shifted by their lower bound; unbounded-below ones are split
template <class T>
static void build(const Num& n, const std::vector<Lin>& rows, const std::map<int, int>& col,
                  std::unique_ptr<Simplex<T>>& sx, std::vector<int>& negcol, const Lin* obj, Q& objc) {
    int k = (int)col.size();
    negcol.assign(k, -1);
    int nv = k;
    for (auto& p : col) {
        if (n.slo(p.first) <= FAR_LO) negcol[p.second] = nv++;
    }
    sx.reset(new Simplex<T>(nv));
    auto fill = [&](const Lin& e, std::vector<std::pair<int, I>>& r) -> I {
        I c = e.c;
        for (auto& p : e.t) {
            int j = col.at(p.first);
            r.push_back({j, p.second});
            if (negcol[j] >= 0) r.push_back({negcol[j], -p.second});
            else c += p.second * n.slo(p.first);
        }
        return c;
    };
    for (auto& e : rows) {
        std::vector<std::pair<int, I>> r;
        I c = fill(e, r);
        sx->row(std::move(r), Q(-c));
    }
    for (auto& p : col) {
        I h = n.shi(p.first);
        if (h >= FAR_HI) continue;
        std::vector<std::pair<int, I>> r;
        I c = fill(Lin::sym(p.first), r);
        sx->row(std::move(r), Q(h - c));
    }
    if (obj) {
        std::vector<std::pair<int, I>> r;
        I c = fill(*obj, r);
        for (auto& p : r) sx->c[p.first] = fromI<T>(p.second);
        objc = Q(c);
        sx->v = Q(0);
    }
}
template <class T>
static std::shared_ptr<Witness> point(const Num& n, const Simplex<T>& sx, const std::map<int, int>& col, const std::vector<int>& nc) {
    auto w = std::make_shared<Witness>();
    try {
        for (auto& p : col) {
            Q q = sx.value(p.second);
            if (nc[p.second] >= 0) q = q + neg(sx.value(nc[p.second]));
            else q = q + Q(n.slo(p.first));
            w->v[p.first] = q;
        }
    } catch (LPFail&) { return nullptr; }
    return w;
}
static bool holds(const Witness& w, const Lin& e) {
    Q s(e.c);
    for (auto& p : e.t) {
        auto it = w.v.find(p.first);
        if (it == w.v.end()) return false;
        s = s + it->second * Q(p.second);
    }
    return s.n <= 0;
}
static bool satisfies(const Num& n, const Witness& w, const std::vector<Lin>& rows, const std::map<int, int>& col) {
    try {
        for (size_t i = rows.size(); i-- > 0;) if (!holds(w, rows[i])) return false;
        for (auto& p : col) {
            auto it = w.v.find(p.first);
            if (it == w.v.end()) return false;
            I l = n.slo(p.first), h = n.shi(p.first);
            if (l > I_MIN && less(it->second, Q(l))) return false;
            if (h < I_MAX && less(Q(h), it->second)) return false;
        }
    } catch (LPFail&) { return false; }
    return true;
}
static void remember(const Num& n, std::shared_ptr<Witness> w) {
    if (!w) return;
    n.wit.push_back(std::move(w));
    if (n.wit.size() > 8) n.wit.erase(n.wit.begin());
}
long g_witHits = 0;

// 1 feasible, 0 infeasible, -1 arithmetic gave up
template <class T> static int lpFeasible(const Num& n, const std::vector<Lin>& rows, const std::map<int, int>& col) {
    std::unique_ptr<Simplex<T>> sx; std::vector<int> nc; Q oc;
    try {
        build(n, rows, col, sx, nc, nullptr, oc);
        bool res = sx->feasible();
        if (res) remember(n, point(n, *sx, col, nc));
        return res;
    } catch (LPFail&) { return -1; }
}
template <class T> static int lpMaximize(const Num& n, const std::vector<Lin>& rows, const std::map<int, int>& col, const Lin& e, I& out) {
    std::unique_ptr<Simplex<T>> sx; std::vector<int> nc; Q oc;
    try {
        build(n, rows, col, sx, nc, &e, oc);
        if (!sx->feasible()) { out = I_MIN; return 1; }
        if (sx->maximize() != 0) return 0;
        Q r = sx->v + oc;
        out = floordiv(r.n, r.d);
        remember(n, point(n, *sx, col, nc));
        return 1;
    } catch (LPFail&) { return -1; }
}
bool Num::feasible(const std::vector<Lin>& extra0) const {
    std::vector<Lin> extra;
    for (auto& e0 : extra0) {
        Lin e = simp(e0);
        if (lo(e) > 0) return false;
        if (hi(e) <= 0) continue;
        extra.push_back(e);
    }
    if (!extra0.empty() && extra.empty()) return true;
    std::vector<Lin> rows;
    std::map<int, int> col;
    if (extra.empty()) {
        for (auto& e : cons.r()) {
            Lin f = simp(e);
            if (f.t.empty()) { if (f.c > 0) return false; continue; }
            if (lo(f) > 0) return false;
            rows.push_back(f);
            for (auto& p : f.t) if (!col.count(p.first)) { int k = (int)col.size(); col[p.first] = k; }
        }
        if (rows.empty()) return true;
    } else {
        component(*this, extra, rows, col);
    }
    for (size_t i = wit.size(); i-- > 0;) if (satisfies(*this, *wit[i], rows, col)) { ++g_witHits; return true; }
    ++g_lpCalls;
    int r = lpFeasible<R64>(*this, rows, col);
    if (r < 0) r = lpFeasible<Q>(*this, rows, col);
    return r != 0;
}

bool Num::maximize(const Lin& e0, I& out) const {
    Lin e = simp(e0);
    if (e.t.empty()) { out = e.c; return true; }
    std::vector<Lin> rows;
    std::map<int, int> col;
    component(*this, {e}, rows, col);
    rows.pop_back();
    if (rows.empty()) {
        I h = hi(e);
        if (h >= I_MAX) return false;
        out = h;
        return true;
    }
    ++g_lpCalls;
    int r = lpMaximize<R64>(*this, rows, col, e, out);
    if (r < 0) r = lpMaximize<Q>(*this, rows, col, e, out);
    return r > 0;
}

void Maximizer::want(const Lin& e) {
    Lin f = n.simp(e);
    for (auto& p : f.t) if (!col.count(p.first)) { int k = (int)col.size(); col[p.first] = k; }
}
void Maximizer::init() {
    if (!ready && !partial) rows = n.cons.r();
    ready = true;
    nc.clear(); broken = infeasible = false;
    std::vector<Lin> rs;
    for (auto& e : rows) {
        Lin f = n.simp(e);
        if (f.t.empty()) { if (f.c > 0) infeasible = true; continue; }
        for (auto& p : f.t) if (!col.count(p.first)) { int k = (int)col.size(); col[p.first] = k; }
        rs.push_back(std::move(f));
    }
    Q oc;
    try {
        build(n, rs, col, sx, nc, nullptr, oc);
        if (!sx->feasible()) infeasible = true;
    } catch (LPFail&) { broken = true; }
}
void Maximizer::add(const Lin& e0) {
    rows.push_back(e0);
    if (infeasible || broken) return;
    Lin e = n.simp(e0);
    I c = e.c;
    std::vector<std::pair<int, I>> r;
    for (auto& p : e.t) {
        auto it = col.find(p.first);
        if (it == col.end()) { broken = true; return; }
        r.push_back({it->second, p.second});
        if (nc[it->second] >= 0) r.push_back({nc[it->second], -p.second});
        else c += p.second * n.slo(p.first);
    }
    if (r.empty()) { if (c > 0) infeasible = true; return; }
    sx->row(std::move(r), Q(-c));
    try { if (!sx->feasible()) infeasible = true; } catch (LPFail&) { broken = true; }
}
bool Maximizer::maximize(const Lin& e0, I& out) {
    if (!ready) init();
    if (infeasible) { out = I_MIN; return true; }
    Lin e = n.simp(e0);
    I add = e.c;
    std::vector<std::pair<int, I>> t;
    for (auto& p : e.t) {
        auto it = col.find(p.first);
        if (it == col.end()) {
            I b = p.second > 0 ? n.shi(p.first) : n.slo(p.first);
            if (b <= I_MIN || b >= I_MAX) return false;
            add += b * p.second;
        } else {
            t.push_back({it->second, p.second});
            if (nc[it->second] >= 0) t.push_back({nc[it->second], -p.second});
            else add += p.second * n.slo(p.first);
        }
    }
    if (t.empty()) { out = add; return true; }
    for (int attempt = 0; attempt < 2; ++attempt) {
        if (broken) { init(); if (broken || infeasible) return !partial && n.maximize(e0, out); }
        ++g_lpCalls;
        try {
            Simplex<R64>& S = *sx;
            for (auto& q : S.c) q = R64(0);
            S.v = Q(0);
            for (auto& p : t) {
                int w = S.where[p.first];
                if (w < 0) {
                    for (int j = 0; j < S.n; ++j) if (S.N[j] == p.first) { S.c[j] = S.c[j] + fromI<R64>(p.second); break; }
                } else {
                    S.v = S.v + Q(p.second) * S.b[w];
                    for (int j = 0; j < S.n; ++j) if (!S.A[w][j].zero()) S.c[j] = S.c[j] + fromI<R64>(-p.second) * S.A[w][j];
                }
            }
            if (S.maximize() == 1) return false;
            Q r = S.v + Q(add);
            out = floordiv(r.n, r.d);
            std::vector<long double> pt(col.size());
            auto val = [&](int x) { if (S.where[x] < 0) return 0.0L; auto& q = S.b[S.where[x]]; return (long double)q.n / (long double)q.d; };
            for (auto& p : col) pt[p.second] = val(p.second) + (nc[p.second] >= 0 ? -val(nc[p.second]) : (long double)n.slo(p.first));
            if (pts.size() < 40) pts.push_back(std::move(pt)); else pts[g_lpCalls % 40] = std::move(pt);
            return true;
        } catch (LPFail&) { broken = true; }
    }
    return false;
}
bool Maximizer::reaches(const Lin& e0, I v) const {
    Lin e = n.simp(e0);
    long double add = (long double)e.c;
    std::vector<std::pair<int, long double>> t;
    for (auto& p : e.t) {
        auto it = col.find(p.first);
        if (it == col.end()) {
            I b = p.second > 0 ? n.shi(p.first) : n.slo(p.first);
            if (b <= I_MIN || b >= I_MAX) return false;
            add += (long double)b * (long double)p.second;
        } else t.push_back({it->second, (long double)p.second});
    }
    for (auto& pt : pts) {
        long double x = add;
        for (auto& q : t) x += q.second * pt[q.first];
        if (x >= (long double)v) return true;
    }
    return false;
}
void reduceCons(Num& n) {
    std::vector<Lin> rows = n.cons.r();
    if (rows.size() < 2) return;
    // short rows are the most useful ones: a row is kept when those before it do not imply it
    std::stable_sort(rows.begin(), rows.end(), [](const Lin& a, const Lin& b) { return a.t.size() < b.t.size(); });
    Maximizer M(n, rows, 0);
    std::vector<Lin> keep;
    for (auto& r : rows) {
        if (M.entails(r)) continue;
        keep.push_back(r);
        M.add(r);
    }
    n.cons.w() = keep;
}
