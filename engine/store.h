// Constraint store of one abstract state: per-symbol intervals, linear
// inequalities (each "e <= 0") and disequalities ("e != 0").
#pragma once
#include "num.h"

struct SymTab {
    std::vector<I> lo, hi;
    std::vector<std::string> name;
    int fresh(I l, I h, const std::string& n) {
        lo.push_back(l); hi.push_back(h); name.push_back(n);
        return (int)lo.size() - 1;
    }
};
extern SymTab g_sym;

template <class T> struct Cow {
    std::shared_ptr<T> p;
    Cow() : p(std::make_shared<T>()) {}
    const T& r() const { return *p; }
    T& w() {
        if (p.use_count() > 1) p = std::make_shared<T>(*p);
        return *p;
    }
};

inline Lin normLe(Lin e) { // e <= 0, divide by gcd with integer tightening
    if (e.t.empty()) return e;
    I g = 0;
    for (auto& p : e.t) g = igcd(g, p.second);
    if (g > 1) {
        for (auto& p : e.t) p.second /= g;
        e.c = -floordiv(-e.c, g);
    }
    return e;
}
inline Lin normEq(Lin e) { // sign-normalise
    if (!e.t.empty() && e.t[0].second < 0) e = -e;
    return e;
}

struct Witness { std::map<int, Q> v; };  // a point that satisfied the store when it was found

struct Num {
    mutable std::vector<std::shared_ptr<Witness>> wit; // rechecked before every use
    Cow<std::map<int, std::pair<I, I>>> bnd;
    Cow<std::vector<Lin>> cons;
    Cow<std::vector<Lin>> ne;
    Cow<std::map<int, Lin>> eq; // solved equalities: symbol = expression

    I slo(int s) const {
        auto it = bnd.r().find(s);
        return it == bnd.r().end() ? g_sym.lo[s] : it->second.first;
    }
    I shi(int s) const {
        auto it = bnd.r().find(s);
        return it == bnd.r().end() ? g_sym.hi[s] : it->second.second;
    }
    // lo/hi expect simplified expressions for best precision
    I lo(const Lin& e) const {
        I v = e.c;
        for (auto& p : e.t) {
            I b = p.second > 0 ? slo(p.first) : shi(p.first);
            if (b <= I_MIN || b >= I_MAX) return I_MIN;
            v += b * p.second;
        }
        return v;
    }
    I hi(const Lin& e) const {
        I v = e.c;
        for (auto& p : e.t) {
            I b = p.second > 0 ? shi(p.first) : slo(p.first);
            if (b <= I_MIN || b >= I_MAX) return I_MAX;
            v += b * p.second;
        }
        return v;
    }
    bool constOf(const Lin& e0, I& v) const {
        if (e0.t.empty()) { v = e0.c; return true; }
        Lin e = simp(e0);
        if (e.t.empty()) { v = e.c; return true; }
        I l = lo(e);
        if (l <= I_MIN) return false;
        if (l != hi(e)) return false;
        v = l;
        return true;
    }
    // replace interval-constant symbols
    Lin simp(const Lin& e0) const {
        bool any = false, q = false;
        auto& em = eq.r();
        for (auto& p : e0.t) {
            if (slo(p.first) == shi(p.first)) any = true;
            if (!em.empty() && em.count(p.first)) q = true;
        }
        if (!any && !q) return e0;
        Lin e;
        if (q) {
            e = Lin(e0.c);
            for (auto& p : e0.t) {
                auto it = em.find(p.first);
                if (it == em.end()) e = addmul(e, Lin::sym(p.first), p.second);
                else e = addmul(e, it->second, p.second);
            }
            any = true;
        } else e = e0;
        if (!any) return e;
        Lin r(e.c);
        for (auto& p : e.t) {
            if (slo(p.first) == shi(p.first)) r.c += slo(p.first) * p.second;
            else r.t.push_back(p);
        }
        return r;
    }
    bool setLo(int s, I v) {
        if (v <= slo(s)) return true;
        I h = shi(s);
        bnd.w()[s] = {v, h};
        return v <= h;
    }
    bool setHi(int s, I v) {
        if (v >= shi(s)) return true;
        I l = slo(s);
        bnd.w()[s] = {l, v};
        return l <= v;
    }
    bool tightenNe(int s) {
        bool ch = true;
        while (ch) {
            ch = false;
            for (auto& e : ne.r()) {
                if (e.coef(s) == 0) continue;
                Lin f = simp(e);
                if (f.t.empty()) { if (f.c == 0) return false; continue; }
                if (f.t.size() != 1 || f.t[0].first != s) continue;
                if ((-f.c) % f.t[0].second != 0) continue;
                I v = (-f.c) / f.t[0].second;
                if (slo(s) == v) { if (!setLo(s, v + 1)) return false; ch = true; break; }
                if (shi(s) == v) { if (!setHi(s, v - 1)) return false; ch = true; break; }
            }
        }
        return true;
    }
    // raw feasibility of the store extended with extra (each <= 0); false
    // means certainly infeasible.
    bool feasible(const std::vector<Lin>& extra) const;
    // maximum of e over the store; returns false if unbounded / unknown
    bool maximize(const Lin& e, I& out) const;
    bool entails(const Lin& e0) const { // e <= 0 ?
        Lin e = simp(e0);
        if (hi(e) <= 0) return true;
        if (e.t.empty()) return false;
        if (lo(e) > 0) return false;
        Lin n = normLe(-e + Lin(1));
        return !feasible({n});
    }
    bool entailsEq(const Lin& e) const {
        I v;
        if (constOf(e, v)) return v == 0;
        return entails(e) && entails(-e);
    }
    bool entailsNe(const Lin& e0) const {
        Lin e = simp(e0);
        I v;
        if (constOf(e, v)) return v != 0;
        if (lo(e) > 0 || hi(e) < 0) return true;
        Lin q = normEq(e);
        for (auto& x : ne.r()) if (x == q) return true;
        return entails(e + Lin(1)) || entails(-e + Lin(1));
    }
    // add e <= 0.  Returns false when the store becomes infeasible.
    bool addLe(const Lin& e0, bool check = true) {
        Lin e = normLe(simp(e0));
        if (hi(e) <= 0) return true;
        if (lo(e) > 0) return false;
        // tighten with known disequality e != 0
        {
            Lin q = normEq(e);
            for (auto& x : ne.r()) if (x == q) { e.c += 1; break; }
            if (lo(e) > 0) return false;
        }
        if (e.t.size() == 1) {
            int s = e.t[0].first; I a = e.t[0].second;
            if (a > 0) { if (!setHi(s, floordiv(-e.c, a))) return false; }
            else { if (!setLo(s, -floordiv(-e.c, -a))) return false; }
            if (!tightenNe(s)) return false;
            if (!propagate(s, 0)) return false;
        } else {
            for (auto& x : cons.r()) {
                if (x.t == e.t) {
                    if (x.c >= e.c) return true;
                }
            }
            {
                Lin m = -e;
                for (auto& x : cons.r()) if (x.t == m.t && x.c == m.c) return addEq(e);
            }
            auto& cw = cons.w();
            for (size_t i = 0; i < cw.size(); ++i)
                if (cw[i].t == e.t) { cw.erase(cw.begin() + i); break; }
            cw.push_back(e);
            if (!propCons(e, 0)) return false;
        }
        if (check && !feasible({})) return false;
        return true;
    }
    bool propCons(const Lin& e, int depth) {
        // bounds from a single constraint
        for (auto& p : e.t) {
            I l = e.c; bool inf = false;
            for (auto& q : e.t) {
                if (q.first == p.first) continue;
                I b = q.second > 0 ? slo(q.first) : shi(q.first);
                if (b <= I_MIN || b >= I_MAX) { inf = true; break; }
                l += b * q.second;
            }
            if (inf) continue;
            // a*x <= -l
            I a = p.second;
            if (a > 0) {
                I v = floordiv(-l, a);
                if (v < shi(p.first)) {
                    if (!setHi(p.first, v)) return false;
                    if (!tightenNe(p.first)) return false;
                    if (depth < 2 && !propagate(p.first, depth + 1)) return false;
                }
            } else {
                I v = -floordiv(-l, -a);
                if (v > slo(p.first)) {
                    if (!setLo(p.first, v)) return false;
                    if (!tightenNe(p.first)) return false;
                    if (depth < 2 && !propagate(p.first, depth + 1)) return false;
                }
            }
        }
        return true;
    }
    bool propagate(int s, int depth) {
        std::vector<Lin> todo;
        for (auto& x : cons.r()) if (x.coef(s) != 0) todo.push_back(x);
        for (auto& x : todo) if (!propCons(x, depth)) return false;
        return true;
    }
    bool addEq(const Lin& e0) {
        Lin e = simp(e0);
        if (e.t.empty()) return e.c == 0;
        if (lo(e) > 0 || hi(e) < 0) return false;
        if (e.t.size() == 1) {
            I a = e.t[0].second;
            if ((-e.c) % a != 0) return false;
            I v = (-e.c) / a;
            int s = e.t[0].first;
            if (!setLo(s, v) || !setHi(s, v)) return false;
            return tightenNe(s) && propagate(s, 0) && feasible({});
        }
        int x = -1; I a = 0;
        for (auto& p : e.t) if (p.second == 1 || p.second == -1) { x = p.first; a = p.second; }
        if (x < 0) {
            I g = 0;
            for (auto& p : e.t) g = igcd(g, p.second);
            if (e.c % g != 0) return false;
            auto& cw = cons.w();
            cw.push_back(normLe(e)); cw.push_back(normLe(-e));
            return propCons(normLe(e), 0) && propCons(normLe(-e), 0) && feasible({});
        }
        // a*x + rest = 0  =>  x = -rest/a
        Lin R = addmul(Lin::sym(x), e, a == 1 ? -1 : 1);
        std::map<int, Lin> one; one[x] = R;
        auto& em = eq.w();
        for (auto& p : em) if (p.second.coef(x) != 0) p.second = subst(p.second, one);
        em[x] = R;
        std::vector<Lin> re;
        {
            bool any = false;
            for (auto& c : cons.r()) if (c.coef(x) != 0) { any = true; break; }
            if (any) {
                auto& cw = cons.w();
                std::vector<Lin> keep;
                for (auto& c : cw) if (c.coef(x) != 0) re.push_back(subst(c, one)); else keep.push_back(c);
                cw.swap(keep);
            }
        }
        std::vector<Lin> nre;
        {
            bool any = false;
            for (auto& c : ne.r()) if (c.coef(x) != 0) { any = true; break; }
            if (any) {
                auto& cw = ne.w();
                std::vector<Lin> keep;
                for (auto& c : cw) if (c.coef(x) != 0) nre.push_back(subst(c, one)); else keep.push_back(c);
                cw.swap(keep);
            }
        }
        I l = slo(x), h = shi(x);
        for (auto& c : re) if (!addLe(c, false)) return false;
        if (l > I_MIN && !addLe(Lin(l) - R, false)) return false;
        if (h < I_MAX && !addLe(R - Lin(h), false)) return false;
        for (auto& c : nre) if (!addNe(c)) return false;
        return feasible({});
    }
    bool addNe(const Lin& e0) {
        Lin e = simp(e0);
        if (e.t.empty()) return e.c != 0;
        if (lo(e) > 0 || hi(e) < 0) return true;
        if (e.t.size() == 1) {
            ne.w().push_back(normEq(e));
            return tightenNe(e.t[0].first);
        }
        // polyhedral consequence: if one strict side is impossible
        bool lt = feasible({e + Lin(1)});
        bool gt = feasible({-e + Lin(1)});
        if (!lt && !gt) return false;
        if (!lt) return addLe(-e + Lin(1));
        if (!gt) return addLe(e + Lin(1));
        ne.w().push_back(normEq(e));
        return true;
    }
};

// Repeated maximisation over one store: the dictionary is kept between calls.
struct Maximizer {
    const Num& n;
    std::unique_ptr<Simplex<R64>> sx;
    std::map<int, int> col;
    std::vector<int> nc;
    bool infeasible = false, broken = false;
    bool ready = false, partial = false;
    explicit Maximizer(const Num& n) : n(n) {}
    // only the bounds of n and the given rows; more can be added
    Maximizer(const Num& n, const std::vector<Lin>& all, int) : n(n) { partial = true; for (auto& e : all) want(e); init(); }
    std::vector<Lin> rows;
    void want(const Lin& e);
    void init();
    void add(const Lin& e);
    bool maximize(const Lin& e0, I& out);
    // is e known to get as large as v? (from points met so far; used to skip useless work only)
    std::vector<std::vector<long double>> pts;
    bool reaches(const Lin& e0, I v) const;
    bool entails(const Lin& e) {
        if (n.hi(e) <= 0) return true;
        I m;
        return maximize(e, m) && m <= 0;
    }
    bool entailsEq(const Lin& e) { I v; if (n.constOf(e, v)) return v == 0; return entails(e) && entails(-e); }
};
// drops constraints implied by the remaining ones
void reduceCons(Num& n);
