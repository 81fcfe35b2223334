// Abstract domain operations: canonical form, join, widening, inclusion,
// projection of dead symbols, garbage collection with leak detection.
#include "interp.h"

int State::add(Region&& r) {
    static int next = 1000;
    int id = next++;
    mem.w()[id] = std::make_shared<Region>(std::move(r));
    return id;
}

static void sigInt(std::string& sig, const State& s, const Lin& e, bool disc, int w, bool env) {
    I v;
    if (!s.n.constOf(e, v)) { sig += 'n'; return; }
    if (disc || w == 1 || (env && v >= -2 && v <= 0) || (!env && (v == -1 || v == -2)))
        sig += istr(v);
    else sig += 'n';
}

// Visits every value reachable from the roots in a canonical order.
// f(Lin&) is called for every numeric slot.  S may be const State.
namespace {
struct Walker {
    const State& cs;
    State* ws; // when rewriting
    std::vector<int>& regs;
    std::map<int, int> idx;
    std::string* sig;
    std::function<void(Lin&)> f;
    void ref(int r) {
        auto it = idx.find(r);
        int k;
        if (it == idx.end()) { k = (int)regs.size(); idx[r] = k; regs.push_back(r); }
        else k = it->second;
        if (sig) { *sig += 'r'; *sig += std::to_string(k); }
    }
    void lin(const Lin& e) { f(const_cast<Lin&>(e)); }
    void val(const Val& v, bool disc, int w, bool env) {
        switch (v.k) {
        case VUndef: if (sig) *sig += 'u'; break;
        case VOpq: if (sig) *sig += 'o'; break;
        case VInt: if (sig) sigInt(*sig, cs, v.e, disc, w, env); lin(v.e); break;
        case VPtr:
            if (sig) *sig += 'p';
            ref(v.reg);
            if (sig) {
                I c;
                if (v.reg == 0 || !cs.has(v.reg) || !cs.R(v.reg).buf) {
                    if (cs.n.constOf(v.e, c)) { *sig += '+'; *sig += istr(c); } else *sig += "+n";
                }
            }
            lin(v.e);
            break;
        case VFn: if (sig) { *sig += 'f'; *sig += std::to_string((size_t)v.fn); } break;
        case VSlot: if (sig) { *sig += 's'; *sig += istr(v.e.c); } ref(v.reg); break;
        case VAgg:
            if (sig) *sig += '{';
            for (auto& x : *v.agg) val(x, disc, w, env);
            if (sig) *sig += '}';
            break;
        }
        if (sig) *sig += ';';
    }
    void run(const std::vector<Val>& extra) {
        for (auto& v : ws ? ws->roots : cs.roots) val(v, false, 8, false);
        if (sig) *sig += '|';
        for (size_t i = 0; i < cs.fr.size(); ++i) {
            auto& env = ws ? ws->fr[i].w() : cs.fr[i].r();
            for (auto& p : env) {
                if (sig) { *sig += std::to_string((size_t)p.first & 0xffffff); *sig += ':'; }
                int w = p.first->getType()->isIntegerTy() ? (p.first->getType()->getIntegerBitWidth() + 7) / 8 : 8;
                val(p.second, false, w, true);
            }
            if (sig) *sig += '|';
        }
        for (auto& v : extra) val(v, false, 4, true);
        for (auto& p : ws ? ws->g : cs.g) { if (sig) *sig += p.first; lin(p.second); }
        for (auto& p : cs.gi) if (sig) { *sig += p.first; *sig += std::to_string(p.second); }
        for (size_t i = 0; i < regs.size(); ++i) {
            int r = regs[i];
            if (r == 0 || !cs.has(r)) continue;
            const Region& R = ws ? ws->W(r) : cs.R(r);
            if (sig) {
                *sig += "\n#"; *sig += std::to_string(i); *sig += 'K'; *sig += std::to_string(R.kind);
                *sig += R.live ? 'L' : 'D'; *sig += R.weak ? 'w' : 's'; *sig += R.buf ? 'b' : 'o';
                *sig += std::to_string(R.alloc); *sig += R.cls;
                if (R.gv) *sig += std::to_string((size_t)R.gv);
                for (auto& p : R.gi) { *sig += p.first; *sig += '='; *sig += std::to_string(p.second); *sig += ','; }
            }
            lin(R.size);
            if (R.link) ref(R.link);
            for (auto& p : R.g) { if (sig) *sig += p.first; lin(p.second); }
            for (auto& p : R.strs) {
                if (sig) { *sig += 'S'; *sig += std::to_string(p.first); }
                lin(p.second.len);
                if (p.second.buf && cs.has(p.second.buf)) ref(p.second.buf);
            }
            if (sig && g_E && g_E->content && g_E->posOff >= 0) {
                // a buffer that holds the data at the position of the stream is kept apart from one that does not
                auto q = R.cells.find(g_E->posOff);
                if (q != R.cells.end() && q->second.v.k == VInt) for (auto& p : R.cells) {
                    const Val& v = p.second.v;
                    if (v.k == VInt && p.second.w == 4 && cs.n.simp(v.e) == Lin(0)) { *sig += "=Z"; *sig += std::to_string(p.first); }
                    if (v.k != VPtr || !v.reg || !cs.has(v.reg) || !cs.R(v.reg).g.count("tag")) continue;
                    Lin d = cs.n.simp(cs.R(v.reg).g.at("tag") + v.e - q->second.v.e);
                    *sig += d.isConst() && d.c == 0 ? "=T" : "=F";
                }
            }
            for (auto& p : R.cells) {
                if (sig) { *sig += ' '; *sig += std::to_string(p.first); *sig += '/'; *sig += std::to_string(p.second.w); *sig += ':'; }
                val(p.second.v, p.second.disc, p.second.w, false);
            }
        }
    }
};
}

Engine::Canon Engine::canon(const State& s, const std::vector<Val>& extra) {
    Canon c;
    Walker w{s, nullptr, c.regs, {}, &c.sig, [&](Lin& e) { c.slots.push_back(s.n.simp(e)); }};
    w.run(extra);
    return c;
}

// ------------------------------------------------------------ projection
// Returns inequality rows (e <= 0) over the symbols accepted by keep, implied
// by the store n together with phi_k = e_k.  subs receives the elimination.
static void projectRows(const Num& n, const std::vector<std::pair<int, Lin>>& phi,
                        const std::function<bool(int)>& keep, std::vector<Lin>& out,
                        std::vector<Lin>* neOut) {
    std::vector<Lin> rows = n.cons.r();
    std::vector<Lin> nes = n.ne.r();
    std::vector<Lin> eqs;
    std::set<int> syms;
    for (auto& p : phi) eqs.push_back(Lin::sym(p.first) - n.simp(p.second));
    for (auto& p : n.eq.r()) eqs.push_back(Lin::sym(p.first) - p.second);
    for (auto& e : rows) { e = n.simp(e); for (auto& p : e.t) syms.insert(p.first); }
    for (auto& e : eqs) for (auto& p : e.t) syms.insert(p.first);
    for (auto& e : nes) e = n.simp(e);
    // bounds of the symbols involved, as rows
    for (int s : syms) {
        I l = n.slo(s), h = n.shi(s);
        bool isPhi = false;
        for (auto& p : phi) if (p.first == s) isPhi = true;
        if (isPhi) continue;
        if (l > I_MIN) rows.push_back(Lin(l) - Lin::sym(s));
        if (h < I_MAX) rows.push_back(Lin::sym(s) - Lin(h));
    }
    std::vector<char> done(eqs.size(), 0);
    for (size_t i = 0; i < eqs.size(); ++i) {
        int x = -1; I a = 0;
        for (auto& p : eqs[i].t)
            if (!keep(p.first) && (p.second == 1 || p.second == -1)) { x = p.first; a = p.second; }
        if (x < 0) continue;
        Lin R = addmul(Lin::sym(x), eqs[i], a == 1 ? -1 : 1);
        std::map<int, Lin> one; one[x] = R;
        for (size_t j = 0; j < eqs.size(); ++j) if (j != i && eqs[j].coef(x) != 0) {
            eqs[j] = subst(eqs[j], one);
            if (done[j]) {}
        }
        for (auto& e : rows) if (e.coef(x) != 0) e = subst(e, one);
        for (auto& e : nes) if (e.coef(x) != 0) e = subst(e, one);
        done[i] = 1;
        eqs[i] = Lin(0);
    }
    for (size_t i = 0; i < eqs.size(); ++i)
        if (!done[i] && !eqs[i].t.empty()) { rows.push_back(eqs[i]); rows.push_back(-eqs[i]); }
    // eliminate remaining dead symbols by Fourier-Motzkin (bounded)
    std::set<int> dead;
    for (auto& e : rows) for (auto& p : e.t) if (!keep(p.first)) dead.insert(p.first);
    while (!dead.empty()) {
        int best = -1; size_t bc = 0; 
        for (int d : dead) {
            size_t P = 0, N = 0;
            for (auto& e : rows) { I c = e.coef(d); if (c > 0) ++P; else if (c < 0) ++N; }
            size_t cost = P * N;
            if (best < 0 || cost < bc) { best = d; bc = cost; }
        }
        dead.erase(best);
        std::vector<Lin> pos, neg, rest;
        for (auto& e : rows) {
            I c = e.coef(best);
            if (c > 0) pos.push_back(e); else if (c < 0) neg.push_back(e); else rest.push_back(e);
        }
        if (pos.size() * neg.size() <= pos.size() + neg.size() + 24 && rest.size() < 160) {
            for (auto& p : pos) for (auto& q : neg) {
                I a = p.coef(best), b = -q.coef(best);
                if (a > (I)1 << 40 || b > (I)1 << 40) continue;
                Lin r = normLe(p * b + q * a);
                if (r.t.empty()) continue;
                bool dup = false;
                for (auto& x : rest) if (x.t == r.t) { dup = true; if (r.c > x.c) x.c = r.c; break; }
                if (!dup) rest.push_back(r);
            }
        }
        rows.swap(rest);
    }
    std::set<std::vector<std::pair<int, I>>> seen;
    for (auto& e : rows) {
        Lin r = normLe(e);
        if (r.t.empty()) continue;
        out.push_back(r);
    }
    if (neOut) for (auto& e : nes) {
        bool ok = !e.t.empty();
        for (auto& p : e.t) if (!keep(p.first)) ok = false;
        if (ok) neOut->push_back(e);
    }
}

void Engine::project(State& s, const std::vector<Val>& extra) {
    Canon c = canon(s, extra);
    // note: slots in c are simplified copies; rewrite the state in place so
    // that solved/constant symbols disappear from it
    std::vector<int> regs;
    std::vector<Val>& ex = const_cast<std::vector<Val>&>(extra);
    Walker w{s, &s, regs, {}, nullptr, [&](Lin& e) { e = s.n.simp(e); }};
    w.run(ex);
    std::set<int> live;
    for (auto& e : c.slots) for (auto& p : e.t) live.insert(p.first);
    // memo entries survive only when all their symbols are live
    {
        std::map<MemoKey, Lin> keep;
        for (auto& p : s.memo.r()) {
            MemoKey k = p.first; k.a = s.n.simp(k.a);
            Lin v = s.n.simp(p.second);
            bool ok = true;
            for (auto& q : k.a.t) if (!live.count(q.first)) ok = false;
            for (auto& q : v.t) if (!live.count(q.first)) ok = false;
            if (ok) keep[k] = v;
        }
        s.memo.w().swap(keep);
    }
    std::vector<Lin> rows, ne;
    projectRows(s.n, {}, [&](int x) { return live.count(x) != 0; }, rows, &ne);
    Num nn;
    for (int x : live) {
        I l = s.n.slo(x), h = s.n.shi(x);
        if (l != g_sym.lo[x] || h != g_sym.hi[x]) nn.bnd.w()[x] = {l, h};
    }
    for (auto& r : rows) nn.addLe(r, false);
    for (auto& e : ne) nn.ne.w().push_back(e);
    s.n = nn;
}

// ------------------------------------------------------------------ gc
void Engine::gc(State& s, std::vector<Val>& extra, const Instruction* at, bool leaks) {
    std::set<int> seen;
    std::vector<int> work;
    std::function<void(const Val&)> go = [&](const Val& v) {
        if (v.k == VPtr || v.k == VSlot) { if (v.reg && seen.insert(v.reg).second) work.push_back(v.reg); }
        else if (v.k == VAgg) for (auto& x : *v.agg) go(x);
    };
    for (auto& v : s.roots) go(v);
    for (auto& f : s.fr) for (auto& p : f.r()) go(p.second);
    for (auto& v : extra) go(v);
    while (!work.empty()) {
        int r = work.back(); work.pop_back();
        if (!s.has(r)) continue;
        const Region& R = s.R(r);
        if (R.link && seen.insert(R.link).second) work.push_back(R.link);
        for (auto& p : R.cells) go(p.second.v);
        for (auto& p : R.sym) go(p.second.v);
        for (auto& p : R.g) (void)p;
    }
    std::vector<int> drop;
    for (auto& p : s.mem.r()) {
        if (p.first == 0 || seen.count(p.first)) continue;
        drop.push_back(p.first);
        const Region& R = *p.second;
        if (leaks && R.kind == RHeap && R.live && R.alloc && !R.gi.count("escaped"))
            alarm("R01", R.site ? R.site : at, "memory allocated here is no longer reachable and was never released", &s);
        if (leaks && R.kind == RFile && R.live)
            alarm("R02", R.site ? R.site : at, "handle opened here is no longer reachable and was never closed", &s);
        if (leaks && R.kind == RHeap && R.live)
            for (auto& g : R.gi) if (g.first.compare(0, 6, "codec@") == 0 && g.second == 1)
                alarm("R02", R.site ? R.site : at, "codec state opened here is dropped without being released", &s);
    }
    if (!drop.empty()) { auto& m = s.mem.w(); for (int d : drop) m.erase(d); }
    // string buffers that only the string itself refers to
    std::vector<int> ids;
    for (auto& p : s.mem.r()) ids.push_back(p.first);
    for (int id : ids) {
        if (!id) continue;
        bool any = false;
        for (auto& p : s.R(id).strs) if (p.second.buf && !s.has(p.second.buf)) any = true;
        if (any) for (auto& p : s.W(id).strs) if (p.second.buf && !s.has(p.second.buf)) p.second.buf = 0;
        const Region& R = s.R(id);
        if (R.buf && (!R.cells.empty() || !R.sym.empty() || !R.weak)) {
            Region& W = s.W(id);
            if (W.kind == RInput && W.live) { // delivered data does not change: remember where it was seen to have a terminator
                I z, far = -1;
                for (auto& q : W.cells) if (q.second.w == 1 && q.second.v.k == VInt && s.n.constOf(q.second.v.e, z) && z == 0) far = std::max<I>(far, q.first);
                I had;
                if (far >= 0 && !(W.g.count("nul") && !(s.n.constOf(W.g["nul"], had) && had < far))) W.g["nul"] = Lin(far);
            }
            W.cells.clear(); W.sym.clear(); W.weak = true;
        } else if (!R.sym.empty()) {
            Region& W = s.W(id);
            W.sym.clear();
        }
    }
}

void Engine::pruneEnv(State& s, const Function* f, const BasicBlock* b) {
    auto& li = fi(f).livein[b];
    auto& e = s.env();
    for (auto it = e.begin(); it != e.end();) {
        if (!li.count(it->first) && !(isa<PHINode>(it->first) && cast<PHINode>(it->first)->getParent() == b)) it = e.erase(it);
        else ++it;
    }
}

// ------------------------------------------------------------------ join
typedef std::map<int, Q> QVec; // key -1: constant
static QVec toVec(const Lin& e) {
    QVec v;
    for (auto& p : e.t) v[p.first] = Q(p.second);
    if (e.c != 0) v[-1] = Q(e.c);
    return v;
}
static void axpy(QVec& a, const QVec& b, const Q& k) {
    for (auto& p : b) {
        Q v = a.count(p.first) ? a[p.first] + k * p.second : k * p.second;
        if (v.zero()) a.erase(p.first); else a[p.first] = v;
    }
}

static bool divisible(const Lin& e, I k) {
    if (e.c % k) return false;
    for (auto& p : e.t) if (p.second % k) return false;
    return true;
}
static Lin quotient(Lin e, I k) {
    if (k == 1) return e;
    e.c /= k;
    for (auto& p : e.t) p.second /= k;
    return e;
}
State Engine::join(const State& a, const State& b, std::vector<Val>& ea, std::vector<Val>& eb, int widen) {
    ++merges;
    Canon ca = canon(a, ea), cb = canon(b, eb);
    size_t N = ca.slots.size();
    if (cb.slots.size() != N) throw Incomplete{"internal: join of differently shaped states"};
    std::vector<Lin> res(N);
    struct Basis { QVec vec; int piv; QVec comb; };
    std::vector<Basis> bases;
    std::vector<std::pair<int, Lin>> phA, phB; // phi symbol, expression
    std::map<std::pair<Lin, Lin>, Lin> cache;
    for (size_t i = 0; i < N; ++i) {
        const Lin &x = ca.slots[i], &y = cb.slots[i];
        if (x == y) { res[i] = x; continue; }
        auto key = std::make_pair(x, y);
        auto it = cache.find(key);
        if (it != cache.end()) { res[i] = it->second; continue; }
        QVec d = toVec(x - y), comb;
        bool ok = true;
        try {
            for (auto& B : bases) {
                auto f = d.find(B.piv);
                if (f == d.end()) continue;
                Q k = neg(f->second * inv(B.vec.at(B.piv)));
                axpy(d, B.vec, k);
                axpy(comb, B.comb, k);
            }
        } catch (LPFail&) { ok = false; }
        if (ok && d.empty()) {
            Lin e = x; bool integral = true;
            std::vector<std::pair<int, I>> terms;
            for (auto& p : comb) {
                if (p.second.d != 1) { integral = false; break; }
                I w = -p.second.n;
                e = addmul(e, phA[p.first].second, -w);
                terms.push_back({p.first, w});
            }
            if (integral) {
                for (auto& t : terms) e = addmul(e, Lin::sym(phA[t.first].first), t.second);
                res[i] = e; cache[key] = e;
                continue;
            }
        }
        int k = (int)phA.size();
        I l = std::min(a.n.lo(x), b.n.lo(y)), h = std::max(a.n.hi(x), b.n.hi(y));
        (void)l; (void)h;
        int s = g_sym.fresh(I_MIN, I_MAX, "phi");
        // offsets into arrays of wider items stay multiples of the item size
        I div = 1;
        if (keepDiv) for (I k : {8, 4}) if ((k == 8 || x.t.size() || y.t.size()) && divisible(x, k) && divisible(y, k)) { div = k; break; }
        phA.push_back({s, quotient(x, div)}); phB.push_back({s, quotient(y, div)});
        if (ok && !d.empty()) {
            Basis B;
            if (div != 1) { for (auto& p : d) p.second = p.second * inv(Q(div)); for (auto& p : comb) p.second = p.second * inv(Q(div)); }
            B.vec = d; B.piv = d.begin()->first == -1 && d.size() > 1 ? std::next(d.begin())->first : d.begin()->first;
            axpy(comb, QVec{{k, Q(1)}}, Q(1));
            B.comb = comb;
            bases.push_back(B);
        }
        res[i] = Lin::sym(s) * div; cache[key] = res[i];
    }
    State r = a;
    std::vector<int> regsOut;
    // rewrite
    {
        std::vector<int>& regs = regsOut; size_t i = 0;
        std::vector<Val> ex = ea;
        Walker w{r, &r, regs, {}, nullptr, [&](Lin& e) { e = res[i++]; }};
        w.run(ex);
        ea = ex;
    }
    std::set<int> keep;
    for (auto& e : res) for (auto& p : e.t) keep.insert(p.first);
    auto kf = [&](int x) { return keep.count(x) != 0; };
    std::map<int, Lin> sa, sb;
    for (auto& p : phA) sa[p.first] = p.second;
    for (auto& p : phB) sb[p.first] = p.second;
    std::vector<Lin> rowsA, rowsB, neA, neB;
    projectRows(a.n, phA, kf, rowsA, &neA);
    projectRows(b.n, phB, kf, rowsB, &neB);
    std::set<std::vector<std::pair<int, I>>> tried;
    Num nn;
    Maximizer MA(a.n), MB(b.n);
    auto consider = [&](const Lin& row, int from = 0, bool slot = false) {
        Lin f = row; f.c = 0;
        if (f.t.empty()) return;
        if (!tried.insert(f.t).second) return;
        I ma, mb;
        Lin fa = a.n.simp(subst(f, sa)), fb = b.n.simp(subst(f, sb));
        if (f.t.size() > 1) {
            I h = nn.hi(f);
            if (h < I_MAX && (MA.reaches(fa, h) || MB.reaches(fb, h))) return;
        }
        if (from == 1) ma = -row.c;
        else if (!MA.maximize(fa, ma)) return;
        if (widen) {
            if (f.t.size() > 1 && ma > ((I)1 << 60)) return;
            if (!MB.maximize(fb, mb)) return;
            if (mb > ma) {
                if ((f.t.size() != 1 && !slot) || widen >= 3) return;
                // thresholds for single bounds
                static const I th[] = {-1, 0, 1, 0x7fffffffLL};
                bool ok = false;
                for (I t : th) if (t >= mb) { ma = t; ok = true; break; }
                if (!ok) return;
            }
            nn.addLe(f - Lin(ma), false);
        } else {
            if (from == 2) mb = -row.c;
            else if (!MB.maximize(fb, mb)) return;
            nn.addLe(f - Lin(std::max(ma, mb)), false);
        }
    };
    for (int s : keep) { consider(Lin::sym(s)); consider(-Lin::sym(s)); }
    // the interval of every value, also of those that are sums
    for (auto& e : res) if (e.t.size() > 1) {
        Lin f = e; f.c = 0;
        f = normLe(f); consider(f, 0, true);
        f = normLe(-f); consider(f, 0, true);
    }
    // differences of the values kept in one object
    if (widen <= 1) {
        for (int id : regsOut) {
            if (!r.has(id) || r.R(id).buf) continue;
            std::vector<Lin> v;
            auto put = [&](const Lin& e) { if (!e.t.empty() && std::find(v.begin(), v.end(), e) == v.end()) v.push_back(e); };
            put(r.R(id).size);
            for (auto& g : r.R(id).g) put(g.second);
            for (auto& c : r.R(id).cells) if (c.second.v.k == VInt || c.second.v.k == VPtr) put(c.second.v.e);
            if (v.size() > 10) continue;
            for (size_t x = 0; x < v.size(); ++x) for (size_t y = x + 1; y < v.size(); ++y) {
                Lin f = v[x] - v[y]; f.c = 0;
                if (f.t.size() <= 1 || (v[x].t.size() == 1 && v[y].t.size() == 1)) continue;
                f = normLe(f); consider(f);
                f = normLe(-f); consider(f);
            }
        }
    }
    // positions in arrays of pointers that end in a null pointer
    for (int id : regsOut) {
        if (!r.has(id) || !r.R(id).g.count("nullat")) continue;
        const Lin na = r.R(id).g.at("nullat");
        for (auto& e : res) if (!e.t.empty() && divisible(e, 8)) { Lin f = e - na; f.c = 0; consider(normLe(f)); }
    }
    for (auto& e : rowsA) consider(e, 1);
    if (!widen) for (auto& e : rowsB) consider(e, 2);
    // the same rows with a value of this side replaced by its common name
    auto renamed = [&](const std::vector<Lin>& rows, const std::vector<std::pair<int, Lin>>& ph, int from) {
        if (rows.size() > 60 || ph.size() > 14) return;
        for (auto& e : rows) for (auto& p : ph) {
            const Lin& x = p.second;
            if (x.t.empty() || x.t.size() > 3) continue;
            for (auto& t0 : x.t) {
                I c = e.coef(t0.first);
                if (c == 0) continue;
                I sg = (c > 0) == (t0.second > 0) ? 1 : -1;
                Lin f = addmul(addmul(e, x, -sg), Lin::sym(p.first), sg);
                if (f.t.size() <= e.t.size() + 1) consider(f, from);
                break;
            }
        }
    };
    renamed(rowsA, phA, 1);
    if (!widen) renamed(rowsB, phB, 2);
    // pairwise template rows
    std::vector<int> vs;
    for (auto& p : phA) vs.push_back(p.first);
    std::vector<int> ks;
    for (int s : keep) if (!sa.count(s)) {
        bool used = false;
        for (auto& e : rowsA) if (e.coef(s) != 0) { used = true; break; }
        if (!used) for (auto& e : rowsB) if (e.coef(s) != 0) { used = true; break; }
        if (used) ks.push_back(s);
    }
    // a widening step only looks for new relations when the affine dimension grew
    bool tmpl = widen <= 1;
    for (auto& p : phA) if (!(p.second.t.size() == 1 && p.second.c == 0 && p.second.t[0].second == 1)) tmpl = true;
    if (tmpl && vs.size() <= 14)
        for (size_t i = 0; i < vs.size(); ++i) {
            for (size_t j = i + 1; j < vs.size(); ++j) {
                consider(Lin::sym(vs[i]) - Lin::sym(vs[j]));
                consider(Lin::sym(vs[j]) - Lin::sym(vs[i]));
                if (vs.size() <= 8) consider(Lin::sym(vs[i]) + Lin::sym(vs[j]));
            }
            if (ks.size() <= 16) for (int k : ks) {
                consider(Lin::sym(vs[i]) - Lin::sym(k));
                consider(Lin::sym(k) - Lin::sym(vs[i]));
            }
        }
    // what changed against what the harness remembers
    if (vs.size() <= 16) for (auto& g : r.g) if (!g.second.t.empty())
        for (int v : vs) {
            Lin f = Lin::sym(v) - g.second; f.c = 0;
            if (f.t.empty()) continue;
            consider(normLe(f)); consider(normLe(-f));
        }
    // differences between slots that are sums (e.g. offset+avail <= size)
    for (size_t i = 0; i < vs.size() && tmpl && vs.size() <= 7; ++i)
        for (size_t j = i + 1; j < vs.size(); ++j) {
            for (size_t k = 0; k < vs.size(); ++k)
                if (k != i && k != j) consider(Lin::sym(vs[i]) + Lin::sym(vs[j]) - Lin::sym(vs[k]));
            if (ks.size() <= 8) for (int k : ks) consider(Lin::sym(vs[i]) + Lin::sym(vs[j]) - Lin::sym(k));
        }
    if (!widen) reduceCons(nn);
    // disequalities
    auto cne = [&](const std::vector<Lin>& v) {
        for (auto& e : v) {
            Lin q = normEq(e);
            bool dup = false;
            for (auto& x : nn.ne.r()) if (x == q) dup = true;
            if (dup) continue;
            if (a.n.entailsNe(subst(q, sa)) && b.n.entailsNe(subst(q, sb))) nn.ne.w().push_back(q);
        }
    };
    cne(neA); cne(neB);
    r.n = nn;
    // memo: keep the common part
    {
        std::map<MemoKey, Lin> m;
        auto& mb = b.memo.r();
        for (auto& p : a.memo.r()) {
            auto it = mb.find(p.first);
            if (it != mb.end() && it->second == p.second) m[p.first] = p.second;
        }
        r.memo.w().swap(m);
    }
    return r;
}

// b is contained in a ?
bool Engine::leq(State& b, State& a, std::vector<Val>& eb, std::vector<Val>& ea) {
    Canon ca = canon(a, ea), cb = canon(b, eb);
    if (ca.sig != cb.sig || ca.slots.size() != cb.slots.size()) return false;
    std::map<int, Lin> sg;
    Maximizer MB(b.n);
    size_t N = ca.slots.size();
    std::vector<char> done(N, 0);
    std::vector<size_t> todo;
    for (size_t i = 0; i < N; ++i) {
        auto& x = ca.slots[i];
        if (x.t.empty()) { if (!(x == cb.slots[i]) && !MB.entailsEq(x - cb.slots[i])) return false; done[i] = 1; }
    }
    bool progress = true;
    while (true) {
        progress = false;
        bool left = false;
        for (size_t i = 0; i < N; ++i) {
            if (done[i]) continue;
            auto& x = ca.slots[i];
            int un = 0, us = -1; I uc = 0;
            for (auto& p : x.t) if (!sg.count(p.first)) { ++un; us = p.first; uc = p.second; }
            if (un == 0) {
                Lin d = subst(x, sg) - cb.slots[i];
                if (!MB.entailsEq(d)) return false;
                done[i] = 1; progress = true;
            } else if (un == 1 && (uc == 1 || uc == -1)) {
                std::map<int, Lin> z = sg; z[us] = Lin(0);
                Lin rest = subst(x, z);
                Lin v = cb.slots[i] - rest;
                if (uc == -1) v = -v;
                sg[us] = v; done[i] = 1; progress = true;
            } else if (un == 1 && (uc == 4 || uc == -4 || uc == 8 || uc == -8)) {
                std::map<int, Lin> z = sg; z[us] = Lin(0);
                Lin v = cb.slots[i] - subst(x, z);
                if (!divisible(v, uc)) return false;
                sg[us] = quotient(v, uc); done[i] = 1; progress = true;
            } else left = true;
        }
        if (!left) break;
        if (!progress) {
            for (size_t i = 0; i < N && !progress; ++i) {
                if (done[i]) continue;
                for (auto& p : ca.slots[i].t) if (!sg.count(p.first)) { sg[p.first] = Lin::sym(p.first); progress = true; break; }
            }
            if (!progress) break;
        }
    }
    std::set<int> used;
    for (auto& p : sg) used.insert(p.first);
    for (auto& e : a.n.cons.r()) {
        if (!MB.entails(subst(e, sg))) return false;
        for (auto& p : e.t) used.insert(p.first);
    }
    for (auto& p : a.n.eq.r()) {
        Lin e = Lin::sym(p.first) - p.second;
        if (!MB.entailsEq(subst(e, sg))) return false;
    }
    for (auto& e : a.n.ne.r()) if (!b.n.entailsNe(subst(e, sg))) return false;
    for (int s : used) {
        I l = a.n.slo(s), h = a.n.shi(s);
        Lin e = sg.count(s) ? sg[s] : Lin::sym(s);
        if (l > I_MIN && !MB.entails(Lin(l) - e)) return false;
        if (h < I_MAX && !MB.entails(e - Lin(h))) return false;
    }
    return true;
}

// Reduces a set of states: those of the same shape are joined pairwise, the
// most similar first, until each shape has used up its share of `room`.
// Contained states are dropped first.
template <class T, class ST, class EX, class PJ>
static void reduceSet(Engine& E, std::vector<T>& v, size_t room, ST st, EX ex, PJ put) {
    std::map<std::string, std::vector<size_t>> by;
    std::vector<std::vector<Lin>> slots(v.size());
    for (size_t i = 0; i < v.size(); ++i) {
        std::vector<Val> x = ex(v[i]);
        E.gc(st(v[i]), x, nullptr, true);
        auto c = E.canon(st(v[i]), x);
        slots[i] = std::move(c.slots);
        by[c.sig].push_back(i);
    }
    const size_t total = v.size();
    std::vector<T> out;
    for (auto& p : by) {
        auto& g = p.second;
        size_t quota = room <= 1 ? 1 : std::max<size_t>(1, room * g.size() / total);
        std::set<size_t> joined;
        auto sim = [&](size_t i, size_t j) { long n = 0; for (size_t k = 0; k < slots[i].size(); ++k) n += slots[i][k] == slots[j][k]; return n; };
        auto joinTo = [&](size_t i, size_t j) { // j into i
            std::vector<Val> e1 = ex(v[i]), e2 = ex(v[j]);
            if (E.leq(st(v[j]), st(v[i]), e2, e1)) return;
            State r = E.join(st(v[i]), st(v[j]), e1, e2, false);
            E.project(r, e1);
            put(v[i], std::move(r), e1);
            std::vector<Val> x = ex(v[i]);
            slots[i] = E.canon(st(v[i]), x).slots;
            joined.insert(i);
        };
        if (quota == 1) {
            for (size_t j = 1; j < g.size(); ++j) joinTo(g[0], g[j]);
            g.resize(1);
        } else {
            for (size_t i = 0; i < g.size(); ++i) for (size_t j = 0; j < g.size(); ++j) {
                if (i == j || sim(g[i], g[j]) + 4 < (long)slots[g[i]].size()) continue;
                std::vector<Val> e1 = ex(v[g[i]]), e2 = ex(v[g[j]]);
                if (E.leq(st(v[g[j]]), st(v[g[i]]), e2, e1)) { g.erase(g.begin() + j); if (j < i) --i; --j; }
            }
            while (g.size() > quota) {
                size_t bi = 0, bj = 1; long best = -1;
                for (size_t i = 0; i < g.size(); ++i) for (size_t j = i + 1; j < g.size(); ++j) {
                    long s = sim(g[i], g[j]);
                    if (s > best) { best = s; bi = i; bj = j; }
                }
                joinTo(g[bi], g[bj]);
                g.erase(g.begin() + bj);
            }
        }
        for (size_t i : g) out.push_back(std::move(v[i]));
    }
    v.swap(out);
}
void Engine::mergeStates(States& v, size_t room) {
    reduceSet(*this, v, room, [](State& s) -> State& { return s; }, [](State&) { return std::vector<Val>(); },
              [](State& s, State&& r, std::vector<Val>&) { s = std::move(r); });
}
void Engine::mergeOuts(Outs& v, size_t room) {
    reduceSet(*this, v, room, [](Out& o) -> State& { return o.s; }, [](Out& o) { return std::vector<Val>{o.v}; },
              [](Out& o, State&& r, std::vector<Val>& e) { o.s = std::move(r); o.v = e[0]; });
}
