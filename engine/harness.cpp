// Analysis driver: most general client of every class, contract obligations
// after each operation, JSON result.
#include "interp.h"
#include <fstream>
#include <iostream>
#include <unistd.h>

void dumpState(const State& s);
struct Client {
    Engine& E;
    bool verbose;
    int ops = 0;
    size_t nodes = 0;
    explicit Client(Engine& e) : E(e), verbose(e.verbose) {}
    const Function* fn(const std::string& n) {
        auto* f = E.M.getFunction(n);
        if (!f) throw Incomplete{"anchor not found: " + n};
        return f;
    }
    Outs run(const std::string& f, const State& s, std::vector<Val> a) { return E.call(fn(f), s, std::move(a), nullptr); }
    Lin num(const std::string& f, State& s, const Val& obj) {
        Outs o = run(f, s, {obj});
        if (o.size() != 1 && getenv("SA_LOUD")) { fprintf(stderr, "OUTCOMES %zu stack %zu\n", o.size(), E.stack.size()); dumpState(s); }
        if (o.size() != 1) throw Incomplete{"accessor " + f + " does not have a single outcome"};
        s = o[0].s;
        return o[0].v.k == VInt ? s.n.simp(o[0].v.e) : Lin::sym(g_sym.fresh(-((I)1 << 62), (I)1 << 62, f));
    }
    Val ptr(const std::string& f, State& s, const Val& obj) {
        Outs o = run(f, s, {obj});
        if (o.size() != 1) throw Incomplete{"accessor " + f + " does not have a single outcome"};
        s = o[0].s;
        return o[0].v;
    }
    // split on the value of a small enumeration
    std::vector<std::pair<int, State>> cases(const State& s, const Lin& e, int n) {
        std::vector<std::pair<int, State>> r;
        I k;
        if (s.n.constOf(e, k)) { r.push_back({(int)k, s}); return r; }
        for (int i = 0; i < n; ++i) { State t = s; if (t.n.addEq(e - Lin(i))) r.push_back({i, t}); }
        State t = s;
        if (t.n.addLe(e + Lin(1)) ) r.push_back({-99, t});
        t = s;
        if (t.n.addLe(Lin(n) - e)) r.push_back({-99, t});
        return r;
    }
    const Instruction* target(const State& s, const Val& obj, int slot) {
        if (obj.k != VPtr || !s.has(obj.reg)) return nullptr;
        State t = s;
        const Region& R = t.R(obj.reg);
        auto it = R.cells.find(0);
        if (it == R.cells.end() || it->second.v.k != VPtr || !t.has(it->second.v.reg)) return nullptr;
        const Region& V = t.R(it->second.v.reg);
        if (!V.gv) return nullptr;
        ++E.quiet;
        Val f = E.load(t, Val::P(it->second.v.reg, it->second.v.e + Lin(slot * 8)), PointerType::get(E.M.getContext(), 0), nullptr);
        --E.quiet;
        if (f.k == VFn && f.fn && !f.fn->isDeclaration()) return entry(f.fn);
        return nullptr;
    }
    static const Instruction* entry(const Function* f) {
        for (auto& b : *f) for (auto& i : b) if (i.getDebugLoc() && i.getDebugLoc().getLine()) return &i;
        return &*f->begin()->begin();
    }
};

static Lin fr(I l, I h, const char* n) { return Lin::sym(g_sym.fresh(l, h, n)); }
static const I I31 = ((I)1 << 31) - 1, I62 = (I)1 << 62;

struct Pre { int status; Lin size, pos; };
// values the checks refer to travel with the state as ghosts, so that joins and
// projections keep their relation to it
static void stash(State& s, const std::string& k, const Lin& e) { s.g[k] = s.n.simp(e); }
static Lin got(const State& s, const std::string& k) { return s.g.at(k); }
static void stash(State& s, const std::string& k, const Pre& p) { stash(s, k + ".size", p.size); stash(s, k + ".pos", p.pos); }
static Pre got(const State& s, const std::string& k, int st) { Pre p; p.status = st; p.size = got(s, k + ".size"); p.pos = got(s, k + ".pos"); return p; }
static void unstash(State& s) {
    s.gi.erase("dry"); s.gi.erase("dryst");
    for (auto it = s.gi.begin(); it != s.gi.end();) if (it->first[0] == '$') it = s.gi.erase(it); else ++it;
    for (auto it = s.g.begin(); it != s.g.end();) if (it->first[0] == '$') it = s.g.erase(it); else ++it; }

// ------------------------------------------------------------ streams
struct StreamClient : Client {
    std::string pfx = "h_";
    int width = 1;
    bool provider = false;       // entry of a provider
    explicit StreamClient(Engine& e) : Client(e) {}
    void must(State& s, bool ok, const char* rule, const Instruction* at, const std::string& msg) {
        E.oblige(rule, at, E.curOp + ": " + msg);
        if (!ok) E.alarm(rule, at, msg, &s);
    }
    std::vector<std::pair<Pre, State>> observe(const State& s0, const Val& obj) {
        cur = obj;
        std::vector<std::pair<Pre, State>> r;
        State s = s0;
        Lin st = num(pfx + "status", s, obj);
        for (auto& c : cases(s, st, 3)) {
            Pre p; p.status = c.first;
            State t = c.second;
            p.size = num(pfx + "size", t, obj);
            p.pos = num(pfx + "pos", t, obj);
            r.push_back({p, t});
        }
        return r;
    }
    // what must hold of every stream at any moment
    void always(State& s, const Val& obj, const Pre& p, const Instruction* at, const Pre* before = nullptr) {
        if (processUnit) must(s, !s.gi.count("child"), "R04", at, "a child process never returns to the caller of the library");
        must(s, p.status >= 0 && p.status <= 2, "S03", at, "the status is always one of Ok, Eof and Error");
        if (p.status == 2) {
            State t = s;
            Val e = ptr(pfx + "error", t, obj);
            bool ok = true;
            ++E.quiet;
            Lin l = E.cstrlen(t, e, at, ok);
            --E.quiet;
            must(s, ok && t.n.entails(Lin(1) - l), "S03", at, "an error status comes with a non-empty error description");
            if (before && before->status != 2) must(s, reason(s, *before), "S08", at, "a stream fails only when its source fails, rejects or lacks data");
            return;
        }
        if (subUnit) { // providers rely on this
            State t = s;
            const Val in = t.R(obj.reg).cells.at(E.off("Strigi::SubInputStream", "m_input")).v;
            bool ok = in.k == VPtr && t.has(in.reg) && t.R(in.reg).cells.count(E.off("Strigi::StreamBaseBase", "m_position"));
            ok = ok && t.n.entailsEq(t.R(in.reg).cells.at(E.off("Strigi::StreamBaseBase", "m_position")).v.e - t.g.at("base") - p.pos);
            must(s, ok, "S06", at, "a sub-stream is always at the place in its source that belongs to its position");
        }
        must(s, s.n.entails(-p.pos), "S02", at, "the position is never negative");
        must(s, s.n.entails(Lin(-1) - p.size), "S04", at, "a size is never below -1");
        if (p.status == 1) {
            must(s, s.n.entails(-p.size), "S04", at, "at the end of the stream the size is known");
            State t = s;
            if (t.n.addLe(-p.size)) must(t, t.n.entailsEq(p.size - p.pos), "S04", at, "at the end of the stream the size equals the position");
            // (a stream that has delivered all of its declared size does not depend on its source any more)
            if (before) {
                State u = s;
                bool open = before->status == 0 && u.n.addLe(before->size + Lin(1));
                must(s, !(open && s.gi.count("srcfail") && s.gi["srcfail"]), "S05", at, "a failure of the source is never reported as end of stream");
            }
            must(s, !(s.gi.count("codecerr") && s.gi["codecerr"]), "C18", at, "corrupt compressed data is never reported as end of stream");
        } else {
            State t = s;
            if (t.n.addLe(-p.size)) must(t, t.n.entails(p.pos - p.size), "S02", at, "the position never passes a known size");
        }
    }
    // is there anything in the environment that justifies a failure?
    bool reason(State& s, const Pre& before) {
        auto gi = [&](const char* n) { return s.gi.count(n) && s.gi[n]; };
        if (termUnit) return true; // not claimed: sizes beyond 2^31 between terminators are refused
        if (gi("srcfail") || gi("seekfail") || gi("badtext")) return true;
        if (fillUnit && s.gi.count("codecend") && s.gi["codecend"] == 1 && s.n.entails(-before.size)) return true; // (ends before the declared size)
        if (fillUnit) return gi("codecerr") || (gi("srceof") && !gi("sated") && !(s.gi.count("codecend") && s.gi["codecend"] == 1));
        if (subUnit) { // the source ends before the size that was asked for
            if (!s.n.entails(-before.size)) return false;
            for (auto& r : s.roots) if (r.k == VPtr && s.has(r.reg) && s.R(r.reg).cls == "stream") {
                auto& c = s.R(r.reg).cells;
                const Lin st = c.at(E.off("Strigi::StreamBaseBase", "m_status")).v.e, sz = c.at(E.off("Strigi::StreamBaseBase", "m_size")).v.e;
                return s.n.entailsEq(st - Lin(1)) && s.n.entails(sz + Lin(1) - s.g.at("base") - before.size);
            }
        }
        return false;
    }
    void sizeKept(State& s, const Pre& a, const Pre& b, const Instruction* at) {
        if (b.status == 2 || a.status == 2) return;
        State t = s;
        if (t.n.addLe(-a.size)) must(t, t.n.entailsEq(a.size - b.size), "S04", at, "a size that is known does not change");
    }
    Outs doRead(const State& s0, const Val& obj, Lin& mn, Lin& mx, int limited) {
        State s = s0;
        int r = E.newRegion(s, RAlloca, Lin(8), "start");
        s.roots.push_back(Val::P(r, 0));
        E.store(s, Val::P(r, 0), Val::Null(), 8, nullptr, false);
        mn = fr(1, I31, "min"); mx = fr(-I31 - 1, I31, "max");
        // a maximum below the minimum means that there is no maximum
        s.gi["$c"] = limited;
        if (limited) s.n.addLe(mn - mx); else s.n.addLe(mx - mn + Lin(1));
        stash(s, "$mn", mn); stash(s, "$mx", mx);
        return run(pfx + "read", s, {obj, Val::P(r, 0), Val::I_(mn), Val::I_(mx)});
    }
    Val start(State& s) { return E.load(s, s.roots.back(), PointerType::get(E.M.getContext(), 0), nullptr); }
    std::vector<State> opRead(const State& s0, const Val& obj, const std::string& cls) {
        std::vector<State> out, delivered;
        for (auto& p0 : observe(s0, obj)) for (int limited = 0; limited < 2; ++limited) {
            const Instruction* at = target(p0.second, obj, 2);
            // max below min (no limit) and max respected
            E.curOp = cls + " read";
            Lin mn, mx;
            stash(p0.second, "$a", p0.first);
            Outs o = doRead(p0.second, obj, mn, mx, limited);
            ++ops;
            for (auto& x : o) {
                stash(x.s, "$r", x.v.k == VInt ? x.v.e : fr(-I31, I31, "r"));
                for (auto& p1 : observe(x.s, obj)) {
                    const Pre& b = p1.first;
                    State& s = p1.second;
                    Lin r = got(s, "$r"); mn = got(s, "$mn"); mx = got(s, "$mx");
                    const Pre a = got(s, "$a", p0.first.status);
                    always(s, obj, b, at, &a);
                    sizeKept(s, a, b, at);
                    if (handlerUnit && a.status == 0 && b.status == 1) must(s, s.gi.count("ended") && s.gi.at("ended") == 1, "D01", at, "a read that finds the end has announced it to the event handler");
                    must(s, !(a.status == 2) || b.status == 2, "S03", at, "a failed stream stays failed");
                    if (a.status == 1) { State t = s; must(t, t.n.entailsEq(r + Lin(1)) || b.status == 2, "S04", at, "reading at the end of the stream returns -1"); }
                    if (b.status == 2) must(s, s.n.entailsEq(r + Lin(2)) , "S03", at, "a read that leaves the stream failed returns -2");
                    else must(s, s.n.entailsNe(r + Lin(2)) && s.n.entails(Lin(-1) - r), "S03", at, "an error code is returned only together with an error status");
                    State neg = s, zero = s, posi = s;
                    if (neg.n.addEq(r + Lin(1))) {
                        must(neg, b.status == 1, "S03", at, "end of stream is returned only together with an end status");
                        if (handlerUnit) must(neg, neg.gi.count("ended") && neg.gi.at("ended") == 1, "D01", at, "a read that reports the end has announced it to the event handler");
                        if (b.status == 1) must(neg, neg.n.entailsEq(a.pos - b.pos), "S02", at, "a read that delivers nothing leaves the position alone");
                        keep(out, neg, s0);
                    }
                    if (zero.n.addEq(r)) { must(zero, false, "S02", at, "a read never returns zero items"); keep(out, zero, s0); }
                    if (neg.n.addEq(r + Lin(2))) {}
                    State err = s;
                    if (err.n.addLe(r + Lin(2))) keep(out, err, s0);
                    if (posi.n.addLe(Lin(1) - r)) {
                        must(posi, posi.n.entailsEq(b.pos - a.pos - r), "S02", at, "a read advances the position by the number of items returned");
                        if (limited) must(posi, posi.n.entails(r - mx), "S01", at, "no more than the maximum is delivered");
                        must(posi, b.status != 0 || posi.n.entails(mn - r), "S01", at, "fewer than the minimum is delivered only at the end of the stream");
                        State u = posi;
                        Val p = start(u);
                        E.oblige("S01", at, E.curOp + ": delivered range is readable");
                        {   // re-label a memory alarm as a contract alarm
                            std::map<std::string, Alarm> save; save.swap(E.alarms);
                            auto ob = E.obligations;
                            E.checkAccess(u, p, r * (I)width, at, false, " (data delivered by read)");
                            bool bad = !E.alarms.empty();
                            std::string m = bad ? E.alarms.begin()->second.msg : "";
                            E.alarms.swap(save); E.obligations.swap(ob);
                            if (bad) E.alarm("S01", at, "delivered data is not a valid range: " + m, &posi);
                        }
                        if (p.k == VPtr && u.has(p.reg) && u.R(p.reg).g.count("init"))
                            must(posi, u.n.entails(p.e + r * (I)width - u.R(p.reg).g.at("init")), "UNI", at, "everything delivered has been written before");
                        // streams that hand on the data of their source, or show memory, must show the right part of it
                        if (p.k == VPtr && u.has(p.reg)) {
                            const Region& R = u.R(p.reg);
                            if (u.g.count("base")) {
                                must(posi, R.kind == RInput && R.g.count("pos") && u.n.entailsEq(R.g.at("pos") + p.e - u.g.at("base") - a.pos), "S06", at, "the data delivered is the data of the source at the position of the stream");
                            } else if (u.gi.count("filedata") && E.content) {
                                must(posi, R.g.count("init") && R.g.count("tag") && u.n.entailsEq(R.g.at("tag") + p.e - a.pos), "S06", at, "the data delivered is the data of the file at the position of the stream");
                            } else if (u.gi.count("direct")) must(posi, u.n.entailsEq(p.e - a.pos * (I)width), "S06", at, "the data delivered is the data at the position of the stream");
                        }
                        keep(out, posi, s0);
                        stash(posi, "$b", b); posi.gi["$b"] = b.status; posi.gi["$a"] = p0.first.status;
                        delivered.push_back(posi);
                    }
                }
            }
        }
        for (auto& d : delivered) { d.tr.reset(); d.gi.erase("$c"); }
        E.mergeStates(delivered);
        for (auto& posi : delivered) {
            const Pre a = got(posi, "$a", posi.gi["$a"]), b = got(posi, "$b", posi.gi["$b"]);
            // rewinding inside the delivered segment
            E.curOp = cls + " read then reset";
            State v = posi;
            const Instruction* at2 = target(v, obj, 4);
            Lin q = fr(0, I62, "q");
            if (!v.n.addLe(a.pos - q, false) || !v.n.addLe(q - b.pos)) continue;
            stash(v, "$q", q);
            Outs w = run(pfx + "reset", v, {obj, Val::I_(q)});
            ++ops;
            for (auto& y : w) {
                stash(y.s, "$rr", y.v.k == VInt ? y.v.e : fr(-I62, I62, "rr"));
                for (auto& p2 : observe(y.s, obj)) {
                    State& z = p2.second;
                    const Pre& c = p2.first;
                    const Lin q = got(z, "$q"), rr = got(z, "$rr"), r = got(z, "$r");
                    const Pre b = got(z, "$b", z.gi["$b"]);
                    always(z, obj, c, at2, &b);
                    sizeKept(z, b, c, at2);
                    must(z, c.status != 2, "S07", at2, "rewinding within the data just delivered never fails");
                    if (c.status == 2) continue;
                    must(z, z.n.entailsEq(c.pos - q) && z.n.entailsEq(rr - q), "S07", at2, "rewinding within the data just delivered reaches the requested position");
                    if (c.status == 1) must(z, z.n.entailsEq(c.size - q), "S07", at2, "after rewinding away from the end the stream is readable again");
                    State k = z;
                    Val sp = start(k);
                    std::map<std::string, Alarm> save; save.swap(E.alarms);
                    auto ob = E.obligations;
                    E.checkAccess(k, sp, r * (I)width, at2, false, "");
                    bool bad = !E.alarms.empty();
                    E.alarms.swap(save); E.obligations.swap(ob);
                    must(z, !bad, "S07", at2, "the data pointer survives a rewind within the delivered data");
                    keep(out, z, s0);
                }
            }
        }
        return out;
    }
    Val cur;                     // object under analysis
    bool handlerUnit = false, processUnit = false, subUnit = false, termUnit = false, fillUnit = false, resumes = false, takesAll = false;
    // Client states are kept apart by what a client can observe: whether the
    // position has reached a known size.
    void keep(std::vector<State>& out, State s, const State& s0) {
        s.roots.resize(s0.roots.size());
        unstash(s);
        partition(out, std::move(s));
    }
    void partition(std::vector<State>& out, State s) {
        s.gi.erase("atend");
        State t = s;
        Lin st = num(pfx + "status", t, cur);
        I k;
        if (!t.n.constOf(st, k) || k != 0) { out.push_back(std::move(s)); return; }
        Lin sz = num(pfx + "size", t, cur), po = num(pfx + "pos", t, cur);
        if (t.n.entails(sz + Lin(1)) ) { out.push_back(std::move(s)); return; }
        State e = t, l = t;
        if (e.n.addEq(sz - po)) { e.gi["atend"] = 1; out.push_back(std::move(e)); }
        if (l.n.addNe(sz - po)) out.push_back(std::move(l));
    }
    std::vector<State> opSkip(const State& s0, const Val& obj, const std::string& cls) {
        std::vector<State> out;
        for (auto& p0 : observe(s0, obj)) {
            const Instruction* at = target(p0.second, obj, 3);
            E.curOp = cls + " skip";
            Lin n = fr(0, I62, "ntoskip");
            stash(p0.second, "$a", p0.first); stash(p0.second, "$n", n);
            Outs o = run(pfx + "skip", p0.second, {obj, Val::I_(n)});
            ++ops;
            for (auto& x : o) {
                stash(x.s, "$r", x.v.k == VInt ? x.v.e : fr(-I62, I62, "r"));
                for (auto& p1 : observe(x.s, obj)) {
                    const Pre& b = p1.first;
                    State& s = p1.second;
                    const Lin r = got(s, "$r"), n = got(s, "$n");
                    const Pre a = got(s, "$a", p0.first.status);
                    always(s, obj, b, at, &a);
                    sizeKept(s, a, b, at);
                    must(s, !(a.status == 2) || b.status == 2, "S03", at, "a failed stream stays failed");
                    if (a.status == 2) must(s, s.n.entails(r), "S03", at, "in a failed stream nothing is skipped");
                    if (handlerUnit && a.status == 0 && b.status == 1) must(s, s.gi.count("ended") && s.gi.at("ended") == 1, "D01", at, "a skip that finds the end has announced it to the event handler");
                    if (b.status != 2) {
                        State neg = s, ok = s;
                        if (neg.n.addLe(r + Lin(1))) {
                            must(neg, neg.n.entailsEq(r + Lin(1)) && b.status == 1 && neg.n.entailsEq(a.pos - b.pos), "S02", at, "a negative skip result occurs only at the end of the stream");
                        }
                        if (ok.n.addLe(-r)) {
                            must(ok, ok.n.entailsEq(b.pos - a.pos - r), "S02", at, "a skip advances the position by the number of items returned");
                            must(ok, ok.n.entails(r - n), "S02", at, "a skip never passes over more than was asked for");
                            must(ok, b.status == 1 || ok.n.entailsEq(r - n), "S02", at, "a skip falls short only at the end of the stream");
                        }
                    } else must(s, s.n.entails(r - n), "S02", at, "a skip never reports more than was asked for");
                    keep(out, s, s0);
                }
            }
        }
        return out;
    }
    std::vector<State> opReset(const State& s0, const Val& obj, const std::string& cls) {
        std::vector<State> out;
        for (auto& p0 : observe(s0, obj)) {
            const Instruction* at = target(p0.second, obj, 4);
            E.curOp = cls + " reset";
            Lin q = fr(0, I62, "newpos");
            stash(p0.second, "$a", p0.first); stash(p0.second, "$n", q);
            Outs o = run(pfx + "reset", p0.second, {obj, Val::I_(q)});
            ++ops;
            for (auto& x : o) {
                stash(x.s, "$r", x.v.k == VInt ? x.v.e : fr(-I62, I62, "r"));
                for (auto& p1 : observe(x.s, obj)) {
                    const Pre& b = p1.first;
                    State& s = p1.second;
                    const Lin r = got(s, "$r"), q = got(s, "$n");
                    const Pre a = got(s, "$a", p0.first.status);
                    always(s, obj, b, at, &a);
                    sizeKept(s, a, b, at);
                    must(s, !(a.status == 2) || b.status == 2, "S03", at, "a failed stream stays failed");
                    if (b.status == 2) must(s, s.n.entails(r + Lin(1)), "S03", at, "a reset that leaves the stream failed returns a negative value");
                    else must(s, s.n.entailsEq(r - b.pos), "S02", at, "reset returns the position the stream is left at");
                    if (b.status != 2) {
                        // between the old position and the requested one
                        State fw = s, bw = s;
                        if (fw.n.addLe(a.pos - q)) must(fw, fw.n.entails(a.pos - b.pos) && fw.n.entails(b.pos - q), "S02", at, "a reset ends between the old position and the requested one");
                        if (bw.n.addLe(q - a.pos)) must(bw, bw.n.entails(b.pos - a.pos) && bw.n.entails(q - b.pos), "S02", at, "a reset ends between the old position and the requested one");
                    }
                    keep(out, s, s0);
                }
            }
        }
        return out;
    }
    // One call of fillBuffer.  The base class (units "buffered", "bufferedw") keeps
    // every stream contract over any fillBuffer that meets these obligations.
    // the entry of an archive is a buffered stream: its buffer is filled
    std::vector<State> opFillEntry(const State& s0, const Val& obj, const std::string& cls) {
        std::vector<State> out;
        for (auto& p0 : observe(s0, obj)) {
            if (p0.first.status != 0) continue;
            State& s = p0.second;
            const Instruction* at = target(s, obj, 5);
            if (!at) throw Incomplete{"fillBuffer of " + cls + " not found"};
            E.curOp = cls + " fillBuffer";
            Lin sp = fr(1, I31, "space");
            int r = E.newRegion(s, RHeap, sp * (I)width, "space to fill");
            Region& R = s.W(r);
            R.buf = true; R.weak = false; R.alloc = 0; R.gi["lent"] = 1;
            stash(s, "$a", p0.first); stash(s, "$n", sp);
            const size_t root = s.roots.size();
            s.roots.push_back(obj);
            s.roots.push_back(Val::P(r, 0));
            Outs o = run(pfx + "fill", s, {obj, Val::P(r, 0), Val::I_(sp)});
            ++ops;
            for (auto& x : o) {
                stash(x.s, "$r", x.v.k == VInt ? x.v.e : fr(-I31, I31, "r"));
                const Val o1 = x.s.roots[root];
                for (auto& p1 : observe(x.s, o1)) {
                    const Pre& b = p1.first;
                    State& t = p1.second;
                    const Pre a = got(t, "$a", 0);
                    const Lin n = got(t, "$r"), sp = got(t, "$n");
                    must(t, b.status == 0 || b.status == 2, "S04", at, "fillBuffer leaves it to the stream to find its end");
                    must(t, t.n.entailsEq(a.pos - b.pos), "S02", at, "filling the buffer leaves the position alone");
                    always(t, o1, b, at);
                    if (b.status == 0) {
                        must(t, t.n.entails(n - sp), "S01", at, "no more is filled in than there is space for");
                        sizeKept(t, a, b, at);
                        const Lin tot = t.g.count("etotal") ? t.g.at("etotal") : Lin(0);
                        State neg = t, pos = t;
                        if (neg.n.addLe(n + Lin(1))) {
                            State k = neg;
                            if (k.n.addLe(-b.size)) must(k, k.n.entailsEq(b.size - tot), "S04", at, "a stream of known size ends at that size");
                            unstash(neg);
                            neg.roots.resize(root);
                            out.push_back(neg);
                        }
                        if (pos.n.addLe(-n)) {
                            Lin nt = pos.n.simp(tot + n);
                            State k = pos;
                            if (k.n.addLe(-b.size)) must(k, k.n.entails(nt - b.size), "S04", at, "no more is delivered than the size that was declared");
                            pos.g["etotal"] = nt;
                            unstash(pos);
                            pos.roots.resize(root);
                            out.push_back(pos);
                        }
                        continue;
                    }
                    unstash(t);
                    t.roots.resize(root);
                    out.push_back(t);
                }
            }
        }
        return out;
    }
    std::vector<State> opFill(const State& s0, const Val& obj, const std::string& cls) {
        std::vector<State> out;
        if (s0.gi.count("fbend")) return out;
        for (auto& p0 : observe(s0, obj)) {
            if (p0.first.status != 0) continue;
            State& s = p0.second;
            const Instruction* at = target(s, obj, 5);
            if (!at) throw Incomplete{"fillBuffer of " + cls + " not found"};
            for (int slot : {2, 3, 4}) {
                const Instruction* b = target(s, obj, slot);
                if (!b || E.name(b->getFunction()).find("BufferedStream<") == std::string::npos) throw Incomplete{cls + " replaces a function of the buffered stream: the separate proof of the base class does not cover it"};
            }
            E.curOp = cls + " fillBuffer";
            Lin sp = fr(1, I31, "space");
            int r = E.newRegion(s, RHeap, sp * (I)width, "space to fill");
            Region& R = s.W(r);
            R.buf = true; R.weak = false; R.alloc = 0; R.gi["lent"] = 1;
            if (E.content) R.g["init"] = Lin(0);
            s.roots.push_back(Val::P(r, 0));
            stash(s, "$a", p0.first); stash(s, "$n", sp);
            Outs o = run(pfx + "fill", s, {obj, Val::P(r, 0), Val::I_(sp)});
            ++ops;
            for (auto& x : o) {
                stash(x.s, "$r", x.v.k == VInt ? x.v.e : fr(-I31, I31, "r"));
                for (auto& p1 : observe(x.s, obj)) {
                    const Pre& b = p1.first;
                    State& t = p1.second;
                    const Pre a = got(t, "$a", 0);
                    const Lin n = got(t, "$r"), sp = got(t, "$n");
                    must(t, b.status == 0 || b.status == 2, "S04", at, "fillBuffer leaves it to the stream to find its end");
                    always(t, obj, b, at, &a);
                    if (b.status == 0) { // nothing may come once (what was read so far is taken note of), but not again
                        const bool dry0 = t.gi.count("dry0");
                        must(t, !dry0 || t.n.entails(n + Lin(1)) || t.n.entails(Lin(1) - n), "T02", at, "after the end of the source a fill delivers something or reports the end");
                        t.gi.erase("dry0");
                    }
                    must(t, t.n.entailsEq(a.pos - b.pos), "S02", at, "filling the buffer leaves the position alone");
                    if (b.status == 0 && t.g.count("eaten") && !(t.gi.count("srcfail") && t.gi["srcfail"])) {
                        // where the source stands, when the source is still there
                        const Val src = t.roots.size() > 1 ? t.roots[1] : Val();
                        if (src.k == VPtr && t.has(src.reg) && t.R(src.reg).cls == "stream") {
                            const Lin at0 = t.R(src.reg).cells.at(E.off("Strigi::StreamBaseBase", "m_position")).v.e;
                            if (resumes && t.gi.count("codecend") && t.gi["codecend"] == 1) must(t, t.n.entailsEq(at0 - t.g["eaten"]), "D03", at, "after the end of the compressed data the source stands right behind it");
                            State k = t;
                            if (takesAll && k.n.addLe(n + Lin(1))) must(k, k.n.entailsEq(at0 - k.g["eaten"]), "D02", at, "all data of the source is converted before the end is reported");
                        }
                    }
                    if (b.status == 0) {
                        sizeKept(t, a, b, at);
                        const Lin tot = t.g.count("total") ? t.g.at("total") : Lin(0);
                        State neg = t, pos = t;
                        if (neg.n.addLe(n + Lin(1))) {
                            must(neg, !(neg.gi.count("srcfail") && neg.gi["srcfail"]), "S05", at, "a failure of the source is never reported as end of stream");
                            must(neg, !(neg.gi.count("codecerr") && neg.gi["codecerr"]), "C18", at, "corrupt data is never reported as end of stream");
                            {   // a size declared by the format takes the place of an end mark
                                State k = neg;
                                if (k.gi.count("codecend") && k.n.addLe(b.size + Lin(1))) must(k, k.gi["codecend"] == 1, "C18", at, "compressed data that stops before its end mark is never reported as end of stream");
                            }
                            State k = neg;
                            if (k.n.addLe(-b.size)) must(k, k.n.entailsEq(b.size - tot), "S04", at, "a stream of known size ends at that size");
                            neg.gi["fbend"] = 1;
                            done(out, neg, s0, r);
                        }
                        if (pos.n.addLe(-n)) {
                            must(pos, pos.n.entails(n - sp), "S01", at, "no more is filled in than there is space for");
                            if (E.content && pos.has(r) && pos.R(r).g.count("init")) must(pos, pos.n.entails(n * (I)width - pos.R(r).g.at("init")), "UNI", at, "everything delivered has been written before");
                            Lin nt = pos.n.simp(tot + n);
                            State k = pos;
                            if (k.n.addLe(-b.size)) must(k, k.n.entails(nt - b.size), "S04", at, "no more is delivered than the size that was declared");
                            pos.g["total"] = nt;
                            if (pos.gi.count("dry")) {
                                State z = pos;
                                if (z.n.addEq(n)) { z.gi["dry0"] = 1; done(out, z, s0, r); }
                                if (!pos.n.addLe(Lin(1) - n)) continue;
                            }
                            done(out, pos, s0, r);
                        }
                    } else { t.gi["fbend"] = 1; done(out, t, s0, r); }
                }
            }
        }
        return out;
    }
    void done(std::vector<State>& out, State s, const State& s0, int r) {
        s.roots.resize(s0.roots.size());
        if (s.has(r)) s.W(r).live = false;
        unstash(s);
        out.push_back(std::move(s));
    }
    std::vector<State> opDelete(const State& s0, const Val& obj, const std::string& cls, const std::string& del) {
        E.curOp = cls + " destruction";
        Outs o = run(del, s0, {obj});
        ++ops;
        for (auto& x : o) {
            for (auto& v : x.s.roots) if (v.k == VPtr && v.reg == obj.reg) v = Val();
            if (processUnit) {
                must(x.s, !x.s.gi.count("haschild") || x.s.gi.count("reaped"), "R04", nullptr, "a child process is waited for when its stream is destroyed");
            }
            std::vector<Val> none;
            E.gc(x.s, none, nullptr, true);
        }
        E.oblige("R01", nullptr, E.curOp);
        return {};
    }
};

static std::string ls(const Lin& e) {
    std::string r = istr(e.c);
    for (auto& p : e.t) r += " + " + istr(p.second) + "*" + g_sym.name[p.first] + "#" + std::to_string(p.first);
    return r;
}
void dumpState(const State& s) {
    for (auto& b : s.n.bnd.r()) fprintf(stderr, "   %s in [%s,%s]\n", ls(Lin::sym(b.first)).c_str(), istr(b.second.first).c_str(), istr(b.second.second).c_str());
    for (auto& c : s.n.cons.r()) fprintf(stderr, "   %s <= 0\n", ls(c).c_str());
    for (auto& c : s.n.ne.r()) fprintf(stderr, "   %s != 0\n", ls(c).c_str());
    for (auto& c : s.n.eq.r()) fprintf(stderr, "   %s = %s\n", ls(Lin::sym(c.first)).c_str(), ls(c.second).c_str());
    for (auto& m : s.mem.r()) {
        const Region& R = *m.second;
        fprintf(stderr, "   region %d kind %d size %s live %d weak %d buf %d %s\n", m.first, (int)R.kind, ls(R.size).c_str(), R.live, R.weak, R.buf, R.cls.c_str());
        for (auto& c : R.cells) fprintf(stderr, "      +%ld/%d k%d r%d %s%s\n", c.first, c.second.w, c.second.v.k, c.second.v.reg, ls(c.second.v.e).c_str(), c.second.disc ? " disc" : "");
        for (auto& c : R.strs) fprintf(stderr, "      str@%ld len %s buf %d\n", c.first, ls(c.second.len).c_str(), c.second.buf);
        for (auto& c : R.g) fprintf(stderr, "      g %s = %s\n", c.first.c_str(), ls(c.second).c_str());
        for (auto& c : R.gi) fprintf(stderr, "      gi %s = %d\n", c.first.c_str(), c.second);
    }
    for (auto& c : s.g) fprintf(stderr, "   ghost %s = %s\n", c.first.c_str(), ls(c.second).c_str());
    for (auto& c : s.gi) fprintf(stderr, "   ghost %s = %d\n", c.first.c_str(), c.second);
}
// reachable states of a client, up to join/widening
typedef std::function<std::vector<State>(const State&)> Step;
static void explore(Engine& E, std::vector<State> init, Step step, const std::string& cls, size_t& nodes) {
    std::map<std::string, State> inv;
    std::map<std::string, int> visits;
    std::vector<Val> none;
    auto norm = [&](State& s) { s.tr.reset(); E.gc(s, none, nullptr, true); E.project(s, none); };
    std::vector<State> work = std::move(init);
    static const bool loud = getenv("SA_LOUD") != nullptr;
    E.quiet += !loud;
    int rounds = 0;
    try {
        while (!work.empty()) {
            std::set<std::string> changed;
            for (auto& s : work) {
                norm(s);
                std::string sig = E.canon(s, none).sig;
                auto it = inv.find(sig);
                if (it == inv.end()) { inv[sig] = s; changed.insert(sig); continue; }
                std::vector<Val> e1, e2;
                if (E.leq(s, it->second, e1, e2)) continue;
                if (loud && visits[sig] > 36) { fprintf(stderr, "UNSTABLE %s\n", sig.c_str()); dumpState(it->second); fprintf(stderr, "--- new\n"); dumpState(s); }
                if (visits[sig] > 40) throw Incomplete{"client states do not stabilise for " + cls};
                it->second = E.join(it->second, s, e1, e2, widenLevel(visits[sig]));
                E.project(it->second, none);
                changed.insert(sig);
            }
            for (auto& c : changed) ++visits[c];
            work.clear();
            if (E.verbose) fprintf(stderr, "  round %d: %zu nodes, %zu to process, %ld steps\n", rounds, inv.size(), changed.size(), E.steps);
            if (inv.size() > (getenv("SA_SIGS") ? 200 : 1500) && loud) for (auto& p : inv) fprintf(stderr, "SIG %s\n", p.first.c_str());
            if (inv.size() > 1500) throw Incomplete{"too many client states for " + cls};
            for (auto& c : changed) for (auto& t : step(inv[c])) { t.gi.erase("dry"); t.gi.erase("dryst"); work.push_back(std::move(t)); }
            if (++rounds > 60) throw Incomplete{"client analysis does not converge for " + cls};
        }
    } catch (...) { E.quiet -= !loud; throw; }
    E.quiet -= !loud;
    E.forgetResults();
    for (auto& p : inv) {
        if (E.verbose && getenv("SA_NODES")) { fprintf(stderr, "NODE %s\n", p.first.c_str()); dumpState(p.second); }
        auto v = step(p.second);
        for (auto& t : v) { std::vector<Val> n2; E.gc(t, n2, nullptr, true); }
    }
    nodes = inv.size();
}

// ------------------------------------------------------------ units
struct Unit { std::string kind, ctor; };
static std::map<std::string, Unit> units() {
    std::map<std::string, Unit> u;
    for (auto* n : {"sub", "term", "gzip", "zlib", "deflate", "bz2", "lzma", "gzipc", "base64", "encoding", "process", "dataevent", "reader",
                    "file", "filep", "mmap", "skipfile", "skipfile2", "skipfile2p", "string", "wstring"}) u[n] = {"stream", std::string("new_") + n};
    for (auto* n : {"lib_shared", "lib_recursion", "lib_process"}) u[n] = {"library", ""};
    for (auto* n : {"tar", "ar", "cpio", "zip", "ole", "rpm", "mail", "sdf"}) { u[n] = {"provider", std::string("new_") + n}; }
    for (auto* n : {"tar", "ar", "cpio", "zip", "ole", "rpm", "mail", "sdf", "gzip", "bz2", "lzma"}) u[std::string("chk_") + n] = {"probe", std::string("chk_") + n};
    for (auto* n : {"buffered", "bufferedw"}) u[n] = {"stream", std::string("new_") + n};
    for (auto* n : {"gzip", "zlib", "deflate", "bz2", "lzma", "gzipc", "base64", "encoding", "process", "reader"}) u[std::string("fb_") + n] = {"fill", std::string("new_") + n};
    u["endian"] = {"endian", ""};
    u["text"] = {"text", ""};
    u["b64"] = {"b64", ""};
    return u;
}

static std::vector<State> sources(Engine& E, const State& s0, int& reg) {
    std::vector<State> r;
    for (int k = 0; k < 4; ++k) {
        State s = s0;
        reg = E.mkForeign(s, "stream", k == 1 ? 1 : k == 2 ? 2 : 0);
        if (k == 3) { // known size
            Region& R = s.W(reg);
            long oSz = E.off("Strigi::StreamBaseBase", "m_size"), oPos = E.off("Strigi::StreamBaseBase", "m_position");
            Lin sz = fr(0, I62, "srcsize");
            R.cells[oSz] = Cell{8, Val::I_(sz), false};
            s.n.addLe(R.cells[oPos].v.e - sz);
        }
        if (k == 1) s.gi["srceof"] = 1;
        if (k == 2) s.gi["srcfail"] = 1;
        s.roots.push_back(Val::P(reg, 0));
        r.push_back(s);
    }
    return r;
}
static int mkStr(Engine& E, State& s, I lo) {
    int r = E.newRegion(s, RAlloca, Lin(32), "string");
    Str x; x.len = fr(lo, (I)1 << 30, "slen");
    s.W(r).strs[0] = x;
    return r;
}
static int mkData(Engine& E, State& s, const Lin& len, int w = 1) {
    int r = E.newRegion(s, RInput, len * (I)w, "data");
    s.W(r).weak = true; s.W(r).buf = true;
    return r;
}

static void runStream(Engine& E, const std::string& name, const Unit& u, bool prov, bool fill = false) {
    StreamClient C(E);
    State s0;
    s0.mem.w()[0] = std::make_shared<Region>();
    s0.W(0).kind = RNull;
    std::vector<std::pair<State, std::vector<Val>>> starts;
    int reg;
    E.keepDry = fill;
    const bool eats = fill && (name == "gzip" || name == "zlib" || name == "deflate" || name == "gzipc" || name == "bz2" || name == "lzma" || name == "encoding" || name == "process");
    auto withSource = [&](std::function<void(State&, Val)> f) {
        for (auto& s : sources(E, s0, reg)) {
            State t = s;
            if (eats) t.g["eaten"] = t.R(t.roots.back().reg).cells.at(E.off("Strigi::StreamBaseBase", "m_position")).v.e + Lin(name == "lzma" ? 13 : 0);
            f(t, t.roots.back());
        }
    };
    auto cstr = [&](State& s) { // nul terminated
        int r = E.newRegion(s, RStr, fr(1, (I)1 << 20, "cstr"), "text");
        s.W(r).weak = true;
        return Val::P(r, 0);
    };
    C.handlerUnit = name == "dataevent";
    C.processUnit = name == "process";
    C.subUnit = name == "sub";
    C.termUnit = name == "term" || name == "reader" || name == "process";
    C.fillUnit = fill;
    C.resumes = name == "gzip" || name == "zlib" || name == "deflate" || name == "bz2";
    C.takesAll = name == "gzipc" || name == "encoding";
    if (name == "reader" || name == "wstring" || name == "bufferedw") { C.pfx = "hr_"; C.width = 4; }
    if (name == "file" || name == "mmap" || name == "skipfile" || name == "skipfile2") {
        State s = s0; Val p = cstr(s);
        s.gi[name == "mmap" ? "direct" : "filedata"] = 1;
        starts.push_back({s, {p}});
    } else if (name == "filep" || name == "skipfile2p") {
        State s = s0; Val p = cstr(s);
        State n = s; starts.push_back({n, {Val::Null(), p}});
        int f = E.newRegion(s, RFile, Lin(0), "FILE");
        s.W(f).g["pos"] = fr(0, I62, "fpos"); s.W(f).g["size"] = fr(0, I62, "fsize");
        s.W(f).alloc = 1;
        starts.push_back({s, {Val::P(f, 0), p}});
    } else if (name == "string" || name == "wstring") {
        for (int copy = 0; copy < 2; ++copy) {
            State s = s0; Lin n = fr(0, I31 - 8, "len");
            int r = mkData(E, s, n, C.width);
            s.roots.push_back(Val::P(r, 0));
            s.gi["direct"] = 1;
            starts.push_back({s, {Val::P(r, 0), Val::I_(n), Val::I_(copy)}});
        }
    } else if (name == "sub") {
        withSource([&](State& s, Val src) {
            s.g["base"] = s.R(src.reg).cells.at(E.off("Strigi::StreamBaseBase", "m_position")).v.e;
            State t = s;
            starts.push_back({t, {src, Val::I_(Lin(-1))}});
            starts.push_back({s, {src, Val::I_(fr(0, I62, "entrysize"))}});
        });
    } else if (name == "term") {
        withSource([&](State& s, Val src) { s.g["base"] = s.R(src.reg).cells.at(E.off("Strigi::StreamBaseBase", "m_position")).v.e;
            s.W(src.reg).g["far"] = s.g["base"];
            int r = mkStr(E, s, 1); starts.push_back({s, {src, Val::P(r, 0)}}); });
    } else if (name == "encoding") {
        withSource([&](State& s, Val src) { Val a = cstr(s), b = cstr(s); starts.push_back({s, {src, a, b}}); });
    } else if (name == "reader") {
        withSource([&](State& s, Val src) { State t = s; Val a = cstr(s); starts.push_back({s, {src, a}}); starts.push_back({t, {src, Val::Null()}}); });
    } else if (name == "process") {
        auto args = [&](State& s) { int r = E.newRegion(s, RAlloca, Lin(24), "args"); Str x; x.len = fr(1, 1000, "argc"); s.W(r).strs[0] = x; return Val::P(r, 0); };
        withSource([&](State& s, Val src) { Val a = args(s); starts.push_back({s, {a, src}}); });
        State s = s0; Val a = args(s); starts.push_back({s, {a, Val::Null()}});
    } else if (name == "buffered" || name == "bufferedw") {
        for (int k = 0; k < 4; ++k) {
            State s = s0;
            starts.push_back({s, {Val::I_(k & 1 ? fr(1, I31 / 4, "minbuf") : Lin(0)), Val::I_(k & 2 ? fr(0, I62, "declared") : Lin(-1))}});
        }
    } else if (name == "dataevent") {
        withSource([&](State& s, Val src) {
            int h = E.mkForeign(s, "handler", 0);
            s.roots.push_back(Val::P(h, 0));
            long oPos = E.off("Strigi::StreamBaseBase", "m_position");
            // the source is handed over at its start
            if (!s.n.addEq(s.R(src.reg).cells.at(oPos).v.e)) return;
            s.g["base"] = s.g["fed"] = Lin(0);
            starts.push_back({s, {src, Val::P(h, 0)}});
        });
    } else {
        withSource([&](State& s, Val src) { starts.push_back({s, {src}}); });
    }
    std::vector<State> init;
    E.curOp = name + " construction";
    for (auto& st : starts) {
        for (auto& o : C.run(u.ctor, st.first, st.second)) {
            o.s.roots.insert(o.s.roots.begin(), o.v);
            if (!prov) {
                for (auto& p : C.observe(o.s, o.v)) {
                    const Instruction* at = C.target(p.second, o.v, 2);
                    C.always(p.second, o.v, p.first, at);
                    C.partition(init, p.second);
                }
            } else init.push_back(o.s);
        }
    }
    if (E.verbose) fprintf(stderr, "%s: %zu initial states, %ld steps\n", name.c_str(), init.size(), E.steps);
    if (init.empty()) throw Incomplete{"no state survives construction of " + name};
    Step step;
    if (fill) step = [&](const State& s) {
        Val obj = s.roots[0];
        auto out = C.opFill(s, obj, name);
        C.opDelete(s, obj, name, C.pfx + "del");
        return out;
    };
    else if (!prov) step = [&](const State& s) {
        Val obj = s.roots[0];
        std::vector<State> out;
        for (auto& v : {C.opRead(s, obj, name), C.opSkip(s, obj, name), C.opReset(s, obj, name)}) for (auto& t : v) out.push_back(t);
        C.opDelete(s, obj, name, C.pfx + "del");
        return out;
    };
    else step = [&](const State& s0) {
        std::vector<State> out;
        State s = s0;
        Val obj = s.roots[0];
        auto must = [&](State& t, bool ok, const char* rule, const Instruction* at, const std::string& m) { C.must(t, ok, rule, at, m); };
        auto perr = [&](State& t, const Instruction* at) {
            State k = t; Val e = C.ptr("h_perror", k, t.roots[0]); bool ok = true;
            ++E.quiet; Lin l = E.cstrlen(k, e, at, ok); --E.quiet;
            must(t, ok && k.n.entails(Lin(1) - l), "P06", at, "a failed provider has a non-empty error description");
        };
        Lin st = C.num("h_pstatus", s, obj);
        // where in the source the current entry lies
        const long oIn = E.off("Strigi::SubStreamProvider", "m_input");
        auto extent = [&](State& t, Val e, Lin& lo, Lin& size) {
            const Val arch = t.R(t.roots[0].reg).cells.at(oIn).v;
            for (int depth = 0; depth < 4; ++depth) { // down to the stream that is a part of the archive
                if (e.k != VPtr || !e.reg || !t.has(e.reg) || !t.R(e.reg).live) return false;
                auto& c = t.R(e.reg).cells;
                auto cell = [&](long o, int k, Val& v) { auto it = c.find(o); if (it == c.end() || it->second.v.k != k) return false; v = it->second.v; return true; };
                Val in, l, z;
                if (t.R(e.reg).cls == "decoder") { if (!cell(64, VPtr, in) || in.reg == arch.reg) return false; e = in; continue; }
                if (!cell(E.off("Strigi::SubInputStream", "m_input"), VPtr, in)) return false;
                if (in.reg != arch.reg) { e = in; continue; }
                if (!cell(E.off("Strigi::SubInputStream", "m_offset"), VInt, l) || !cell(E.off("Strigi::StreamBaseBase", "m_size"), VInt, z)) return false;
                lo = l.e; size = z.e;
                return true;
            }
            return false;
        };
        for (auto& c : C.cases(s, st, 3)) {
            const Instruction* at = C.target(c.second, obj, 2);
            Lin lo, size;
            bool had = extent(c.second, C.ptr("h_cur", c.second, obj), lo, size);
            // (an entry of unknown size has no end to compare with)
            if (had && c.second.n.entails(-size)) stash(c.second, "$eend", lo + size); else had = false;
            if (!had && c.first == 0) E.facts["entries-of-unknown-size"].insert(name);
            E.curOp = name + " nextEntry";
            Outs o = C.run("h_next", c.second, {obj});
            ++C.ops;
            for (auto& x : o) {
                State t = x.s;
                const Val obj = t.roots[0]; // results may come from a covering state
                Lin st1 = C.num("h_pstatus", t, obj);
                for (auto& d : C.cases(t, st1, 3)) {
                    State& z = d.second;
                    Val cur = C.ptr("h_cur", z, obj);
                    bool null = x.v.isNull();
                    must(z, d.first >= 0, "P01", at, "the status is always one of Ok, Eof and Error");
                    bool same = x.v.k == VPtr && cur.k == VPtr && x.v.reg == cur.reg && z.n.entailsEq(x.v.e - cur.e);
                    must(z, same, "P01", at, "nextEntry returns the current entry");
                    if (null) must(z, d.first != 0, "P01", at, "when there is no further entry the provider is at its end or failed");
                    else must(z, d.first == 0, "P01", at, "an entry is only handed out while the provider is in order");
                    if (c.first > 0) must(z, null && d.first == c.first, "P02", at, "a provider that ended or failed stays that way");
                    if (d.first == 2) perr(z, at);
                    z.g.erase("etotal");
                    if (!null && d.first == 0 && cur.k == VPtr && z.has(cur.reg)) {
                        State k = z;
                        const Lin es = E.load(k, Val::P(cur.reg, cur.e + Lin(E.off("Strigi::StreamBaseBase", "m_size"))), Type::getInt64Ty(E.M.getContext()), at).e;
                        const Lin is = E.load(k, Val::P(obj.reg, obj.e + Lin(E.off("Strigi::SubStreamProvider", "m_entryinfo") + E.off("Strigi::EntryInfo", "size"))), Type::getInt64Ty(E.M.getContext()), at).e;
                        const Lin ep = E.load(k, Val::P(cur.reg, cur.e + Lin(E.off("Strigi::StreamBaseBase", "m_position"))), Type::getInt64Ty(E.M.getContext()), at).e;
                        must(k, k.n.entailsEq(ep), "P09", at, "an entry is handed out at its beginning");
                        if (k.n.addLe(-es) && k.n.addLe(-is)) must(k, k.n.entailsEq(es - is), "P09", at, "the size announced for an entry is the size of the entry");
                    }
                    if (had && c.first == 0 && d.first < 2) {
                        State k = z;
                        {
                            Lin end = got(k, "$eend"), lo2, size2;
                            Val src = E.load(k, Val::P(obj.reg, obj.e + Lin(E.off("Strigi::SubStreamProvider", "m_input"))), PointerType::get(E.M.getContext(), 0), at);
                            Lin spos = E.load(k, Val::P(src.reg, src.e + Lin(E.off("Strigi::StreamBaseBase", "m_position"))), Type::getInt64Ty(E.M.getContext()), at).e;
                            if (d.first == 1) must(k, k.n.entails(end - spos), "P08", at, "an archive that ends inside an entry fails instead of ending normally");
                            else if (extent(k, cur, lo2, size2)) must(k, k.n.entails(end - lo2), "P08", at, "entries occupy disjoint parts of the archive, in order");
                        }
                    }
                    unstash(z);
                    if (d.first == 1) must(z, !(z.gi.count("srcfail") && z.gi["srcfail"]), "S05", at, "a failure of the source is never reported as the end of the archive");
                    out.push_back(z);
                }
            }
        }
        s = s0;
        Val cur = C.ptr("h_cur", s, obj);
        if (!(cur.isNull()) && cur.k == VPtr && cur.reg) {
            std::string cls = name + " entry";
            State t = s;
            const Region& R = t.R(cur.reg);
            auto it = R.cells.find(0);
            bool sub = it != R.cells.end() && it->second.v.k == VPtr && t.has(it->second.v.reg) && t.R(it->second.v.reg).gv && t.R(it->second.v.reg).gv->getName() == "_ZTVN6Strigi14SubInputStreamE";
            if (sub || E.isForeignStream(t, cur.reg)) {
                // these streams are analysed by themselves
                E.facts["entry-streams"].insert(sub ? "SubInputStream" : "decoder");
                for (auto& u : E.anyUse(t, cur, nullptr)) out.push_back(u);
            } else if (name == "ole") { // the base class is analysed by itself
                E.facts["entry-streams"].insert("BufferedStream");
                for (auto& u : C.opFillEntry(s, cur, cls)) out.push_back(u);
            } else
            {
                E.facts["entry-streams"].insert("other");
                for (auto& v : {C.opRead(s, cur, cls), C.opSkip(s, cur, cls), C.opReset(s, cur, cls)}) for (auto& t : v) out.push_back(t);
            }
        }
        C.opDelete(s0, obj, name, "h_pdel");
        // what does not matter to the client is not told apart
        const long oType = E.off("Strigi::SubStreamProvider", "m_entryinfo") + E.off("Strigi::EntryInfo", "type");
        for (auto& t : out) {
            t.gi.erase("srceof"); t.gi.erase("codecerr");
            auto& cs = t.R(t.roots[0].reg).cells;
            if (cs.count(oType) && cs.at(oType).disc) t.W(t.roots[0].reg).cells[oType].disc = false;
            I k;
            if (!t.n.constOf(C.num("h_pstatus", t, t.roots[0]), k) || k == 0) continue;
            // nothing is done with the parts of a provider that has ended or failed
            std::vector<int> rs;
            for (auto& p : t.mem.r()) if (p.first != t.roots[0].reg && (p.second->kind == RHeap || p.second->kind == RForeign)) rs.push_back(p.first);
            for (int r : rs) for (auto& c : t.W(r).cells) if (c.second.v.k == VInt) {
                const int w = c.second.w * 8 > 62 ? 62 : c.second.w * 8 - 1;
                c.second = Cell{c.second.w, Val::I_(fr(-((I)1 << w), ((I)1 << w) - 1, "any")), false};
            }
        }
        return out;
    };
    explore(E, init, step, name, C.nodes);
    E.facts["client-states"].insert(std::to_string(C.nodes));
    E.facts["client-ops"].insert(std::to_string(C.ops));
}

static State empty() {
    State s0;
    s0.mem.w()[0] = std::make_shared<Region>();
    s0.W(0).kind = RNull;
    return s0;
}
static void runProbe(Engine& E, const std::string& name, const Unit& u) {
    Client C(E);
    E.curOp = name;
    State s = empty();
    Lin n = fr(0, I31, "datasize");
    int r = mkData(E, s, n);
    s.roots.push_back(Val::P(r, 0));
    C.run(u.ctor, s, {Val::P(r, 0), Val::I_(n)});
}
static void runText(Engine& E) {
    StreamClient C(E);
    for (auto* f : {"ut_check3", "ut_check"}) {
        E.curOp = f;
        State s = empty(); Lin n = fr(0, I31, "len"); int r = mkData(E, s, n);
        s.roots.push_back(Val::P(r, 0));
        int nb = E.newRegion(s, RAlloca, Lin(1), "nb"); s.W(nb).weak = true; s.roots.push_back(Val::P(nb, 0));
        std::vector<Val> a{Val::P(r, 0), Val::I_(n)};
        if (std::string(f) == "ut_check3") a.push_back(Val::P(nb, 0));
        Outs o = C.run(f, s, a);
        if (std::string(f) == "ut_check3") for (auto& x : o) {
            State& t = x.s;
            const Lin nbv = t.R(nb).cells.count(0) ? t.R(nb).cells.at(0).v.e : fr(-128, 127, "nb");
            C.must(t, t.n.entails(-nbv) && t.n.entails(nbv - Lin(3)), "T01", nullptr, "between 0 and 3 bytes of a character can be missing");
            if (x.v.k == VPtr && x.v.reg == 0) C.must(t, t.n.entailsEq(nbv), "T01", nullptr, "nothing is missing from a text that is valid");
            else C.must(t, x.v.k == VPtr && x.v.reg == r && t.n.entails(-x.v.e) && t.n.entails(x.v.e - n + Lin(1)), "T01", nullptr, "an invalid or incomplete character lies inside the text");
        }
    }
}
static void runDecode(Engine& E) {
    Client C(E);
    {
        E.curOp = "b64_decode";
        State s = empty(); Lin n = fr(0, I31, "len"); int r = mkData(E, s, n);
        s.roots.push_back(Val::P(r, 0));
        C.run("b64_decode", s, {Val::P(r, 0), Val::I_(n)});
    }
}
static void runEndian(Engine& E) {
    Client C(E);
    struct T { const char* n; int w; bool sg, big; };
    for (auto& t : {T{"BigEndianInt16", 2, true, true}, T{"BigEndianUInt16", 2, false, true}, T{"BigEndianInt32", 4, true, true}, T{"BigEndianUInt32", 4, false, true},
                    T{"BigEndianInt64", 8, true, true}, T{"BigEndianUInt64", 8, false, true}, T{"LittleEndianInt16", 2, true, false}, T{"LittleEndianUInt16", 2, false, false},
                    T{"LittleEndianInt32", 4, true, false}, T{"LittleEndianUInt32", 4, false, false}, T{"LittleEndianInt64", 8, true, false}, T{"LittleEndianUInt64", 8, false, false}})
        for (auto* pre : {"rd_", "rdu_"}) {
            std::string f = std::string(pre) + t.n;
            E.curOp = f;
            State s = empty();
            int r = mkData(E, s, Lin(t.w));
            s.roots.push_back(Val::P(r, 0));
            const Instruction* at = nullptr;
            if (auto* lf = E.findFn("Strigi::read" + std::string(t.n) + "(" + (pre[2] == 'u' ? "unsigned char" : "char"), false)) at = Client::entry(lf);
            // the bytes, as unsigned numbers
            std::vector<Lin> by;
            State b = s;
            for (int i = 0; i < t.w; ++i) {
                Val v = E.load(b, Val::P(r, Lin(i)), IntegerType::get(E.M.getContext(), 8), nullptr);
                bool nw; Lin u = E.memoSym(b, M_ZEXT, v.e, 8, 0, 255, "u", &nw);
                by.push_back(u);
            }
            Lin want(0);
            for (int i = 0; i < t.w; ++i) want = want + by[t.big ? t.w - 1 - i : i] * ((I)1 << (8 * i));
            Outs o = C.run(f, b, {Val::P(r, 0)});
            E.oblige("G04", at, f);
            for (auto& x : o) {
                bool ok = x.v.k == VInt && (x.s.n.entailsEq(x.v.e - want) || x.s.n.entailsEq(x.v.e - want + Lin((I)1 << (8 * t.w))));
                if (!ok) E.alarm("G04", at, f + " does not combine its bytes in the order the name promises", &x.s);
            }
            if (o.empty()) E.alarm("G04", at, f + " never returns", nullptr);
        }
}

void runLibrary(Engine& E, const std::string& what); // library.cpp
static std::string js(const std::string& s) {
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if ((unsigned char)c < 32) r += ' ';
        else r += c;
    }
    return r + "\"";
}

int main(int argc, char** argv) {
    std::string bc, unit, outp;
    int deadline = 0; bool verbose = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(++i < argc ? argv[i] : ""); };
        if (a == "--bc") bc = nx(); else if (a == "--unit") unit = nx(); else if (a == "--out") outp = nx();
        else if (a == "--deadline") deadline = atoi(nx().c_str()); else if (a == "--verbose") verbose = true;
        else if (a == "--list") { for (auto& p : units()) std::cout << p.first << "\n"; return 0; }
    }
    LLVMContext ctx;
    SMDiagnostic err;
    auto M = parseIRFile(bc, err, ctx);
    if (!M) { err.print("sa", errs()); return 2; }
    // Every configuration is a sound analysis on its own: an obligation discharged
    // by one of them is discharged.  More precise ones only run when needed.
    std::vector<std::pair<int, int>> configs{{200, 200}, {24, 10}, {24, 20}, {64, 64}, {4, 4}};
    // the order only matters for the time it takes
    static const std::map<std::string, std::vector<int>> order{{"term", {1, 2, 0, 3, 4}}, {"tar", {4, 1, 2, 0, 3}}, {"cpio", {2, 1, 4, 0, 3}}, {"ar", {2, 1, 4, 0, 3}},
        {"sdf", {2, 4, 1, 0, 3}}, {"zip", {2, 1, 4, 0, 3}}, {"rpm", {4, 2, 1, 0, 3}}, {"mail", {4, 2, 1, 0, 3}}, {"ole", {1, 4, 2, 0, 3}}};
    if (order.count(unit)) { auto c = configs; configs.clear(); for (int i : order.at(unit)) configs.push_back(c[i]); }
    if (getenv("SA_K")) configs = {{atoi(getenv("SA_K")), getenv("SA_KR") ? atoi(getenv("SA_KR")) : 4}};
    // "unit~": what buffers contain is tracked, and only what is delivered is judged
    const std::string fullName = unit;
    const bool content = !unit.empty() && unit.back() == '~', fillUnit = unit.compare(0, 3, "fb_") == 0;
    if (content) unit.pop_back();
    std::unique_ptr<Engine> best;
    std::string incomplete, ran;
    time_t end = deadline ? time(nullptr) + deadline : 0;
    for (auto& cf : configs) {
        auto cur = std::make_unique<Engine>(*M);
        Engine& E = *cur;
        g_E = &E;
        E.verbose = verbose;
        E.K = cf.first; E.KR = cf.second;
        E.content = content || fillUnit;
        loadDebugInfo(E);
        if (content) E.posOff = E.off("Strigi::StreamBaseBase", "m_position");
        E.deadline = end;
        std::string inc;
        try {
            auto us = units();
            if (!us.count(unit)) throw Incomplete{"unknown unit " + unit};
            Unit u = us[unit];
            E.keepDiv = u.kind != "provider";
            if (u.kind == "provider") { E.sumDepth = 2; E.decoders = true; }
            if (u.kind == "stream") runStream(E, unit, u, false);
            else if (u.kind == "fill") runStream(E, unit.substr(3), u, false, true);
            else if (u.kind == "provider") runStream(E, unit, u, true);
            else if (u.kind == "library") runLibrary(E, unit);
            else if (u.kind == "probe") runProbe(E, unit, u);
            else if (u.kind == "b64") runDecode(E);
            else if (u.kind == "endian") runEndian(E);
            else runText(E);
        } catch (Incomplete& x) { inc = x.why; if (inc.empty()) inc = "?"; }
        if (verbose) fprintf(stderr, "%s K=%d KR=%d: %s, %zu alarms\n", unit.c_str(), cf.first, cf.second, inc.empty() ? "complete" : inc.c_str(), E.alarms.size());
        if (content) for (auto it = E.alarms.begin(); it != E.alarms.end();) if (it->second.rule != "UNI" && it->second.rule != "S06") it = E.alarms.erase(it); else ++it;
        if (!best) { best = std::move(cur); incomplete = inc; if (inc.empty()) ran = std::to_string(cf.first); }
        else if (inc.empty()) {
            ran += "," + std::to_string(cf.first);
            if (!incomplete.empty()) { best = std::move(cur); incomplete.clear(); }
            else {
                for (auto it = best->alarms.begin(); it != best->alarms.end();) if (!E.alarms.count(it->first)) it = best->alarms.erase(it); else ++it;
                best->steps += E.steps;
            }
        }
        if (incomplete.empty() && best->alarms.empty()) break;
        if (end && time(nullptr) >= end) break;
    }
    Engine& E = *best;
    std::string o = "{\"unit\":" + js(fullName) + ",\"incomplete\":" + js(incomplete) + ",\"steps\":" + std::to_string(E.steps) + ",\"alarms\":[";
    bool f = true;
    for (auto& p : E.alarms) {
        auto& a = p.second;
        o += (f ? "" : ",") + std::string("\n{\"rule\":") + js(a.rule) + ",\"file\":" + js(a.file) + ",\"line\":" + std::to_string(a.line) + ",\"func\":" + js(a.func) + ",\"msg\":" + js(a.msg) + ",\"stack\":" + js(a.stack) + "}";
        f = false;
    }
    o += "],\n\"obligations\":{";
    f = true;
    for (auto& p : E.obligations) {
        o += (f ? "" : ",") + std::string("\n") + js(p.first) + ":[";
        bool g = true;
        for (auto& x : p.second) { o += (g ? "" : ",") + js(x); g = false; }
        o += "]"; f = false;
    }
    o += "},\n\"functions\":[";
    f = true;
    for (auto* fn : E.visitedFns) { o += (f ? "" : ",") + js(E.name(fn)); f = false; }
    o += "],\n\"opaque\":[";
    f = true;
    for (auto& x : E.opaque) { o += (f ? "" : ",") + js(x); f = false; }
    o += "],\n\"facts\":{";
    f = true;
    for (auto& p : E.facts) {
        o += (f ? "" : ",") + js(p.first) + ":[";
        bool g = true;
        for (auto& x : p.second) { o += (g ? "" : ",") + js(x); g = false; }
        o += "]"; f = false;
    }
    o += "}}\n";
    if (outp.empty()) std::cout << o; else { std::ofstream os(outp); os << o; }
    std::cout.flush();
    if (getenv("SA_EXIT")) exit(0);
    if (getenv("SA_STATS")) fprintf(stderr, "lp %ld pivots %ld merges %ld wit %ld\n", g_lpCalls, g_lpPivots, best ? best->merges : 0, 0L);
    _exit(incomplete.empty() ? 0 : 3);
}
