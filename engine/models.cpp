// Contracts of everything outside the analysed code: the C library, the
// standard library containers, the codecs, and foreign (caller supplied)
// streams.
#include "interp.h"

bool isStdName(const std::string& m) {
    auto st = [&](const char* p) { return m.compare(0, strlen(p), p) == 0; };
    if (st("_ZSt3max") || st("_ZSt3min") || st("_ZSt4move") || st("_ZSt7forward") || st("_ZSt4swap") || st("_ZSt3abs") ||
        st("_ZSt11__addressof") || st("_ZSt9addressof") || st("_ZSt10as_const"))
        return false;
    return st("_ZNSt") || st("_ZNKSt") || st("_ZSt") || st("_ZN9__gnu_cxx") || st("_ZNK9__gnu_cxx") || st("_ZNSa") || st("_ZNKSa") ||
           st("_ZNSs") || st("_ZNKSs") || st("_ZNSi") || st("_ZNSo") || st("_ZN9__gnu");
}
static const I NPOS = -1;
static const I LENMAX = (I)1 << 40;

static void kill_bufs(Engine& E, State& s, int buf) {
    if (buf && s.has(buf)) s.W(buf).live = false;
}
Str& Engine::str(State& s, const Val& p, const Instruction* at) {
    static Str dummy;
    if (p.k != VPtr || p.reg == 0 || !s.has(p.reg)) { dummy = Str(); dummy.len = Lin::sym(g_sym.fresh(0, LENMAX, "strlen")); return dummy; }
    I c;
    long o = s.n.constOf(p.e, c) ? (long)c : -12345;
    Region& R = s.W(p.reg);
    auto it = R.strs.find(o);
    if (it == R.strs.end()) {
        Str x; x.len = Lin::sym(g_sym.fresh(0, LENMAX, "strlen"));
        if (o == -12345) { dummy = x; return dummy; }
        it = R.strs.insert({o, x}).first;
    }
    return it->second;
}
void Engine::strset(State& s, const Val& p, const Lin& len, const Instruction* at) {
    Str& x = str(s, p, at);
    int b = x.buf;
    x.len = len; x.buf = 0;
    kill_bufs(*this, s, b);
}
Val Engine::strbuf(State& s, const Val& p, const Instruction* at) {
    Str& x = str(s, p, at);
    if (x.buf && s.has(x.buf) && s.R(x.buf).live) return Val::P(x.buf, 0);
    Lin len = x.len;
    int r = newRegion(s, RStr, len + Lin(1), "str");
    s.W(r).weak = true; s.W(r).buf = true;
    s.W(r).g["len"] = len;
    str(s, p, at).buf = r;
    return Val::P(r, 0);
}
// length of the C string at p
Lin Engine::cstrlen(State& s, const Val& p, const Instruction* at, bool& ok) {
    ok = true;
    Lin unk = Lin::sym(g_sym.fresh(0, LENMAX, "strlen"));
    if (p.k == VUndef) { alarm("MEM", at, "C string argument is uninitialised", &s); ok = false; return unk; }
    if (p.k != VPtr) return unk;
    oblige("MEM", at, "C string");
    if (p.reg == 0) { alarm("MEM", at, "C string argument is null", &s); ok = false; return unk; }
    if (!s.has(p.reg)) { alarm("MEM", at, "C string no longer exists", &s); ok = false; return unk; }
    const Region& R = s.R(p.reg);
    if (R.kind == ROpaque || R.kind == RForeignVT) return unk;
    if (!R.live) { alarm("MEM", at, R.kind == RInput ? "C string in stream data after the stream moved on (stale pointer)" : "C string was released", &s); ok = false; return unk; }
    I c;
    if (R.kind == RGlobal && R.gv && R.gv->isConstant() && R.gv->hasInitializer()) {
        if (auto* cd = dyn_cast<ConstantDataSequential>(R.gv->getInitializer()))
            if (cd->isString() && s.n.constOf(p.e, c)) {
                StringRef t = cd->getAsString();
                if (c >= 0 && c < (I)t.size()) { size_t e = t.find('\0', (size_t)c); if (e != StringRef::npos) return Lin((I)e - c); }
            }
        if (R.gv->getInitializer()->isNullValue()) return Lin(0);
        return Lin::sym(g_sym.fresh(0, std::max<I>(0, R.size.c), "strlen"));
    }
    if (R.kind == RStr) {
        if (!s.n.entails(-p.e) || !s.n.entails(p.e - R.size + Lin(1))) alarm("MEM", at, "C string starts outside its string", &s);
        return R.g.count("len") ? R.g.at("len") - p.e : unk;
    }
    // delivered data does not change: the same text has the same length again
    std::string lk;
    if (R.kind == RInput && s.n.constOf(p.e, c)) {
        lk = "slen@" + std::to_string((long)c);
        if (R.g.count(lk)) return R.g.at(lk);
    }
    auto keep = [&]() { if (!lk.empty()) s.W(p.reg).g[lk] = unk; return unk; };
    // a buffer: need a known terminator inside
    if (R.g.count("nul")) {
        // a NUL is known to exist at or before this offset
        Lin lim = R.g.at("nul");
        if (s.n.entails(p.e - lim) && s.n.entails(-p.e) && s.n.entails(lim - R.size + Lin(1))) {
            s.n.addLe(unk - (lim - p.e));
            return keep();
        }
    }
    if (s.n.constOf(p.e, c)) {
        for (auto& q : R.cells) {
            I z;
            if (q.first >= (long)c && q.second.v.k == VInt && s.n.constOf(q.second.v.e, z) && z == 0) {
                I z2; (void)z2;
                s.n.addLe(unk - Lin((I)q.first - c));
                return keep();
            }
        }
        for (auto& z : R.gi) if (z.first.compare(0, 2, "z@") == 0) {
            long zo = atol(z.first.c_str() + 2);
            for (long o = std::max(zo, (long)c); o < zo + z.second; ++o) {
                bool cov = false;
                for (auto& q : R.cells) if (q.first <= o && o < q.first + q.second.w) cov = true;
                if (!cov) { s.n.addLe(unk - Lin((I)o - c)); return keep(); }
            }
        }
    }
    alarm("MEM", at, std::string("text is scanned for a terminator that is not known to exist inside ") + (R.kind == RInput ? "the delivered data" : "the buffer"), &s);
    ok = false;
    return unk;
}

static bool checkLen(Engine& E, State& s, const Lin& n, const Instruction* at, const char* what) {
    E.oblige("MEM", at, "length");
    if (s.n.entails(-n)) return true;
    E.alarm("MEM", at, std::string(what) + " can be negative", &s);
    return s.n.addLe(-n);
}
static Lin L(const Val& v) { return v.k == VInt ? v.e : Lin::sym(g_sym.fresh(-((I)1 << 31), ((I)1 << 31) - 1, "arg")); }

// the length of a part of at most cnt characters where `left` are left
static Lin part(State& s, const Lin& left, const Lin& cnt) {
    if (s.n.entails(-cnt)) {
        if (s.n.entails(cnt - left)) return cnt;
        if (s.n.entails(left - cnt)) return left;
        Lin y = Lin::sym(g_sym.fresh(0, LENMAX, "substr"));
        s.n.addLe(y - left); s.n.addLe(y - cnt); s.n.addLe(-y);
        return y;
    }
    if (s.n.entails(cnt + Lin(1))) return left; // npos, or beyond 2^63
    Lin y = Lin::sym(g_sym.fresh(0, LENMAX, "substr"));
    s.n.addLe(y - left);
    return y;
}

// ------------------------------------------------------- standard library
bool Engine::stdModel(const Function* f, const std::string& n, State& s, std::vector<Val>& a, const CallBase* cb, Outs& out) {
    auto ret = [&](const Val& v) { out.push_back({s, v}); return true; };
    auto has = [&](const char* t) { return n.find(t) != std::string::npos; };
    const Instruction* at = cb;
    bool sret = cb && cb->arg_size() && cb->paramHasAttr(0, Attribute::StructRet);
    auto chk = [&](const Val& p) { return checkAccess(s, p, Lin(1), at, false, " (object)"); };
    if (n.compare(0, 13, "std::string::") == 0) {
        std::string m = n.substr(13);
        size_t par = m.find_first_of("(<");
        if (m.compare(0, 8, "operator") == 0) { par = m.find('(', m.compare(0, 10, "operator()") == 0 ? 10 : 8); }
        std::string meth = m.substr(0, par);
        std::string args = m.substr(m.find('(', par) + 1);
        if (meth[0] == '_') return ret(cb->getType()->isVoidTy() ? Val() : freshOf(s, cb->getType(), "str"));
        Val self = sret ? a[1] : a[0];
        if (!chk(self)) return true;
        if (meth == "basic_string") {
            if (s.has(self.reg)) { I c; if (s.n.constOf(self.e, c)) s.W(self.reg).strs.erase((long)c); }
            if (args.compare(0, 11, "char const*") == 0) {
                if (args.find("unsigned long") != std::string::npos) {
                    Lin len = L(a[2]);
                    if (!checkLen(*this, s, len, at, "length of a string construction")) return true;
                    if (!checkAccess(s, a[1], len, at, false, " (string source)")) return true;
                    strset(s, self, len, at);
                } else {
                    bool ok; Lin len = cstrlen(s, a[1], at, ok);
                    strset(s, self, len, at);
                }
                return ret(Val());
            }
            if (args.compare(0, 12, "std::string&") == 0 || args.compare(0, 17, "std::string const") == 0) {
                if (!chk(a[1])) return true;
                Lin l = str(s, a[1], at).len;
                if (args.find("unsigned long") != std::string::npos) {
                    Lin pos = L(a[2]);
                    oblige("EXC", at);
                    if (!s.n.entails(pos - l) || !s.n.entails(-pos)) { alarm("EXC", at, "string position can lie outside the string (terminates the program)", &s); if (!s.n.addLe(pos - l) || !s.n.addLe(-pos)) return true; }
                    l = part(s, l - pos, args.find("unsigned long, unsigned long") != std::string::npos ? L(a[3]) : Lin(-1));
                }
                bool mv = args.compare(0, 13, "std::string&&") == 0;
                strset(s, self, l, at);
                if (mv) strset(s, a[1], Lin(0), at);
                return ret(Val());
            }
            if (args == ")" || args.compare(0, 14, "std::allocator") == 0) { strset(s, self, Lin(0), at); return ret(Val()); }
            if (args.compare(0, 19, "unsigned long, char") == 0) {
                Lin len = L(a[1]);
                if (!checkLen(*this, s, len, at, "length of a string construction")) return true;
                strset(s, self, len, at); return ret(Val());
            }
            strset(s, self, Lin::sym(g_sym.fresh(0, LENMAX, "strlen")), at);
            return ret(Val());
        }
        if (meth == "~basic_string") {
            if (self.k == VPtr && s.has(self.reg)) {
                I c; Region& R = s.W(self.reg);
                if (s.n.constOf(self.e, c)) { auto it = R.strs.find((long)c); if (it != R.strs.end()) { int b = it->second.buf; R.strs.erase(it); kill_bufs(*this, s, b); } }
            }
            return ret(Val());
        }
        if (meth == "size" || meth == "length") return ret(Val::I_(str(s, self, at).len));
        if (meth == "capacity" || meth == "max_size") return ret(Val::I_(Lin::sym(g_sym.fresh(0, LENMAX, "cap"))));
        if (meth == "empty") {
            Lin l = str(s, self, at).len;
            for (auto& r : cmp(s, CmpInst::ICMP_EQ, Val::I_(l), Val::I_(0), 64, at)) out.push_back({r.second, Val::I_(Lin(r.first ? 1 : 0))});
            return true;
        }
        if (meth == "c_str" || meth == "data") return ret(strbuf(s, self, at));
        if (meth == "begin" || meth == "end") { Val b = strbuf(s, self, at); if (meth == "end") b.e = str(s, self, at).len; return ret(b); }
        if (meth == "clear") { strset(s, self, Lin(0), at); return ret(Val()); }
        if (meth == "operator[]" || meth == "at" || meth == "back" || meth == "front") {
            Val b = strbuf(s, self, at);
            if (meth == "back") b.e = str(s, self, at).len - Lin(1);
            else if (meth != "front") b.e = L(a[1]);
            oblige("MEM", at, "string index");
            if (!s.n.entails(-b.e) || !s.n.entails(b.e - s.R(b.reg).size + Lin(1))) {
                alarm("MEM", at, "string index can lie outside the string", &s);
                if (!s.n.addLe(-b.e) || !s.n.addLe(b.e - s.R(b.reg).size + Lin(1))) return true;
            }
            return ret(b);
        }
        if (meth == "push_back") { strset(s, self, str(s, self, at).len + Lin(1), at); return ret(Val()); }
        if (meth == "pop_back") { strset(s, self, Lin::sym(g_sym.fresh(0, LENMAX, "strlen")), at); return ret(Val()); }
        bool isAppend = meth == "append" || meth == "operator+=";
        if (isAppend || meth == "assign" || meth == "operator=") {
            Lin base = isAppend ? str(s, self, at).len : Lin(0);
            Lin add;
            if (args.compare(0, 11, "char const*") == 0) {
                if (args.find("unsigned long") != std::string::npos) {
                    add = L(a[2]);
                    if (!checkLen(*this, s, add, at, "length of a string copy")) return true;
                    if (!checkAccess(s, a[1], add, at, false, " (string source)")) return true;
                } else { bool ok; add = cstrlen(s, a[1], at, ok); }
            } else if (args.compare(0, 11, "std::string") == 0) {
                if (!chk(a[1])) return true;
                add = str(s, a[1], at).len;
                if (args.find("unsigned long") != std::string::npos) {
                    Lin pos = L(a[2]);
                    oblige("EXC", at);
                    if (!s.n.entails(pos - add) || !s.n.entails(-pos)) { alarm("EXC", at, "string position can lie outside the string (terminates the program)", &s); if (!s.n.addLe(pos - add) || !s.n.addLe(-pos)) return true; }
                    add = part(s, add - pos, args.find("unsigned long, unsigned long") != std::string::npos ? L(a[3]) : Lin(-1));
                } else if (!isAppend && args.compare(0, 13, "std::string&&") == 0 && !(a[1].reg == self.reg && a[1].e == self.e)) {
                    strset(s, a[1], Lin::sym(g_sym.fresh(0, LENMAX, "moved")), at);
                }
            } else if (args.compare(0, 5, "char)") == 0) add = Lin(1);
            else add = Lin::sym(g_sym.fresh(0, LENMAX, "strlen"));
            strset(s, self, base + add, at);
            return ret(self);
        }
        if (meth == "resize") {
            Lin len = L(a[1]);
            if (!checkLen(*this, s, len, at, "new length of a string")) return true;
            strset(s, self, len, at); return ret(Val());
        }
        if (meth == "reserve") {
            if (a.size() > 1) { if (!checkLen(*this, s, L(a[1]), at, "reserved length of a string")) return true; }
            Str& x = str(s, self, at); int b = x.buf; x.buf = 0; kill_bufs(*this, s, b);
            return ret(Val());
        }
        if (meth == "erase") {
            Lin l = str(s, self, at).len;
            Lin pos = a.size() > 1 ? L(a[1]) : Lin(0);
            oblige("EXC", at);
            if (!s.n.entails(pos - l) || !s.n.entails(-pos)) { alarm("EXC", at, "string position can lie outside the string (terminates the program)", &s); if (!s.n.addLe(pos - l) || !s.n.addLe(-pos)) return true; }
            int y = g_sym.fresh(0, LENMAX, "erased");
            s.n.addLe(Lin::sym(y) - l, false); s.n.addLe(pos - Lin::sym(y), false);
            strset(s, self, Lin::sym(y), at);
            return ret(self);
        }
        if (meth.compare(0, 4, "find") == 0 || meth.compare(0, 5, "rfind") == 0) {
            Lin l = str(s, self, at).len;
            State t = s;
            out.push_back({t, Val::I_(Lin(NPOS))});
            int y = g_sym.fresh(0, LENMAX, "found");
            bool one = args.compare(0, 4, "char") == 0 && args.compare(0, 10, "char const") != 0;
            if (s.n.addLe(Lin::sym(y) - l + Lin(one ? 1 : 0))) out.push_back({s, Val::I_(Lin::sym(y))});
            return true;
        }
        if (meth == "substr") {
            Lin l = str(s, self, at).len;
            Lin pos = L(a[2]), cnt = L(a[3]);
            oblige("EXC", at);
            if (!s.n.entails(pos - l) || !s.n.entails(-pos)) { alarm("EXC", at, "string position can lie outside the string (terminates the program)", &s); if (!s.n.addLe(pos - l) || !s.n.addLe(-pos)) return true; }
            Lin r = part(s, l - pos, cnt);
            if (s.has(a[0].reg)) { I z; if (s.n.constOf(a[0].e, z)) s.W(a[0].reg).strs.erase((long)z); }
            strset(s, a[0], r, at);
            return ret(Val());
        }
        if (meth == "compare") return ret(Val::I_(freshInt(32, "cmp")));
        if (meth == "get_allocator") return ret(Val());
        if (!cb->getType()->isVoidTy()) return ret(freshOf(s, cb->getType(), "str"));
        strset(s, self, Lin::sym(g_sym.fresh(0, LENMAX, "strlen")), at);
        return ret(Val());
    }
    auto printed = [&](const Val& v) { if (v.k == VPtr && v.reg && s.has(v.reg) && s.R(v.reg).kind == RAlloca) s.W(v.reg).gi["printed"] = 1; };
    if (has("basic_ostringstream<") && has("::str()") && a.size() == 2 && a[0].k == VPtr) {
        const bool some = a[1].k == VPtr && a[1].reg && s.has(a[1].reg) && s.R(a[1].reg).gi.count("printed");
        strset(s, a[0], Lin::sym(g_sym.fresh(some ? 1 : 0, (I)1 << 30, "printed")), at);
        return ret(Val());
    }
    if (has("basic_ostringstream<") && (has("::basic_ostringstream()") || has("::~basic_ostringstream()"))) return ret(Val());
    if ((n.compare(0, 14, "std::ostream::") == 0 || n.compare(0, 19, "std::basic_ostream<") == 0) && has("::operator<<(") && !a.empty() && !has("operator<<(std::") ) printed(a[0]);
    // free string operators
    if (has("std::operator==") || has("std::operator!=") || has("std::operator<") ) {
        if (has("std::string const&") && !has("std::basic_ostream")) {
            bool ne = has("std::operator!=");
            auto lenOf = [&](const Val& v, bool isStr, bool& known) -> Lin {
                known = true;
                if (isStr) return str(s, v, at).len;
                bool ok; Lin l = cstrlen(s, v, at, ok); return l;
            };
            size_t p = n.rfind('(');
            std::string ar = n.substr(p + 1);
            bool s0 = ar.compare(0, 11, "std::string") == 0, s1 = ar.find(", std::string") != std::string::npos;
            bool k; Lin l0 = lenOf(a[0], s0, k), l1 = lenOf(a[1], s1, k);
            if (has("std::operator<")) return ret(Val::I_(freshInt(1, "less")));
            State t = s;
            if (t.n.addEq(l0 - l1)) out.push_back({t, Val::I_(Lin(ne ? 0 : 1))});
            I c;
            if ((s.n.constOf(l0, c) && c == 0) || (s.n.constOf(l1, c) && c == 0)) { if (!s.n.addNe(l0 - l1)) return true; }
            out.push_back({s, Val::I_(Lin(ne ? 1 : 0))});
            return true;
        }
        if (has("std::basic_ostream") || has("std::ostream")) {
            bool okc; Lin len(0); if (has(", char const*)") && a.size() > 1) len = cstrlen(s, a[1], at, okc);
            if (s.n.entails(Lin(1) - len)) printed(a[0]);
            return ret(cb->getType()->isVoidTy() ? Val() : a[0]);
        }
    }
    if (n.compare(0, 14, "std::ostream::") == 0 || has("std::ostream&") || has("std::endl"))
        return ret(cb->getType()->isVoidTy() ? Val() : (a.empty() ? freshOf(s, cb->getType(), "os") : a[0]));
    if (has("std::operator+<char")) {
        Lin l = Lin::sym(g_sym.fresh(0, LENMAX, "strlen"));
        size_t p = n.rfind('(');
        std::string ar = n.substr(p + 1);
        bool s0 = ar.compare(0, 11, "std::string") == 0, s1 = ar.find(", std::string") != std::string::npos;
        bool ok;
        Lin l0 = s0 ? str(s, a[1], at).len : cstrlen(s, a[1], at, ok);
        Lin l1 = s1 ? str(s, a[2], at).len : ar.find(", char)") != std::string::npos ? Lin(1) : cstrlen(s, a[2], at, ok);
        if (s.has(a[0].reg)) { I z; if (s.n.constOf(a[0].e, z)) s.W(a[0].reg).strs.erase((long)z); }
        strset(s, a[0], l0 + l1, at);
        return ret(Val());
    }
    // containers whose length matters
    auto cont = [&](const char* pre, size_t& p) { p = strlen(pre); return n.compare(0, p, pre) == 0; };
    size_t p;
    if (cont("std::vector<", p) || cont("std::stack<", p) || cont("std::deque<", p) || cont("std::__cxx11::list<", p) || cont("std::list<", p) || cont("std::set<", p)) {
        int d = 1; size_t q = p;
        while (q < n.size() && d) { if (n[q] == '<') ++d; else if (n[q] == '>') --d; ++q; }
        std::string m = q + 2 <= n.size() ? n.substr(q + 2) : "";
        size_t par = m.find_first_of("(<");
        if (m.compare(0, 8, "operator") == 0) par = m.find('(', 8);
        std::string meth = m.substr(0, par);
        std::string args = par == std::string::npos ? "" : m.substr(m.find('(', par));
        Val self = sret ? a[1] : a[0];
        std::string cls = n.substr(0, q);
        size_t lt = n.find('<');
        std::string tmpl = n.substr(0, lt); size_t cc = tmpl.rfind(':'); tmpl = tmpl.substr(cc + 1);
        if (meth[0] == '_') return false;
        if (!chk(self)) return true;
        auto elem = [&]() { int r = newRegion(s, ROpaque, Lin(0), "elem"); s.W(r).weak = true; s.W(r).gi["nonnull"] = 1; return Val::P(r, 0); };
        if (meth == tmpl || meth == "~" + tmpl) {
            if (meth == tmpl) {
                Lin l = Lin(0);
                if (args.find("const&") != std::string::npos && args.find("allocator<") == std::string::npos && a.size() > 1) l = str(s, a[1], at).len;
                else if (args.find(cls) != std::string::npos && a.size() > 1) l = str(s, a[1], at).len;
                else if (args.compare(0, 14, "(unsigned long") == 0) l = L(a[1]);
                if (s.has(self.reg)) { I z; if (s.n.constOf(self.e, z)) s.W(self.reg).strs.erase((long)z); }
                strset(s, self, l, at);
            } else if (self.k == VPtr && s.has(self.reg)) { I z; if (s.n.constOf(self.e, z)) s.W(self.reg).strs.erase((long)z); }
            return ret(Val());
        }
        if (meth == "size") return ret(Val::I_(str(s, self, at).len));
        if (meth == "empty") {
            Lin l = str(s, self, at).len;
            for (auto& r : cmp(s, CmpInst::ICMP_EQ, Val::I_(l), Val::I_(0), 64, at)) out.push_back({r.second, Val::I_(Lin(r.first ? 1 : 0))});
            return true;
        }
        if (meth == "push_back" || meth == "push" || meth == "push_front" || meth == "emplace_back") { strset(s, self, str(s, self, at).len + Lin(1), at); return ret(cb->getType()->isVoidTy() ? Val() : elem()); }
        if (tmpl == "set" && meth == "count") return ret(Val::I_(Lin::sym(g_sym.fresh(0, 1, "count"))));
        if (tmpl == "set" && (meth == "insert" || meth == "erase")) {
            strset(s, self, Lin::sym(g_sym.fresh(0, LENMAX, "len")), at);
            return ret(cb->getType()->isVoidTy() ? Val() : freshOf(s, cb->getType(), "set"));
        }
        if (meth == "clear") { strset(s, self, Lin(0), at); return ret(Val()); }
        if (meth == "pop" || meth == "pop_back" || meth == "pop_front" || meth == "top" || meth == "back" || meth == "front") {
            Lin l = str(s, self, at).len;
            oblige("MEM", at, "container access");
            if (!s.n.entails(Lin(1) - l)) {
                alarm("MEM", at, "element access on a container that can be empty", &s);
                if (!s.n.addLe(Lin(1) - l)) return true;
            }
            if (meth.compare(0, 3, "pop") == 0) { strset(s, self, l - Lin(1), at); return ret(Val()); }
            return ret(elem());
        }
        if (meth == "operator[]" || meth == "at") {
            Lin l = str(s, self, at).len, ix = L(a[1]);
            oblige("MEM", at, "container index");
            if (!s.n.entails(-ix) || !s.n.entails(ix - l + Lin(1))) {
                alarm("MEM", at, "container index can lie outside the container", &s);
                if (!s.n.addLe(-ix) || !s.n.addLe(ix - l + Lin(1))) return true;
            }
            if (args.find(") const") != std::string::npos && self.k == VPtr) {
                // the elements of a constant container stay the same objects
                I o = 0; s.n.constOf(self.e, o);
                const MemoKey k{M_ELEM, s.n.simp(ix), (long)self.reg * 65536 + (long)o};
                auto it = s.memo.r().find(k);
                if (it != s.memo.r().end() && s.has((int)it->second.c)) return ret(Val::P((int)it->second.c, 0));
                Val v = elem();
                s.memo.w()[k] = Lin((I)v.reg);
                return ret(v);
            }
            return ret(elem());
        }
        if (meth == "resize") {
            Lin len = L(a[1]);
            if (!checkLen(*this, s, len, at, "new size of a container")) return true;
            strset(s, self, len, at); return ret(Val());
        }
        if (meth == "reserve") { if (!checkLen(*this, s, L(a[1]), at, "reserved size of a container")) return true; return ret(Val()); }
        if (meth == "operator=") {
            strset(s, self, a.size() > 1 ? str(s, a[1], at).len : Lin::sym(g_sym.fresh(0, LENMAX, "len")), at);
            return ret(self);
        }
        return false;
    }
    return false;
}

// --------------------------------------------------------------- foreign
void Engine::foreignSetStatus(State& s, int r, int st) {
    s.W(r).cells[off("Strigi::StreamBaseBase", "m_status")] = Cell{4, Val::I_(Lin(st)), true};
}
// The decoder is given `len` bytes at `in`: they follow those it has consumed.
// False: cannot be continued.
static void fedTo(Engine& E, State& s, const Val& in, const Lin& len, const Instruction* at) {
    if (!s.g.count("eaten")) return;
    State t = s;
    if (!t.n.addLe(Lin(1) - len)) return;
    Lin p; bool known = false;
    if (in.k == VPtr && in.reg && t.has(in.reg)) {
        const Region& R = t.R(in.reg);
        if (R.kind == RInput) { if (R.g.count("pos")) { p = R.g.at("pos") + in.e; known = true; } }
        else if (!E.content) return; // a copy: decided in content mode
        else if (R.g.count("tag")) { p = R.g.at("tag") + in.e; known = true; }
    }
    E.oblige("D02", at, "data for the decoder");
    if (!known || !t.n.entailsEq(p - t.g["eaten"])) E.alarm("D02", at, "the decoder is not given the data that follows what it has consumed (bytes skipped, repeated or out of order)", &t);
}
static void killInputs(State& s, int obj) {
    std::vector<int> ids;
    for (auto& p : s.mem.r()) if (p.second->kind == RInput && p.second->link == obj && p.second->live) ids.push_back(p.first);
    for (int i : ids) { Region& R = s.W(i); R.live = false; R.cells.clear(); R.sym.clear(); }
}
Outs Engine::foreignCall(State s, int obj, int slot, std::vector<Val>& a, const CallBase* cb) {
    Outs out;
    if (!s.has(obj)) { alarm("MEM", cb, "call on an object that no longer exists", &s); return out; }
    const Region& R0 = s.R(obj);
    const bool decoder = R0.cls == "decoder";
    if (decoder && !R0.live) { alarm("MEM", cb, "call on an object that no longer exists", &s); return out; }
    if (decoder && slot <= 1) {
        killInputs(s, obj);
        if (slot == 1 && !freeRegion(s, Val::P(obj, 0), 1, cb)) return out;
        out.push_back({std::move(s), Val()});
        return out;
    }
    if (slot <= 1) {
        oblige("R03", cb, "delete");
        alarm("R03", cb, "an object owned by the caller is destroyed", &s);
        return out;
    }
    if (R0.cls == "handler") {
        // DataEventHandler: bool handleData(const char*, uint32_t); bool handleEnd()
        if (a.size() >= 3) {
            Lin n = L(a[2]);
            if (!checkAccess(s, a[1], n, cb, false, " (data handed to the event handler)")) return out;
            if (!s.g.count("fed")) s.g["fed"] = Lin(0);
            // position of the data inside the source
            if (a[1].k == VPtr && s.has(a[1].reg) && s.R(a[1].reg).kind == RInput && s.R(a[1].reg).g.count("pos")) {
                Lin from = s.R(a[1].reg).g.at("pos") + a[1].e;
                oblige("D01", cb, "handleData");
                if (!s.n.entailsEq(from - s.g["base"] - s.g["fed"])) alarm("D01", cb, "the event handler is given data out of sequence (skipped or repeated bytes)", &s);
                s.g["fed"] = s.n.simp(from - s.g["base"] + n);
            }
            oblige("D01", cb, "handler wants data");
            if (s.gi.count("declined")) alarm("D01", cb, "the event handler receives data after it asked for no more", &s);
            if (s.gi.count("ended") && s.gi["ended"]) alarm("D01", cb, "the event handler receives data after the end was announced", &s);
        } else {
            oblige("D01", cb, "handleEnd");
            if (s.gi.count("ended") && s.gi["ended"]) alarm("D01", cb, "the end is announced to the event handler more than once", &s);
            s.gi["ended"] = 1;
            // the end of the source, and everything before it, was seen
            for (auto& r : s.roots) if (r.k == VPtr && s.has(r.reg) && s.R(r.reg).cls == "stream") {
                const Lin st = s.R(r.reg).cells.at(off("Strigi::StreamBaseBase", "m_status")).v.e;
                if (!s.n.entailsEq(st - Lin(1))) alarm("D01", cb, "the end is announced to the event handler before the source has ended", &s);
                const Lin sz = s.R(r.reg).cells.at(off("Strigi::StreamBaseBase", "m_size")).v.e;
                if (!s.gi.count("declined") && s.g.count("fed") && !s.n.entailsEq(sz - s.g["base"] - s.g["fed"]))
                    alarm("D01", cb, "the end is announced to the event handler before it has been given all data", &s);
            }
        }
        Val v = cb->getType()->isVoidTy() ? Val() : Val::I_(freshInt(cb->getType()->getIntegerBitWidth(), "hret"));
        State t = s;
        if (v.k == VInt) { s.gi["declined"] = 1; out.push_back({s, Val::I_(Lin(0))}); out.push_back({t, Val::I_(Lin(1))}); }
        else out.push_back({s, v});
        return out;
    }
    if (R0.cls != "stream" && !decoder) {
        Val v = cb->getType()->isVoidTy() ? Val() : freshOf(s, cb->getType(), "fcall");
        out.push_back({s, v});
        return out;
    }
    long oSt = off("Strigi::StreamBaseBase", "m_status"), oPos = off("Strigi::StreamBaseBase", "m_position"),
         oSz = off("Strigi::StreamBaseBase", "m_size"), oErr = off("Strigi::StreamBaseBase", "m_error");
    Val self = Val::P(obj, 0);
    // status case split
    States sts, pre;
    if (decoder && !R0.gi.count("done") && !s.n.entailsEq(R0.cells.at(oSt).v.e - Lin(2))) { // it may use the stream below in any way
        const Val below = s.R(obj).cells.at(64).v;
        pre = anyUse(s, below, cb, true);
    } else pre.push_back(s);
    for (State& s : pre) {
        const Cell& c = s.R(obj).cells.at(oSt);
        I k;
        if (s.n.constOf(c.v.e, k)) sts.push_back(s);
        else for (int v = 0; v < 3; ++v) { State t = s; if (t.n.addEq(c.v.e - Lin(v))) { foreignSetStatus(t, obj, v); sts.push_back(t); } }
    }
    auto setErr = [&](State& t) {
        foreignSetStatus(t, obj, 2);
        t.gi["srcfail"] = 1;
        strset(t, Val::P(obj, oErr), Lin::sym(g_sym.fresh(1, LENMAX, "errlen")), cb);
    };
    // a stream does not end because the one below it failed
    auto belowFailed = [&](State& t) {
        const Val b = t.R(obj).cells.at(64).v;
        return t.has(b.reg) && t.R(b.reg).live && t.n.entailsEq(t.R(b.reg).cells.at(oSt).v.e - Lin(2));
    };
    auto ended = [&](State& t) { foreignSetStatus(t, obj, 1); if (decoder) t.W(obj).gi["done"] = 1; };
    auto pos = [&](State& t) { return t.R(obj).cells.at(oPos).v.e; };
    auto size = [&](State& t) { return t.R(obj).cells.at(oSz).v.e; };
    auto setPos = [&](State& t, const Lin& p) {
        if (t.g.count("left")) t.g["left"] = t.n.simp(t.g["left"] + pos(t) - p);
        t.W(obj).cells[oPos] = Cell{8, Val::I_(t.n.simp(p)), false};
        // how far the source has been seen to extend
        if (!t.R(obj).g.count("far")) return;
        Lin far = t.R(obj).g.at("far");
        if (t.n.entails(p - far)) return;
        if (t.n.entails(far - p)) { t.W(obj).g["far"] = t.n.simp(p); return; }
        Lin f = Lin::sym(g_sym.fresh(0, (I)1 << 62, "far"));
        t.n.addLe(far - f); t.n.addLe(p - f);
        t.W(obj).g["far"] = f;
    };
    // data that was seen once (and handed to an event handler) lies inside the size found later
    auto setSize = [&](State& t, const Lin& p) {
        t.W(obj).cells[oSz] = Cell{8, Val::I_(t.n.simp(p)), false};
        if (t.R(obj).g.count("far") && !t.n.addLe(t.R(obj).g.at("far") - p)) return false;
        return !t.g.count("fed") || !t.g.count("base") || t.n.addLe(t.g["base"] + t.g["fed"] - p);
    };
    auto seg = [&](State& t, const Lin& l, const Lin& h) { Region& W = t.W(obj); W.g["segLo"] = t.n.simp(l); W.g["segHi"] = t.n.simp(h); };
    const size_t first = out.size();
    struct Dry { Outs& o; size_t f; int slot, obj; long oSt; Engine& E; ~Dry() { // which calls came back with nothing because there is nothing more
        for (size_t i = f; i < o.size(); ++i) {
            State& t = o[i].s;
            I k, st;
            if (slot == 2 && o[i].v.k == VInt && t.n.constOf(o[i].v.e, k) && k < 0) E.markDry(t);
            else if (slot == 3 && o[i].v.k == VInt && t.n.constOf(o[i].v.e, k) && k <= 0 && t.n.constOf(t.R(obj).cells.at(oSt).v.e, st) && st) E.markDry(t);
            else if (slot >= 2 && slot <= 4) { t.gi.erase("dry"); t.gi.erase("dryst"); }
        } } } dryMark{out, first, slot, obj, oSt, *this};
    for (State& s1 : sts) {
        I st; s1.n.constOf(s1.R(obj).cells.at(oSt).v.e, st);
        if (st == 2 && decoders) s1.gi["srcfail"] = 1;
        const bool noEnd = decoder && belowFailed(s1);
        if (slot == 2) { // read(start, min, max)
            Lin mn = L(a[2]), mx = L(a[3]);
            killInputs(s1, obj);
            seg(s1, pos(s1), pos(s1));
            oblige("C01", cb, "read request");
            if (!s1.n.entails(Lin(1) - mn)) {
                alarm("C01", cb, "a read with a minimum that can be zero or negative is passed to the source", &s1);
                if (!s1.n.addLe(Lin(1) - mn)) continue;
            }
            if (st == 2) { out.push_back({s1, Val::I_(Lin(-2))}); continue; }
            if (st == 1) { out.push_back({s1, Val::I_(Lin(-1))}); continue; }
            { State t = s1; setErr(t); out.push_back({t, Val::I_(Lin(-2))}); }
            // size known?
            for (int known = 0; known < 2; ++known) {
                State u = s1;
                Lin sz = size(u);
                if (known ? !u.n.addLe(-sz) : !u.n.addEq(sz + Lin(1))) continue;
                { // end of stream
                    State t = u;
                    bool ok = true;
                    ok = known ? t.n.addEq(size(t) - pos(t)) : !noEnd && setSize(t, pos(t));
                    if (ok) { ended(t); t.gi["srceof"] = 1; out.push_back({t, Val::I_(Lin(-1))}); }
                }
                for (int lim = 0; lim < 2; ++lim) { // max respected or "no limit"
                    State v = u;
                    if (lim ? !v.n.addLe(mn - mx) : !v.n.addLe(mx - mn + Lin(1))) continue;
                    for (int eof = 0; eof < 2; ++eof) {
                        State t = v;
                        Lin n = Lin::sym(g_sym.fresh(1, ((I)1 << 31) - 1, "nread"));
                        if (lim && !t.n.addLe(n - mx)) continue;
                        if (!eof && !t.n.addLe(mn - n)) continue;
                        Lin p = pos(t), np = p + n;
                        // (how far a decoder has come only matters in comparison with its size)
                        if (decoder) { np = Lin::sym(g_sym.fresh(1, (I)1 << 62, "npos")); if (!t.n.addLe(p + Lin(1) - np)) continue; }
                        if (known) { if (eof ? !t.n.addEq(size(t) - np) : !t.n.addLe(np - size(t))) continue; }
                        else if (eof && (noEnd || !setSize(t, np))) continue;
                        int b = newRegion(t, RInput, n, "");
                        Region& B = t.W(b);
                        B.link = obj; B.buf = true; B.weak = true; B.site = cb; B.g["pos"] = t.n.simp(p);
                        store(t, a[1], Val::P(b, 0), 8, cb, false);
                        setPos(t, np); seg(t, p, np);
                        if (eof) { ended(t); t.gi["srceof"] = 1; }
                        out.push_back({t, Val::I_(t.n.simp(n))});
                    }
                }
            }
            continue;
        }
        if (slot == 3) { // skip(n)
            Lin n = L(a[1]);
            killInputs(s1, obj);
            oblige("C01", cb, "skip request");
            if (!s1.n.entails(-n)) {
                alarm("C01", cb, "a negative skip is passed to the source", &s1);
                if (!s1.n.addLe(-n)) continue;
            }
            seg(s1, pos(s1), pos(s1));
            if (st == 2) { out.push_back({s1, Val::I_(Lin(-2))}); State t = s1; out.push_back({t, Val::I_(Lin(-1))}); continue; }
            if (st == 1) { State t = s1; out.push_back({t, Val::I_(Lin(0))}); out.push_back({s1, Val::I_(Lin(-1))}); continue; }
            { // failure, possibly after some progress
                State t = s1; setErr(t);
                Lin k = Lin::sym(g_sym.fresh(0, (I)1 << 62, "skipped"));
                if (t.n.addLe(k - n)) { setPos(t, pos(t) + k); seg(t, pos(t), pos(t)); out.push_back({t, Val::I_(Lin::sym(g_sym.fresh(-2, -1, "skipret")))});
                    State t2 = t; out.push_back({t2, Val::I_(k)}); }
            }
            for (int known = 0; known < 2; ++known) {
                State u = s1;
                Lin sz = size(u);
                if (known ? !u.n.addLe(-sz) : !u.n.addEq(sz + Lin(1))) continue;
                { // complete, still Ok
                    State t = u; Lin np = pos(t) + n;
                    if (!known || t.n.addLe(np - size(t))) { setPos(t, np); seg(t, np, np); out.push_back({t, Val::I_(n)}); }
                }
                { // ended
                    State t = u;
                    Lin k = Lin::sym(g_sym.fresh(0, (I)1 << 62, "skipped"));
                    if (t.n.addLe(k - n)) {
                        Lin np = pos(t) + k;
                        bool ok = true;
                        ok = known ? t.n.addEq(size(t) - np) : !noEnd && setSize(t, np);
                        if (ok) { setPos(t, np); seg(t, np, np); ended(t); t.gi["srceof"] = 1; out.push_back({t, Val::I_(k)}); }
                    }
                }
            }
            continue;
        }
        if (slot == 4) { // reset(p)
            Lin p = L(a[1]);
            if (st == 2) { out.push_back({s1, Val::I_(Lin(-2))}); continue; }
            Lin sl = s1.R(obj).g.at("segLo"), sh = s1.R(obj).g.at("segHi");
            { // inside the last read segment: guaranteed
                State t = s1;
                if (t.n.addLe(sl - p, false) && t.n.addLe(p - sh)) {
                    if (st == 1) {
                        State t2 = t;
                        if (t2.n.addEq(p - sh)) { out.push_back({t2, Val::I_(p)}); }
                    }
                    setPos(t, p); foreignSetStatus(t, obj, 0);
                    out.push_back({t, Val::I_(p)});
                }
            }
            for (int side = 0; side < 2; ++side) {
                State u = s1;
                if (side ? !u.n.addLe(sh - p + Lin(1)) : !u.n.addLe(p - sl + Lin(1))) continue;
                killInputs(u, obj);
                { State t = u; setErr(t); out.push_back({t, Val::I_(Lin::sym(g_sym.fresh(-2, -1, "resetret")))}); }
                { // refused, position differs from the one asked for
                    State t = u;
                    Lin np = Lin::sym(g_sym.fresh(0, (I)1 << 62, "pos"));
                    // between the position it had and the one asked for
                    const Lin old = pos(t);
                    if (side ? t.n.addLe(old - np) && t.n.addLe(np - p + Lin(1)) : t.n.addLe(p + Lin(1) - np) && t.n.addLe(np - old)) {
                        I k;
                        bool ok = true;
                        Lin sz = size(t);
                        if (t.n.constOf(sz, k) && k < 0) {} else if (st == 0) { State v = t; if (v.n.addLe(-sz)) { if (v.n.addLe(np - sz)) { setPos(v, np); seg(v, np, np); out.push_back({v, Val::I_(np)}); } ok = t.n.addLe(sz + Lin(1)); } }
                        else ok = t.n.addEq(np - sz);
                        if (ok) { setPos(t, np); seg(t, np, np); out.push_back({t, Val::I_(np)}); }
                    }
                }
                { // possible after all
                    State t = u;
                    if (t.n.addLe(-p)) {
                        State k = t;
                        Lin sz = size(t);
                        if (t.n.addLe(-sz)) { if (t.n.addLe(p - sz)) { setPos(t, p); seg(t, p, p); foreignSetStatus(t, obj, 0); out.push_back({t, Val::I_(p)}); } }
                        if (k.n.addEq(size(k) + Lin(1))) { setPos(k, p); seg(k, p, p); foreignSetStatus(k, obj, 0); out.push_back({k, Val::I_(p)}); }
                    }
                }
            }
            continue;
        }
        out.push_back({s1, cb->getType()->isVoidTy() ? Val() : freshOf(s1, cb->getType(), "fcall")});
    }
    return out;
}

// The stream below another one, after that has used it in any way it may.
States Engine::anyUse(const State& s0, const Val& v, const CallBase* cb, bool below) {
    States out;
    if (v.k != VPtr || !s0.has(v.reg) || !s0.R(v.reg).live) { alarm("MEM", cb, "use of a stream that no longer exists", &s0); return out; }
    const long oSt = off("Strigi::StreamBaseBase", "m_status"), oPos = off("Strigi::StreamBaseBase", "m_position"),
         oSz = off("Strigi::StreamBaseBase", "m_size"), oErr = off("Strigi::StreamBaseBase", "m_error");
    const int r = v.reg;
    auto cell = [&](const State& s, int r, long o) { return s.R(r).cells.at(o).v.e; };
    ++quiet;
    if (below && s0.R(r).cls == "stream") {
        State s = s0; killInputs(s, r);
        auto put = [&](State t, const Lin& st, const Lin& sz, const Lin& p) {
            Region& W = t.W(r);
            W.cells[oSt] = Cell{4, Val::I_(st), false};
            W.cells[oSz] = Cell{8, Val::I_(sz), false};
            W.cells[oPos] = Cell{8, Val::I_(p), false};
            W.g["segLo"] = W.g["segHi"] = p;
            out.push_back(std::move(t));
        };
        auto any = [&](const char* n) { return Lin::sym(g_sym.fresh(0, (I)1 << 62, n)); };
        const Lin st = cell(s, r, oSt), sz = cell(s, r, oSz);
        State t = s;
        if (t.n.addEq(st - Lin(2))) put(t, Lin(2), cell(t, r, oSz), cell(t, r, oPos));
        if (s.n.addLe(st - Lin(1))) {
            t = s;
            strset(t, Val::P(r, oErr), Lin::sym(g_sym.fresh(1, LENMAX, "errlen")), cb);
            put(t, Lin(2), cell(t, r, oSz), any("pos"));
            t = s;
            if (t.n.addEq(sz + Lin(1))) {
                put(t, Lin(0), Lin(-1), any("pos"));
                const Lin z = any("size"), p = any("pos");
                t.n.addLe(p - z);
                put(t, Lin::sym(g_sym.fresh(0, 1, "status")), z, p);
            }
            t = s;
            if (t.n.addLe(-sz)) {
                const Lin p = any("pos");
                t.n.addLe(p - sz);
                put(t, Lin::sym(g_sym.fresh(0, 1, "status")), sz, p);
            }
        }
        mergeStates(out, 1);
        --quiet;
        return out;
    }
    const bool known = s0.gi.count("srcfail");
    auto unnoticed = [&](States& v) { if (!known) for (auto& t : v) t.gi.erase("srcfail"); };
    if (isForeignStream(s0, r)) {
        auto go = [&](const States& in, int slot, std::function<std::vector<Val>(State&)> args) {
            States res;
            for (auto& s : in) { State t = s; auto a = args(t); for (auto& o : foreignCall(t, r, slot, a, cb)) res.push_back(std::move(o.s)); }
            for (auto& t : res) killInputs(t, r);
            return res;
        };
        auto skip = [&](State&) { return std::vector<Val>{v, Val::I_(Lin::sym(g_sym.fresh(0, (I)1 << 61, "anyskip")))}; };
        auto reset = [&](State& s) { // only to a position it has had
            Lin p = Lin::sym(g_sym.fresh(0, (I)1 << 61, "anypos")); (void)s; return std::vector<Val>{v, Val::I_(p)}; };
        State s = s0; killInputs(s, r);
        States a{s};
        for (auto& t : go({s}, 3, skip)) a.push_back(t);
        mergeStates(a, 1);
        States b = a;
        for (auto& t : go(a, 4, reset)) b.push_back(t);
        mergeStates(b, 1);
        for (auto& t : go(b, 3, skip)) b.push_back(t);
        unnoticed(b);
        for (auto& t : b) { Region& W = t.W(r); W.g["segLo"] = W.g["segHi"] = cell(t, r, oPos); }
        mergeStates(b, 1);
        out = std::move(b);
    } else { // a sub-stream stays in step with its source
        const Val src = s0.R(r).cells.at(off("Strigi::SubInputStream", "m_input")).v;
        const Lin lo = cell(s0, r, off("Strigi::SubInputStream", "m_offset"));
        std::vector<State> in;
        for (int k = 0; k < 2; ++k) {
            State t = s0; Lin st = cell(t, r, oSt);
            if (k ? t.n.addEq(st - Lin(2)) : t.n.addLe(st - Lin(1))) {
                if (k) { out.push_back(t); continue; } // failed: nothing happens any more
                in.push_back(t);
            }
        }
        for (auto& s : in) for (auto& t : anyUse(s, src, cb, true)) {
            const Lin bs = cell(t, src.reg, oSt), bp = cell(t, src.reg, oPos);
            auto status = [&](State& u, int st) { u.W(r).cells[oSt] = Cell{4, Val::I_(Lin(st)), true}; };
            { State u = t; status(u, 2); strset(u, Val::P(r, oErr), Lin::sym(g_sym.fresh(1, LENMAX, "errlen")), cb); out.push_back(u); }
            I k;
            if (t.n.constOf(bs, k) && k == 2) { // the failure may not have been noticed yet, if this stream did nothing
                State z = s;
                if (z.n.addEq(cell(z, src.reg, oSt) - Lin(2))) out.push_back(z);
                continue;
            }
            for (int known = 0; known < 2; ++known) {
                State u = t;
                const Lin sz = cell(u, r, oSz), p = bp - lo;
                if (known ? !u.n.addLe(-sz) : !u.n.addEq(sz + Lin(1))) continue;
                if (!u.n.addLe(-p) || (known && !u.n.addLe(p - sz))) continue;
                u.W(r).cells[oPos] = Cell{8, Val::I_(u.n.simp(p)), false};
                State ok = u; status(ok, 0); out.push_back(ok);
                if (!known || u.n.addEq(p - sz)) {
                    if (!known) u.W(r).cells[oSz] = Cell{8, Val::I_(u.n.simp(p)), false};
                    status(u, 1); out.push_back(u);
                }
            }
        }
        unnoticed(out);
        mergeStates(out, below ? 1 : 3);
    }
    if (below) { // only told apart by failure
        for (auto& t : out) {
            t.W(r).cells[oSt].disc = false;
            if (!isForeignStream(t, r) && t.n.entailsEq(cell(t, r, oSt) - Lin(2))) t.W(r).gi["failed"] = 1;
        }
        mergeStates(out, 1);
    }
    --quiet;
    return out;
}
// Decoders and filters made by a provider: streams with contents of their own,
// using the stream below as they like.  (Their code is analysed by itself.)
bool Engine::mkDecoder(const std::string& n, State& s, std::vector<Val>& a, const CallBase* cb, Outs& out) {
    static const std::vector<std::string> cls{"GZip", "BZ2", "LZMA", "Base64"};
    std::string c;
    for (auto& k : cls) { const std::string p = "Strigi::" + k + "InputStream::" + k + "InputStream("; if (n.compare(0, p.size(), p) == 0) c = k; }
    if (n.find("Strigi::StringTerminatedSubStream::StringTerminatedSubStream(") == 0) c = "Term";
    if (c.empty()) return false;
    const Val self = a[0], below = a[1];
    oblige("MEM", cb, "construction of a stream over another");
    if (below.k != VPtr || below.isNull() || !s.has(below.reg) || !s.R(below.reg).live) { alarm("MEM", cb, "a stream is constructed over one that does not exist", &s); return true; }
    const long oSt = off("Strigi::StreamBaseBase", "m_status"), oPos = off("Strigi::StreamBaseBase", "m_position"),
         oSz = off("Strigi::StreamBaseBase", "m_size"), oErr = off("Strigi::StreamBaseBase", "m_error");
    const int r = self.reg;
    s.W(r).cells.clear(); s.W(r).cls = "decoder"; s.W(r).weak = true;
    int vt = newRegion(s, RForeignVT, Lin(0), "vt");
    s.W(vt).link = r;
    Region& R = s.W(r);
    R.cells[0] = Cell{8, Val::P(vt, 0), false};
    R.cells[64] = Cell{8, below, false};
    R.cells[oPos] = Cell{8, Val::I_(Lin(0)), false};
    R.g["segLo"] = R.g["segHi"] = Lin(0);
    States in;
    if (c == "Term" || c == "Base64") in.push_back(s); else in = anyUse(s, below, cb, true);
    for (auto& t : in) for (int st = 0; st < 3; st += 2) {
        State u = t;
        u.W(r).cells[oSt] = Cell{4, Val::I_(Lin(st)), true};
        Str e; e.len = st == 2 ? Lin::sym(g_sym.fresh(1, LENMAX, "errlen")) : Lin(0);
        u.W(r).strs[oErr] = e;
        u.W(r).cells[oSz] = Cell{8, Val::I_(Lin(-1)), false};
        if (st == 2 && (c == "Term" || c == "Base64")) continue;
        if (c == "LZMA" && st == 0) { State k = u; k.W(r).cells[oSz] = Cell{8, Val::I_(Lin::sym(g_sym.fresh(0, (I)1 << 62, "declared"))), false}; out.push_back({k, Val()}); }
        out.push_back({u, Val()});
    }
    return true;
}

// ------------------------------------------------------------- C library
// Classes of the library that are used through a contract instead of their code.
bool Engine::contract(const Function* f, const std::string& n, State& s, std::vector<Val>& a, const CallBase* cb, Outs& out) {
    if (decoders && mkDecoder(n, s, a, cb, out)) return true;
    static const std::string kmp = "Strigi::KmpSearcher::";
    if (n.compare(0, kmp.size(), kmp) != 0) return false;
    // a searcher is represented by the length of what it searches; a match lies completely inside the text
    const std::string m = n.substr(kmp.size());
    auto is = [&](const char* p) { return m.compare(0, strlen(p), p) == 0; };
    oblige("MEM", cb, "use of the string searcher");
    if (is("KmpSearcher()")) { strset(s, a[0], Lin(0), cb); out.push_back({s, Val()}); return true; }
    if (is("KmpSearcher(") || is("setQuery(")) { Lin l = str(s, a[1], cb).len; strset(s, a[0], l, cb); out.push_back({s, Val()}); return true; }
    if (is("~KmpSearcher(")) { if (a[0].k == VPtr && s.has(a[0].reg)) { I k; if (s.n.constOf(a[0].e, k)) s.W(a[0].reg).strs.erase((long)k); } out.push_back({s, Val()}); return true; }
    if (is("queryLength(")) { out.push_back({s, Val::I_(str(s, a[0], cb).len)}); return true; }
    if (is("search(")) {
        Lin q = str(s, a[0], cb).len, len = L(a[2]);
        if (!checkLen(*this, s, len, cb, "length of a search")) return true;
        if (!checkAccess(s, a[1], len, cb, false, " (search)")) return true;
        State t = s;
        // where the next search has to start: no possible match is left out in between
        const Val in = a[1];
        if (in.k == VPtr && in.reg && s.R(in.reg).kind == RInput && s.R(in.reg).g.count("pos") && s.has(s.R(in.reg).link)) {
            oblige("T03", cb, "search");
            const long oSt = off("Strigi::StreamBaseBase", "m_status"), oPos = off("Strigi::StreamBaseBase", "m_position");
            const Region& src = t.R(s.R(in.reg).link);
            const Lin back = src.cells.at(oPos).v.e - s.R(in.reg).g.at("pos") - in.e; // the source has moved on that far
            auto it = s.g.find("left"); // from the source's position to the first place not yet searched
            if (it != s.g.end() && !s.n.entails(-(it->second + back))) alarm("T03", cb, "part of the data is skipped by consecutive searches: what lies across the boundary is never found", &s);
            s.g.erase("left"); t.g.erase("left");
            I st;
            if (src.cells.count(oSt) && t.n.constOf(src.cells.at(oSt).v.e, st) && st == 0) { // (there is more to come)
                State u = t;
                // data too short for a match leaves everything to be searched again
                if (t.n.addLe(q - len)) { t.g["left"] = t.n.simp(len - q + Lin(1) - back); out.push_back({t, Val::Null()}); }
                if (u.n.addLe(len - q + Lin(1))) { u.g["left"] = u.n.simp(-back); out.push_back({u, Val::Null()}); }
            } else out.push_back({t, Val::Null()});
        } else out.push_back({t, Val::Null()});
        Lin k = Lin::sym(g_sym.fresh(0, LENMAX, "match"));
        if (!s.n.addLe(k + q - len)) return true;
        Val v = a[1]; v.e = v.e + k;
        out.push_back({s, v});
        return true;
    }
    if (is("query(")) { Lin l = str(s, a[1], cb).len; strset(s, a[0], l, cb); out.push_back({s, Val()}); return true; }
    throw Incomplete{"no contract for " + n};
}
bool Engine::model(const Function* f, const std::string& n, State& s, std::vector<Val>& a, const CallBase* cb, Outs& out) {
    const Instruction* at = cb;
    auto ret = [&](const Val& v) { out.push_back({s, v}); return true; };
    auto retI = [&](const Lin& l) { return ret(Val::I_(l)); };
    auto fresh = [&](I l, I h, const char* nm) { return Lin::sym(g_sym.fresh(l, h, nm)); };
    auto alloc = [&](const Lin& sz, int how, bool buf) {
        if (!checkLen(*this, s, sz, at, "allocation size")) return Val();
        int r = newRegion(s, RHeap, sz, "");
        Region& R = s.W(r); R.alloc = how; R.buf = buf; R.site = at;
        if (buf && content) R.g["init"] = Lin(0);
        oblige("R01", at, "allocation");
        return Val::P(r, 0);
    };
    if (n.compare(0, 13, "operator new(") == 0) {
        I c; bool k = s.n.constOf(L(a[0]), c);
        Val v = alloc(L(a[0]), 1, !k); if (v.k == VUndef) return true;
        return ret(v);
    }
    if (n.compare(0, 15, "operator new[](") == 0) { Val v = alloc(L(a[0]), 2, true); if (v.k == VUndef) return true; return ret(v); }
    if (n == "malloc" || n == "calloc") {
        Lin sz = L(a[0]); I c;
        if (n == "calloc") { I k; sz = s.n.constOf(L(a[1]), k) ? sz * k : fresh(0, (I)1 << 40, "calloc"); }
        bool k = s.n.constOf(sz, c);
        Val v = alloc(sz, 3, !k || c > 512); if (v.k == VUndef) return true;
        if (n == "calloc") { s.W(v.reg).gi["z@0"] = k ? (int)c : 0x7fffffff; if (s.R(v.reg).g.count("init")) s.W(v.reg).g["init"] = s.R(v.reg).size; }
        return ret(v);
    }
    if (n.compare(0, 16, "operator delete(") == 0) { if (!freeRegion(s, a[0], 1, at)) return true; return ret(Val()); }
    if (n.compare(0, 18, "operator delete[](") == 0) { if (!freeRegion(s, a[0], 2, at)) return true; return ret(Val()); }
    if (n == "free") { if (!freeRegion(s, a[0], 3, at)) return true; return ret(Val()); }
    if (n == "realloc") {
        Lin sz = L(a[1]);
        std::map<std::string, Lin> kept;
        if (a[0].k == VPtr && a[0].reg) {
            if (s.has(a[0].reg)) kept = s.R(a[0].reg).g;
            if (!freeRegion(s, a[0], 3, at)) return true;
        }
        Val v = alloc(sz, 3, true); if (v.k == VUndef) return true;
        s.W(v.reg).weak = true;
        if (kept.count("init")) {
            Lin init = kept["init"];
            if (!s.n.entails(init - sz)) {
                Lin m = fresh(0, (I)1 << 62, "init");
                s.n.addLe(m - init); s.n.addLe(m - sz);
                init = m;
            }
            s.W(v.reg).g["init"] = init;
            if (kept.count("tag")) s.W(v.reg).g["tag"] = kept["tag"];
        }
        return ret(v);
    }
    if (n == "memcpy" || n == "memmove") {
        Lin len = L(a[2]);
        if (!checkLen(*this, s, len, at, "length of a copy")) return true;
        if (!checkAccess(s, a[1], len, at, false, " (copy source)") || !checkAccess(s, a[0], len, at, true, " (copy target)")) return true;
        copyRange(s, a[0], a[1], len, at);
        return ret(a[0]);
    }
    if (n == "memset") {
        Lin len = L(a[2]);
        if (!checkLen(*this, s, len, at, "length of a fill")) return true;
        if (!checkAccess(s, a[0], len, at, true, " (fill)")) return true;
        havocRange(s, a[0], len);
        wrote(s, a[0], len);
        return ret(a[0]);
    }
    if (n == "memcmp") {
        Lin len = L(a[2]);
        if (!checkLen(*this, s, len, at, "length of a comparison")) return true;
        if (!checkAccess(s, a[0], len, at, false, " (comparison)") || !checkAccess(s, a[1], len, at, false, " (comparison)")) return true;
        for (int k = 0; k < 2; ++k) if (a[k].k == VPtr && s.has(a[k].reg) && s.R(a[k].reg).kind == RInput) {
            I o, l; if (!quiet && s.n.constOf(a[k].e, o) && s.n.constOf(len, l)) facts["magic:" + name(cb->getFunction())].insert(istr(o) + "+" + istr(l));
        }
        State t = s;
        out.push_back({t, Val::I_(Lin(0))});
        Lin y = freshInt(32, "memcmp");
        s.n.addNe(y);
        return retI(y);
    }
    // ---- the contract of fillBuffer, for the base class on its own (harness_tu.cpp)
    if (n == "hb_any") { State t = s; out.push_back({t, Val::I_(Lin(0))}); return retI(Lin(1)); }
    if (n == "hb_stop") return true;
    if (n == "hb_called") {
        oblige("C02", at, "fillBuffer");
        if (!s.n.entails(Lin(1) - L(a[0]))) alarm("C02", at, "fillBuffer is called without space to fill", &s);
        if (s.gi.count("fbend")) { alarm("C02", at, "fillBuffer is called again after it reported the end", &s); return true; }
        return ret(Val());
    }
    if (n == "hb_end") { s.gi["fbend"] = 1; return ret(Val()); }
    if (n == "hb_fill") {
        Lin sp = L(a[2]);
        if (!checkAccess(s, a[0], L(a[1]), at, true, " (buffer to fill)")) return true;
        if (s.gi.count("fbend")) return true;
        State e = s, f = s;
        e.gi["fbend"] = 1; f.gi["fbend"] = 1; f.gi["srcfail"] = 1;
        out.push_back({e, Val::I_(Lin(-1))});
        out.push_back({f, Val::I_(Lin(-2))});
        Lin k = fresh(0, (I)1 << 31, "filled");
        if (!s.n.addLe(k - sp)) return true;
        havocRange(s, a[0], L(a[1]));
        I w = 1, c1, c2;
        if (s.n.constOf(L(a[1]) - sp * (I)4, c1) && c1 == 0) w = 4;
        wrote(s, a[0], k * w);
        return retI(k);
    }
    if (n == "strlen") { bool ok; Lin l = cstrlen(s, a[0], at, ok); return retI(l); }
    if (n == "strncmp" || n == "strncasecmp") {
        Lin len = L(a[2]);
        if (!checkLen(*this, s, len, at, "length of a comparison")) return true;
        // a comparison stops at the end of a literal operand
        Lin need = len;
        for (int k = 0; k < 2; ++k) if (a[k].k == VPtr && s.has(a[k].reg) && s.R(a[k].reg).kind == RGlobal) {
            bool ok; Lin m = cstrlen(s, a[k], at, ok) + Lin(1);
            if (s.n.entails(m - need)) need = m;
        }
        for (int k = 0; k < 2; ++k) {
            if (a[k].k == VPtr && s.has(a[k].reg) && (s.R(a[k].reg).kind == RGlobal || s.R(a[k].reg).kind == RStr || s.R(a[k].reg).kind == ROpaque)) continue;
            if (!checkAccess(s, a[k], need, at, false, " (comparison)")) return true;
        }
        State t = s;
        out.push_back({t, Val::I_(Lin(0))});
        Lin y = freshInt(32, "strncmp");
        s.n.addNe(y);
        return retI(y);
    }
    if (n == "strcmp" || n == "strcasecmp") { bool ok; cstrlen(s, a[0], at, ok); cstrlen(s, a[1], at, ok); return retI(freshInt(32, "strcmp")); }
    if (n == "strchr" || n == "strrchr" || n == "strcasestr" || n == "strstr") {
        bool ok; Lin l = cstrlen(s, a[0], at, ok);
        if (n == "strcasestr" || n == "strstr") cstrlen(s, a[1], at, ok);
        State t = s;
        out.push_back({t, Val::Null()});
        Lin k = fresh(0, LENMAX, "strchr");
        if (!s.n.addLe(k - l)) return true;
        Val v = a[0]; v.e = v.e + k;
        return ret(v);
    }
    if (n == "memchr") {
        Lin len = L(a[2]);
        if (!checkLen(*this, s, len, at, "length of a search")) return true;
        if (!checkAccess(s, a[0], len, at, false, " (search)")) return true;
        State t = s;
        out.push_back({t, Val::Null()});
        Lin k = fresh(0, LENMAX, "memchr");
        if (!s.n.addLe(k - len + Lin(1))) return true;
        Val v = a[0]; v.e = v.e + k;
        return ret(v);
    }
    if (n == "strspn" || n == "strcspn") { bool ok; Lin l = cstrlen(s, a[0], at, ok); Lin k = fresh(0, LENMAX, "strspn"); s.n.addLe(k - l); return retI(k); }
    if (n == "strnlen") {
        Lin len = L(a[1]);
        if (!checkAccess(s, a[0], len, at, false, " (search)")) return true;
        Lin k = fresh(0, LENMAX, "strnlen"); s.n.addLe(k - len); return retI(k);
    }
    if (n == "atoi" || n == "atol" || n == "strtol" || n == "strtoll" || n == "strtoul") {
        bool ok; cstrlen(s, a[0], at, ok);
        Lin v = freshInt(cb->getType()->getIntegerBitWidth(), a[0].k == VPtr && s.has(a[0].reg) ? ("num(" + s.n.simp(a[0].e).str() + ")").c_str() : "num");
        return retI(v);
    }
    if (n == "__isoc23_sscanf" || n == "sscanf" || n == "__isoc99_sscanf") {
        bool ok; cstrlen(s, a[0], at, ok);
        State t = s;
        out.push_back({t, Val::I_(fresh(-1, 0, "sscanf"))});
        // format: find conversions
        std::string fmt;
        if (a[1].k == VPtr && s.has(a[1].reg) && s.R(a[1].reg).gv)
            if (auto* cd = dyn_cast<ConstantDataSequential>(s.R(a[1].reg).gv->getInitializer())) if (cd->isString()) fmt = cd->getAsString().str().c_str();
        size_t k = 2;
        for (size_t i = 0; i + 1 < fmt.size() && k < a.size(); ++i) {
            if (fmt[i] != '%') continue;
            ++i;
            if (fmt[i] == '%') continue;
            while (i < fmt.size() && isdigit(fmt[i])) ++i;
            int ll = 0, hh = 0;
            while (i < fmt.size() && (fmt[i] == 'l' || fmt[i] == 'h' || fmt[i] == 'j' || fmt[i] == 'z')) { if (fmt[i] == 'h') ++hh; else ++ll; ++i; }
            char c = fmt[i];
            int w = ll ? 8 : hh == 1 ? 2 : hh == 2 ? 1 : 4;
            if (c == 's' || c == '[' || c == 'c') { havocRange(s, a[k], Lin(1)); ++k; continue; }
            if (!checkAccess(s, a[k], Lin(w), at, true, " (scanf result)")) return true;
            std::string nm = "scan";
            Lin v = (c == 'o' || c == 'x' || c == 'u') ? freshInt(w * 8, nm) : freshInt(w * 8, nm);
            store(s, a[k], Val::I_(v), w, at, false);
            ++k;
        }
        return retI(Lin((I)(k - 2)));
    }
    if (n == "snprintf") {
        Lin len = L(a[1]);
        if (!checkLen(*this, s, len, at, "buffer length")) return true;
        if (!checkAccess(s, a[0], len, at, true, " (formatted output)")) return true;
        havocRange(s, a[0], len);
        if (a[0].k == VPtr && a[0].reg && s.has(a[0].reg)) s.W(a[0].reg).g["nul"] = s.n.simp(a[0].e + len - Lin(1));
        return retI(fresh(0, LENMAX >> 10, "snprintf"));
    }
    if (n == "fprintf" || n == "printf" || n == "puts" || n == "putchar" || n == "fputs" || n == "fwrite" || n == "fflush") return retI(freshInt(32, "io"));
    if (n == "isspace" || n == "isxdigit" || n == "isblank" || n == "isdigit" || n == "isalpha" || n == "isalnum" || n == "tolower" || n == "toupper") {
        return retI(freshInt(32, "ctype"));
    }
    if (n == "__errno_location") {
        for (auto& p : s.mem.r()) if (p.second->cls == "errno") return ret(Val::P(p.first, 0));
        int r = newRegion(s, ROpaque, Lin(4), "errno"); s.W(r).weak = true; s.W(r).gi["nonnull"] = 1;
        return ret(Val::P(r, 0));
    }
    if (n == "strerror") {
        int r = newRegion(s, RStr, Lin(0), "strerror");
        Lin l = fresh(1, 4096, "strerror");
        s.W(r).size = l + Lin(1); s.W(r).g["len"] = l; s.W(r).weak = true; s.W(r).buf = true;
        return ret(Val::P(r, 0));
    }
    auto errnoHavoc = [&](State& t) {
        for (auto& p : t.mem.r()) if (p.second->cls == "errno") { t.W(p.first).cells.clear(); return; }
    };
    if (n == "__assert_fail") {
        std::string e;
        if (a[0].k == VPtr && s.has(a[0].reg) && s.R(a[0].reg).gv && s.R(a[0].reg).gv->hasInitializer())
            if (auto* cd = dyn_cast<ConstantDataSequential>(s.R(a[0].reg).gv->getInitializer())) if (cd->isString()) e = cd->getAsString().str().c_str();
        alarm("ASSERT", at, "assertion can fail: " + e, &s);
        if (verbose && !quiet) {
            fprintf(stderr, "assert %s\n", e.c_str());
            for (auto& c : s.n.cons.r()) fprintf(stderr, "    %s <= 0\n", c.str().c_str());
            for (auto& q : s.n.eq.r()) fprintf(stderr, "    s%d = %s\n", q.first, q.second.str().c_str());
            for (auto& q : s.n.bnd.r()) fprintf(stderr, "    s%d (%s) in [%s,%s]\n", q.first, g_sym.name[q.first].c_str(), istr(s.n.slo(q.first)).c_str(), istr(s.n.shi(q.first)).c_str());
        }
        return true;
    }
    if (n == "abort" || n == "__cxa_pure_virtual" || n.compare(0, 12, "std::__throw") == 0 || n == "std::terminate()") {
        alarm("ASSERT", at, "execution can reach " + n, &s);
        return true;
    }
    if (n == "exit" || n == "_exit") {
        oblige("R04", at, n);
        if (!s.gi.count("child")) alarm("G03", at, "the library can end the calling process", &s);
        else if (n == "exit") alarm("R04", at, "the child process ends with the exit handlers and unwritten output of its parent", &s);
        return true;
    }
    if (n == "__cxa_guard_acquire") return retI(fresh(0, 1, "guard"));
    if (n == "__cxa_guard_release" || n == "__cxa_atexit") return ret(cb->getType()->isVoidTy() ? Val() : Val::I_(Lin(0)));
    // ---- stdio
    auto file = [&](const Val& v, const char* fn) -> bool {
        oblige("R02", at, fn);
        if (v.k == VUndef) { alarm("R02", at, std::string(fn) + " on an uninitialised handle", &s); return false; }
        if (v.isNull()) { alarm("R02", at, std::string(fn) + " on a null handle", &s); return false; }
        if (v.k == VInt || (v.k == VPtr && v.reg == 0)) {
            Lin e = v.e;
            if (s.n.entails(e + Lin(1))) { alarm("R02", at, std::string(fn) + " on a descriptor that was never opened", &s); return false; }
            return true;
        }
        if (v.k == VPtr && s.has(v.reg) && s.R(v.reg).kind == RFile && !s.R(v.reg).live) { alarm("R02", at, std::string(fn) + " on a handle that was already closed", &s); return false; }
        return true;
    };
    auto newFile = [&](State& t, const char* cls) { int r = newRegion(t, RFile, Lin(0), cls); t.W(r).site = at; t.W(r).gi["ferr"] = 0; t.W(r).gi["nonnull"] = 1; return Val::P(r, 0); };
    if (n == "fopen" || n == "fopen64" || n == "fdopen") {
        bool ok; if (n != "fdopen") cstrlen(s, a[0], at, ok);
        State t = s; errnoHavoc(t);
        out.push_back({t, Val::Null()});
        Val f = newFile(s, "FILE"); if (n != "fdopen") s.W(f.reg).g["pos"] = Lin(0);
        return ret(f);
    }
    if (n == "fclose") {
        if (!file(a[0], "fclose")) return true;
        if (a[0].k == VPtr && s.has(a[0].reg) && s.R(a[0].reg).kind == RFile) s.W(a[0].reg).live = false;
        return retI(freshInt(32, "fclose"));
    }
    if (n == "fread") {
        if (!file(a[3], "fread")) return true;
        Lin sz = L(a[1]), cnt = L(a[2]);
        I k1, k2; Lin total;
        if (s.n.constOf(sz, k1)) total = cnt * k1; else if (s.n.constOf(cnt, k2)) total = sz * k2; else total = fresh(0, LENMAX, "fread");
        if (!checkLen(*this, s, total, at, "length of a file read")) return true;
        if (!checkAccess(s, a[0], total, at, true, " (file read target)")) return true;
        havocRange(s, a[0], total);
        bool isF = a[3].k == VPtr && s.has(a[3].reg) && s.R(a[3].reg).kind == RFile;
        auto adv = [&](State& t, const Lin& r) {
            const bool known = isF && t.R(a[3].reg).g.count("pos");
            Lin from; if (known) from = t.R(a[3].reg).g.at("pos");
            wrote(t, a[0], r, known ? &from : nullptr);
            if (known) t.W(a[3].reg).g["pos"] = t.n.simp(from + r);
        };
        const int flag = isF && s.R(a[3].reg).gi.count("ferr") ? s.R(a[3].reg).gi.at("ferr") : 0;
        // the end of file indicator is sticky until the file is repositioned
        if (flag == 1) { s.gi["srceof"] = 1; markDry(s); return retI(Lin(0)); }
        { State t = s; if (isF && flag != 2) t.W(a[3].reg).gi["ferr"] = 0; adv(t, total);
          bool ok = true;
          if (isF && t.R(a[3].reg).g.count("pos") && t.R(a[3].reg).g.count("size")) {
              Lin fp = t.R(a[3].reg).g.at("pos"), fs = t.R(a[3].reg).g.at("size");
              for (auto& v : split(t, fs, 1)) {
                  State u = v.first;
                  if (u.n.entails(Lin(1) - fs) && !u.n.addLe(fp - fs)) continue;
                  out.push_back({u, Val::I_(cnt)});
              }
          } else out.push_back({t, Val::I_(cnt)}); }
        for (int e = 1; e <= 2; ++e) {
            State t = s; Lin r = fresh(0, LENMAX, "fread");
            if (!t.n.addLe(r - cnt + Lin(1))) continue;
            if (isF) t.W(a[3].reg).gi["ferr"] = e;
            if (e == 2) t.gi["srcfail"] = 1;
            if (e == 1) t.gi["srceof"] = 1;
            I k; adv(t, s.n.constOf(sz, k) ? r * k : fresh(0, LENMAX, "x"));
            errnoHavoc(t);
            // a file of known, non-zero size ends exactly there (files do not change while they are read)
            if (e == 1 && isF && t.R(a[3].reg).g.count("pos") && t.R(a[3].reg).g.count("size")) {
                Lin fp = t.R(a[3].reg).g.at("pos"), fs = t.R(a[3].reg).g.at("size");
                for (auto& v : split(t, fs, 1)) {
                    State u = v.first;
                    if (u.n.entails(Lin(1) - fs) && !u.n.addEq(fp - fs)) continue;
                    u.W(a[3].reg).g["size"] = fp;
                    out.push_back({u, Val::I_(r)});
                }
                continue;
            }
            // wherever it ends, that is its size from now on
            if (e == 1 && isF && t.R(a[3].reg).g.count("pos")) { Lin fp = t.R(a[3].reg).g.at("pos"); t.W(a[3].reg).g["size"] = fp; }
            out.push_back({t, Val::I_(r)});
        }
        return true;
    }
    if (n == "ferror" || n == "feof") {
        if (!file(a[0], n.c_str())) return true;
        if (a[0].k == VPtr && s.has(a[0].reg) && s.R(a[0].reg).kind == RFile) {
            int e = s.R(a[0].reg).gi.count("ferr") ? s.R(a[0].reg).gi.at("ferr") : 0;
            return retI(Lin((n == "ferror") ? (e == 2 ? 1 : 0) : (e == 1 ? 1 : 0)));
        }
        return retI(freshInt(32, "ferr"));
    }
    if (n == "fseek" || n == "fseeko" || n == "fseeko64") {
        if (!file(a[0], n.c_str())) return true;
        bool isF = a[0].k == VPtr && s.has(a[0].reg) && s.R(a[0].reg).kind == RFile;
        I wh; Lin o = L(a[1]);
        // a file that could be positioned before can be positioned inside its own extent
        State t = s; errnoHavoc(t);
        bool fails = true;
        if (isF && s.R(a[0].reg).gi.count("seekable") && s.R(a[0].reg).g.count("size") && s.n.constOf(L(a[2]), wh) && (wh == 0 || wh == 2)) {
            Lin sz = s.R(a[0].reg).g.at("size");
            Lin q = wh == 2 ? sz + o : o;
            if (s.n.entails(-q) && s.n.entails(q - sz)) fails = false;
        }
        if (fails) { t.gi["seekfail"] = 1; out.push_back({t, Val::I_(Lin(-1))}); }
        if (isF) {
            s.W(a[0].reg).gi["seekable"] = 1;
            Region& R = s.W(a[0].reg);
            R.gi["ferr"] = R.gi["ferr"] == 1 ? 0 : R.gi["ferr"];
            if (s.n.constOf(L(a[2]), wh)) {
                if (wh == 0) { if (!s.n.addLe(-o)) return true; s.W(a[0].reg).g["pos"] = s.n.simp(o); }
                else if (wh == 1) { if (R.g.count("pos")) { Lin np = R.g["pos"] + o; if (!s.n.addLe(-np)) return true; s.W(a[0].reg).g["pos"] = s.n.simp(np); } }
                else if (wh == 2) {
                    if (!R.g.count("size")) R.g["size"] = fresh(0, (I)1 << 62, "fsize");
                    Lin np = s.R(a[0].reg).g.at("size") + o; if (!s.n.addLe(-np)) return true; s.W(a[0].reg).g["pos"] = s.n.simp(np);
                }
            }
        }
        return retI(Lin(0));
    }
    if (n == "ftell" || n == "ftello" || n == "ftello64") {
        if (!file(a[0], n.c_str())) return true;
        bool isF = a[0].k == VPtr && s.has(a[0].reg) && s.R(a[0].reg).kind == RFile;
        State t = s; errnoHavoc(t);
        if (!isF || !s.R(a[0].reg).gi.count("seekable")) out.push_back({t, Val::I_(Lin(-1))});
        if (isF && s.R(a[0].reg).g.count("pos")) return retI(s.R(a[0].reg).g.at("pos"));
        Lin p = fresh(0, (I)1 << 62, "ftell");
        if (isF) s.W(a[0].reg).g["pos"] = p;
        return retI(p);
    }
    // ---- descriptors
    if (n == "open" || n == "open64") {
        bool ok; cstrlen(s, a[0], at, ok);
        State t = s; errnoHavoc(t);
        out.push_back({t, Val::I_(Lin(-1))});
        return ret(newFile(s, "fd"));
    }
    if (n == "close") {
        if (!file(a[0], "close")) return true;
        if (a[0].k == VPtr && s.has(a[0].reg) && s.R(a[0].reg).kind == RFile) s.W(a[0].reg).live = false;
        return retI(freshInt(32, "close"));
    }
    if (n == "read" || n == "write") {
        if (!file(a[0], n.c_str())) return true;
        Lin len = L(a[2]);
        if (!checkLen(*this, s, len, at, "length of a descriptor transfer")) return true;
        if (!checkAccess(s, a[1], len, at, n == "read", n == "read" ? " (descriptor read target)" : " (descriptor write source)")) return true;
        if (n == "read") havocRange(s, a[1], len); else fedTo(*this, s, a[1], len, at);
        State t = s; errnoHavoc(t);
        out.push_back({t, Val::I_(Lin(-1))});
        Lin r = fresh(0, LENMAX, "rw");
        if (!s.n.addLe(r - len)) return true;
        if (n == "read") {
            State z = s;
            if (z.n.addEq(r)) { markDry(z); wrote(z, a[1], r); out.push_back({z, Val::I_(Lin(0))}); }
            if (!s.n.addLe(Lin(1) - r)) return true;
            s.gi.erase("dry"); s.gi.erase("dryst");
        }
        if (n == "write" && s.g.count("eaten")) s.g["eaten"] = s.n.simp(s.g["eaten"] + r);
        if (n == "write") facts["write-sites"].insert(loc(at)); else wrote(s, a[1], r);
        return retI(r);
    }
    if (n == "fstat" || n == "fstat64" || n == "stat64" || n == "stat" || n == "lstat") {
        State t = s; errnoHavoc(t);
        out.push_back({t, Val::I_(Lin(-1))});
        if (a[1].k == VPtr && s.has(a[1].reg) && a[1].reg) {
            if (!checkAccess(s, a[1], Lin(144), at, true, " (stat result)")) return true;
            havocRange(s, a[1], Lin(144));
            I o; if (s.n.constOf(a[1].e, o)) s.W(a[1].reg).cells[(long)o + 48] = Cell{8, Val::I_(fresh(0, (I)1 << 62, "st_size")), false};
        }
        return retI(Lin(0));
    }
    if (n == "mmap" || n == "mmap64") {
        if (!file(a[4], "mmap")) return true;
        State t = s; errnoHavoc(t);
        out.push_back({t, Val::P(0, Lin(-1))});
        Lin len = L(a[1]);
        if (!s.n.addLe(Lin(1) - len)) return true; // zero length mappings fail
        int r = newRegion(s, RHeap, len, ""); Region& R = s.W(r); R.alloc = 4; R.weak = true; R.buf = true; R.site = at; 
        return ret(Val::P(r, 0));
    }
    if (n == "munmap") {
        oblige("R02", at, "munmap");
        if (a[0].k == VPtr && a[0].reg && s.has(a[0].reg) && s.R(a[0].reg).kind == RHeap) {
            const Region& R = s.R(a[0].reg);
            if (!R.live) { alarm("R02", at, "mapping is released twice", &s); return true; }
            if (R.alloc != 4) { alarm("R02", at, "munmap of memory that is not a mapping", &s); return true; }
            if (!s.n.entailsEq(L(a[1]) - R.size) || !s.n.entailsEq(a[0].e)) alarm("R02", at, "mapping is released with a different address or length", &s);
            s.W(a[0].reg).live = false;
            return retI(Lin(0));
        }
        alarm("R02", at, "munmap of an address that was never mapped", &s);
        return true;
    }
    if (n == "madvise" || n == "posix_fadvise") return retI(Lin(0));
    if (n == "pipe") {
        State t = s; errnoHavoc(t);
        out.push_back({t, Val::I_(Lin(-1))});
        if (!checkAccess(s, a[0], Lin(8), at, true, " (pipe result)")) return true;
        Val x = newFile(s, "pipe"), y = newFile(s, "pipe");
        Val p1 = a[0]; store(s, p1, x, 4, at, false);
        p1.e = p1.e + Lin(4); store(s, p1, y, 4, at, false);
        return retI(Lin(0));
    }
    if (n == "fork" || n == "vfork") {
        State t = s; errnoHavoc(t);
        out.push_back({t, Val::I_(Lin(-1))});
        State c = s; c.gi["child"] = 1;
        for (auto& p : c.mem.r()) if (p.second->kind == RHeap) {} 
        out.push_back({c, Val::I_(Lin(0))});
        Lin pid = fresh(2, 0x7fffffff, "pid");
        s.g["pid"] = pid; s.gi["haschild"] = 1;
        return retI(pid);
    }
    if (n == "dup2" || n == "dup") { if (!file(a[0], "dup2")) return true; return retI(freshInt(32, "dup")); }
    if (n == "execve" || n == "execv" || n == "execvp") {
        oblige("R04", at, "exec");
        if (!s.gi.count("child")) alarm("R04", at, "the calling process itself can be replaced by exec", &s);
        return retI(Lin(-1));
    }
    if (n == "kill") {
        oblige("R04", at, "kill");
        Lin p = L(a[0]), sig = L(a[1]);
        I c;
        if (!s.g.count("pid") || !s.n.entailsEq(p - s.g["pid"])) alarm("R04", at, "a signal is sent to a process that is not the child started here", &s);
        else if (s.gi.count("reaped")) alarm("R04", at, "a signal is sent to a child that was already waited for", &s);
        (void)c; (void)sig;
        return retI(freshInt(32, "kill"));
    }
    if (n == "waitpid" || n == "wait") {
        oblige("R04", at, "wait");
        if (a.size() > 1 && a[1].k == VPtr && a[1].reg) { if (!checkAccess(s, a[1], Lin(4), at, true, " (wait status)")) return true; havocRange(s, a[1], Lin(4)); }
        I opt = 0; bool noHang = a.size() > 2 && !(s.n.constOf(L(a[2]), opt) && opt == 0);
        Lin p = n == "wait" ? Lin(-1) : L(a[0]);
        if (n == "waitpid" && (!s.g.count("pid") || !s.n.entailsEq(p - s.g["pid"]))) { alarm("R04", at, "a process that is not the child started here is waited for", &s); }
        if (noHang) { State t = s; out.push_back({t, Val::I_(Lin(0))}); }
        s.gi["reaped"] = 1;
        return retI(p);
    }
    // ---- codecs with the zlib/bzip2 stream layout
    auto codecKey = [&](const Val& v) { I c; return s.n.constOf(v.e, c) ? "codec@" + istr(c) : std::string("codec@?"); };
    auto cstate = [&](State& t, const Val& v) { auto& g = t.R(v.reg).gi; auto it = g.find(codecKey(v)); return it == g.end() ? 0 : it->second; };
    bool isZ = n.compare(0, 7, "inflate") == 0 || n.compare(0, 7, "deflate") == 0, isB = n.compare(0, 6, "BZ2_bz") == 0;
    if (isZ || isB) {
        Val z = a[0];
        if (!checkAccess(s, z, Lin(isZ ? 112 : 80), at, true, " (codec state)")) return true;
        if (z.k != VPtr || !s.has(z.reg)) return retI(freshInt(32, "codec"));
        if (n.find("Init") != std::string::npos) {
            oblige("R02", at, n);
            if (cstate(s, z) == 1) alarm("R02", at, "codec state is initialised again without being released", &s);
            for (long o : isZ ? std::vector<long>{0, 8, 64, 72, 80} : std::vector<long>{56, 64, 72}) {
                Val q = z; q.e = q.e + Lin(o);
                if (o <= 8 && n.compare(0, 7, "inflate") != 0) continue;
                Type* t = o == 8 ? (Type*)Type::getInt32Ty(M.getContext()) : (Type*)PointerType::getUnqual(M.getContext());
                if (load(s, q, t, at).k == VUndef) { alarm("MEM", at, "codec is initialised from uninitialised fields", &s); break; }
            }
            long so = isZ ? 56 : 48;
            State t = s; t.gi["codecerr"] = 1;
            Val q = z; q.e = q.e + Lin(so);
            store(t, q, Val::Null(), 8, at, false);
            out.push_back({t, Val::I_(fresh(isB ? -9 : -6, -2, "initerr"))});
            Val st = freshOf(s, PointerType::getUnqual(M.getContext()), "codecstate");
            s.W(st.reg).gi["nonnull"] = 1;
            store(s, q, st, 8, at, false);
            // message and totals become defined
            s.W(z.reg).gi[codecKey(z)] = 1;
            s.gi.erase("codecerr"); s.gi["codecend"] = 0;
            return retI(Lin(0));
        }
        if (n.find("End") != std::string::npos) {
            oblige("R02", at, n);
            long so = isZ ? 56 : 48;
            Val q = z; q.e = q.e + Lin(so);
            if (load(s, q, PointerType::getUnqual(M.getContext()), at).k == VUndef) { alarm("R02", at, "codec state is released although it was never initialised", &s); return true; }
            s.W(z.reg).gi[codecKey(z)] = 2;
            store(s, q, Val::Null(), 8, at, false);
            return retI(freshInt(32, "end"));
        }
        if (n.find("Reset") != std::string::npos) { s.gi["codecend"] = 0; return retI(Lin(0)); }
        // inflate / deflate / BZ2_bzDecompress
        oblige("R02", at, n);
        if (cstate(s, z) != 1) { alarm("R02", at, "codec is used without being initialised", &s); return true; }
        auto fld = [&](State& t, long o, Type* ty) { Val q = z; q.e = q.e + Lin(o); return load(t, q, ty, at); };
        auto set = [&](State& t, long o, const Val& v, int w) { Val q = z; q.e = q.e + Lin(o); store(t, q, v, w, at, false); };
        Type* PT = PointerType::getUnqual(M.getContext()); Type* IT = Type::getInt32Ty(M.getContext());
        Val ni = fld(s, 0, PT), ai = fld(s, 8, IT), no = fld(s, 24, PT), ao = fld(s, 32, IT);
        if (ni.k == VUndef && ai.k == VInt && s.n.entailsEq(ai.e)) ni = Val::Null(); // not looked at
        if (ai.k == VUndef || ao.k == VUndef || ni.k == VUndef || no.k == VUndef) { alarm("MEM", at, "codec is run with uninitialised buffer fields", &s); return true; }
        for (int k = 0; k < 2; ++k) {
            Lin len = L(k ? ao : ai);
            if (!checkLen(*this, s, len, at, k ? "codec output space" : "codec input length")) return true;
            I c0; if (s.n.constOf(len, c0) && c0 == 0) continue;
            if (!checkAccess(s, k ? no : ni, len, at, k, k ? " (codec output)" : " (codec input)")) return true;
        }
        Lin lin = L(ai), lout = L(ao);
        fedTo(*this, s, ni, lin, at);
        havocRange(s, no, lout);
        auto run1 = [&](State t, bool progress, bool none, Lin rv, int err, int end, int full) {
            Lin ci = none ? Lin(0) : fresh(0, (I)1 << 32, "consumed"), co = none ? Lin(0) : fresh(0, (I)1 << 32, "produced");
            if (!none && (!t.n.addLe(ci - lin) || !t.n.addLe(co - lout))) return;
            if (progress && !t.n.addLe(Lin(1) - ci - co)) return;
            // it stops when its input is used up or its output is full
            t.gi.erase("instop"); if (full == 1 || full == 3) t.gi["instop"] = 1;
            // while its output is full it may have more without further input
            t.gi.erase("sated"); if (full == 2 || full == 3) t.gi["sated"] = 1;
            if ((full == 1 || full == 3) && !t.n.addEq(ci - lin)) return;
            if (full == 1 && !t.n.addLe(co + Lin(1) - lout)) return;
            if (full == 3 && !t.n.addEq(co - lout)) return;
            if (full == 2 && (!t.n.addEq(co - lout) || !t.n.addLe(ci + Lin(1) - lin))) return;
            if (!none) wrote(t, no, co);
            if (t.g.count("eaten")) t.g["eaten"] = t.n.simp(t.g["eaten"] + ci);
            Val x = ni, y = no;
            x.e = x.e + ci; y.e = y.e + co;
            set(t, 0, x, 8); set(t, 8, Val::I_(t.n.simp(lin - ci)), 4);
            set(t, 24, y, 8); set(t, 32, Val::I_(t.n.simp(lout - co)), 4);
            if (isZ) { Val q = z; q.e = q.e + Lin(48); Val msg = Val::Null(); if (err) msg = freshOf(t, PT, "zmsg"); store(t, q, msg, 8, at, false); }
            if (err) t.gi["codecerr"] = 1;
            if (end) t.gi["codecend"] = 1;
            out.push_back({t, Val::I_(rv)});
        };
        auto run = [&](State t, bool progress, bool none, Lin rv, int err, int end) {
            if (err || end) return run1(t, progress, none, rv, err, end, 0);
            run1(t, progress, none, rv, err, end, 1);
            run1(t, progress, none, rv, err, end, 2);
            run1(t, progress, none, rv, err, end, 3);
        };
        I flush = -1;
        if (n.compare(0, 7, "deflate") == 0) {
            // compressing has no corrupt input; only finishing reaches the end, and it always gets on
            s.n.constOf(L(a[1]), flush);
            if (flush == 4) for (int full : {2, 3}) run1(s, true, false, Lin(0), 0, 0, full); // (finishing pauses only for space)
            else run(s, true, false, Lin(0), 0, 0);
            if (flush == 4 || flush == -1) run(s, false, false, Lin(1), 0, 1);
            if (flush != 4) run(s, false, true, Lin(-5), 0, 0);
        } else if (isZ) {
            run(s, true, false, Lin(0), 0, 0);
            run(s, false, false, Lin(1), 0, 1);
            run(s, false, true, Lin(-5), 0, 0);
            run(s, false, false, fresh(-4, -3, "zerr"), 1, 0);
            run(s, false, false, Lin(2), 1, 0);
        } else {
            run(s, false, false, Lin(0), 0, 0);
            run(s, false, false, Lin(4), 0, 1);
            run(s, false, false, fresh(-5, -2, "bzerr"), 1, 0);
        }
        return true;
    }
    if (n.compare(0, 4, "Lzma") == 0) {
        if (n == "LzmaProps_Decode") { State t = s; t.gi["codecerr"] = 1; out.push_back({t, Val::I_(Lin(4))}); if (a[0].k == VPtr && a[0].reg && s.has(a[0].reg)) havocRange(s, a[0], Lin(16)); if (!checkAccess(s, a[1], L(a[2]), at, false, " (codec properties)")) return true; return retI(Lin(0)); }
        Val z = a[0];
        if (!checkAccess(s, z, Lin(8), at, true, " (codec state)")) return true;
        if (z.k != VPtr || !s.has(z.reg)) return retI(freshInt(32, "codec"));
        if (n == "LzmaDec_Allocate") {
            oblige("R02", at, n);
            if (!checkAccess(s, a[1], L(a[2]), at, false, " (codec properties)")) return true;
            State t = s; t.gi["codecerr"] = 1;
            out.push_back({t, Val::I_(fresh(1, 20, "lzerr"))});
            s.W(z.reg).gi[codecKey(z)] = 1; s.gi["codecend"] = 0;
            return retI(Lin(0));
        }
        if (n == "LzmaDec_Init") { return ret(Val()); }
        if (n == "LzmaDec_Free") {
            oblige("R02", at, n);
            Val q = z; q.e = q.e + Lin(16);
            bool init = false;
            for (auto& c : s.R(z.reg).cells) (void)c, init = true;
            if (!cstate(s, z) && !init && !s.R(z.reg).weak) { alarm("R02", at, "codec state is released although it was never initialised", &s); return true; }
            s.W(z.reg).gi[codecKey(z)] = 2;
            return ret(Val());
        }
        if (n == "LzmaDec_DecodeToBuf") {
            oblige("R02", at, n);
            if (cstate(s, z) != 1) { alarm("R02", at, "codec is used without being initialised", &s); return true; }
            Type* LT = Type::getInt64Ty(M.getContext());
            if (!checkAccess(s, a[2], Lin(8), at, true) || !checkAccess(s, a[4], Lin(8), at, true)) return true;
            Val dl = load(s, a[2], LT, at), sl = load(s, a[4], LT, at);
            if (dl.k == VUndef || sl.k == VUndef) { alarm("MEM", at, "codec is run with uninitialised buffer fields", &s); return true; }
            Lin lo = L(dl), li = L(sl);
            if (!checkLen(*this, s, lo, at, "codec output space") || !checkLen(*this, s, li, at, "codec input length")) return true;
            I c0;
            if (!(s.n.constOf(lo, c0) && c0 == 0) && !checkAccess(s, a[1], lo, at, true, " (codec output)")) return true;
            if (!(s.n.constOf(li, c0) && c0 == 0) && !checkAccess(s, a[3], li, at, false, " (codec input)")) return true;
            fedTo(*this, s, a[3], li, at);
            havocRange(s, a[1], lo);
            auto run = [&](State t, Lin rv, int stv, int err, int end, bool needIn, bool full) {
                Lin ci = fresh(0, (I)1 << 40, "consumed"), co = fresh(0, (I)1 << 40, "produced");
                if (!t.n.addLe(ci - li) || !t.n.addLe(co - lo)) return;
                if (needIn && !t.n.addEq(ci - li)) return;
                if (full && !t.n.addEq(co - lo)) return;
                wrote(t, a[1], co);
                if (t.g.count("eaten")) t.g["eaten"] = t.n.simp(t.g["eaten"] + ci);
                store(t, a[2], Val::I_(t.n.simp(co)), 8, at, false);
                store(t, a[4], Val::I_(t.n.simp(ci)), 8, at, false);
                store(t, a[6], Val::I_(Lin(stv)), 4, at, false);
                t.gi.erase("sated"); if (full) t.gi["sated"] = 1;
                if (err) t.gi["codecerr"] = 1;
                if (end) t.gi["codecend"] = 1;
                out.push_back({t, Val::I_(rv)});
            };
            run(s, Lin(0), 1, 0, 1, false, false); // finished with mark
            run(s, Lin(0), 2, 0, 0, false, true); // not finished: the output is full
            run(s, Lin(0), 3, 0, 0, true, false);  // needs more input
            run(s, Lin(0), 4, 0, 0, false, true);  // maybe finished without mark
            run(s, fresh(1, 20, "lzerr"), 0, 1, 0, false, false);
            return true;
        }
    }
    // ---- iconv
    if (n == "iconv_open") {
        bool ok; cstrlen(s, a[0], at, ok); if (!ok) return true;
        cstrlen(s, a[1], at, ok); if (!ok) return true;
        State t = s; errnoHavoc(t);
        out.push_back({t, Val::P(0, Lin(-1))});
        return ret(newFile(s, "iconv"));
    }
    if (n == "iconv_close") {
        if (!file(a[0], "iconv_close")) return true;
        if (a[0].k == VPtr && s.has(a[0].reg) && s.R(a[0].reg).kind == RFile) s.W(a[0].reg).live = false;
        return retI(Lin(0));
    }
    if (n == "iconv") {
        if (!file(a[0], "iconv")) return true;
        Type* PT = PointerType::getUnqual(M.getContext()); Type* LT = Type::getInt64Ty(M.getContext());
        errnoHavoc(s);
        auto rd = [&](const Val& p, Type* t) { return p.isNull() ? Val::Null() : load(s, p, t, at); };
        for (int k = 1; k <= 4; ++k) if (!a[k].isNull() && !checkAccess(s, a[k], Lin(8), at, true)) return true;
        Val in = rd(a[1], PT), il = rd(a[2], LT), o = rd(a[3], PT), ol = rd(a[4], LT);
        bool hasIn = !(in.isNull());
        if (hasIn) {
            if (!checkLen(*this, s, L(il), at, "conversion input length") || !checkAccess(s, in, L(il), at, false, " (conversion input)")) return true;
        }
        bool hasOut = !o.isNull();
        if (hasOut) {
            if (!checkLen(*this, s, L(ol), at, "conversion output space") || !checkAccess(s, o, L(ol), at, true, " (conversion output)")) return true;
            havocRange(s, o, L(ol));
        }
        if (hasIn) fedTo(*this, s, in, L(il), at);
        int er = 0;
        for (auto& p : s.mem.r()) if (p.second->cls == "errno") er = p.first;
        if (!er) { er = newRegion(s, ROpaque, Lin(4), "errno"); s.W(er).weak = true; s.W(er).gi["nonnull"] = 1; }
        auto run = [&](State t, I rv, int err, bool all, bool left) {
            Lin ci = hasIn ? fresh(0, LENMAX, "consumed") : Lin(0), co = hasOut ? fresh(0, LENMAX, "produced") : Lin(0);
            if (hasIn) {
                if (all) ci = L(il);
                else if (!t.n.addLe(ci - L(il) + Lin(left ? 1 : 0))) return;
                if (t.g.count("eaten")) t.g["eaten"] = t.n.simp(t.g["eaten"] + ci);
                Val x = in; x.e = x.e + ci;
                store(t, a[1], x, 8, at, false);
                store(t, a[2], Val::I_(t.n.simp(L(il) - ci)), 8, at, false);
            }
            if (hasOut) {
                if (!t.n.addLe(co - L(ol))) return;
                if (err == 7 && !t.n.addLe(L(ol) - co - Lin(15))) return; // no character takes 16 bytes
                wrote(t, o, co);
                Val y = o; y.e = y.e + co;
                store(t, a[3], y, 8, at, false);
                store(t, a[4], Val::I_(t.n.simp(L(ol) - co)), 8, at, false);
            }
            if (err) t.W(er).cells[0] = Cell{4, Val::I_(Lin(err)), true};
            t.gi.erase("badtext");
            if (err == 22 || err == 84 || (err == 7 && t.n.entails(co) && !t.n.entails(Lin(16) - L(ol)))) t.gi["badtext"] = 1;
            out.push_back({t, Val::I_(Lin(rv))});
        };
        run(s, 0, 0, true, false);
        if (hasIn) {
            run(s, -1, 22, false, true);  // EINVAL: incomplete sequence
            run(s, -1, 7, false, true);   // E2BIG: output full
            run(s, -1, 84, false, true);  // EILSEQ
        }
        return true;
    }
    if (n == "localtime" || n == "gmtime") {
        facts["thread-unsafe"].insert(n + " at " + loc(at));
        Val v = freshOf(s, cb->getType(), "tm"); s.W(v.reg).gi["nonnull"] = 1; return ret(v);
    }
    if (n == "localtime_r" || n == "gmtime_r") { if (!checkAccess(s, a[1], Lin(56), at, true)) return true; havocRange(s, a[1], Lin(56)); return ret(a[1]); }
    if (n == "time") { if (!a[0].isNull()) havocRange(s, a[0], Lin(8)); return retI(fresh(0, (I)1 << 40, "time")); }
    if (n == "mktime") return retI(freshInt(64, "mktime"));
    return false;
}

// -------------------------------------------------------------- debug info
std::string stripStruct(StringRef n) {
    std::string s = n.str();
    for (const char* p : {"class.", "struct.", "union."}) if (s.compare(0, strlen(p), p) == 0) { s = s.substr(strlen(p)); break; }
    size_t d = s.rfind('.');
    if (d != std::string::npos) {
        bool num = d + 1 < s.size();
        for (size_t i = d + 1; i < s.size(); ++i) if (!isdigit(s[i])) num = false;
        if (num) s = s.substr(0, d);
        if (s.size() > 5 && s.compare(s.size() - 5, 5, ".base") == 0) s = s.substr(0, s.size() - 5);
    }
    return s;
}
static std::string qual(const DIType* t) {
    std::string n = t->getName().str();
    size_t lt = n.find('<');
    if (lt != std::string::npos) n = n.substr(0, lt);
    for (const DIScope* s = t->getScope(); s; s = s->getScope()) {
        if (isa<DINamespace>(s) || isa<DICompositeType>(s)) {
            std::string k = s->getName().str();
            size_t l = k.find('<');
            if (l != std::string::npos) k = k.substr(0, l);
            if (!k.empty()) n = k + "::" + n;
        }
    }
    return n;
}
static const DIType* strip(const DIType* t) {
    while (auto* d = dyn_cast_or_null<DIDerivedType>(t)) {
        if (d->getTag() == dwarf::DW_TAG_typedef || d->getTag() == dwarf::DW_TAG_const_type || d->getTag() == dwarf::DW_TAG_volatile_type) t = d->getBaseType();
        else break;
    }
    return t;
}
void loadDebugInfo(Engine& E) {
    DebugInfoFinder F;
    F.processModule(E.M);
    for (auto* t : F.types()) {
        auto* c = dyn_cast<DICompositeType>(t);
        if (!c || (c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_structure_type)) continue;
        std::string q = qual(c);
        for (auto* e : c->getElements()) {
            auto* m = dyn_cast<DIDerivedType>(e);
            if (!m || m->getTag() != dwarf::DW_TAG_member || (m->getFlags() & DINode::FlagStaticMember)) continue;
            long o = (long)m->getOffsetInBits() / 8;
            E.members[q][m->getName().str()] = o;
            auto* b = strip(m->getBaseType());
            if (auto* ct = dyn_cast_or_null<DICompositeType>(b)) { if (ct->getTag() == dwarf::DW_TAG_enumeration_type) E.discrete.insert({q, o}); }
            else if (auto* bt = dyn_cast_or_null<DIBasicType>(b)) { if (bt->getEncoding() == dwarf::DW_ATE_boolean) E.discrete.insert({q, o}); }
        }
    }
}
long Engine::off(const std::string& cls, const std::string& m) {
    auto it = members.find(cls);
    if (it == members.end() || !it->second.count(m)) throw Incomplete{"anchor not found: member " + cls + "::" + m};
    return it->second[m];
}
const Function* Engine::findFn(const std::string& pre, bool must) {
    const Function* best = nullptr;
    for (auto& f : M) {
        if (f.isDeclaration()) continue;
        const std::string& n = name(&f);
        if (n.compare(0, pre.size(), pre) == 0) { if (!best || name(best).size() > n.size()) best = &f; }
    }
    if (!best && must) throw Incomplete{"anchor not found: function " + pre};
    return best;
}
int Engine::mkForeign(State& s, const std::string& cls, int status) {
    int r = newRegion(s, RForeign, Lin(64), cls);
    Region& R = s.W(r);
    if (cls == "stream") {
        long oSt = off("Strigi::StreamBaseBase", "m_status"), oPos = off("Strigi::StreamBaseBase", "m_position"),
             oSz = off("Strigi::StreamBaseBase", "m_size"), oErr = off("Strigi::StreamBaseBase", "m_error");
        Lin pos = Lin::sym(g_sym.fresh(0, (I)1 << 62, "srcpos0"));
        R.cells[oSt] = Cell{4, Val::I_(Lin(status)), true};
        R.cells[oPos] = Cell{8, Val::I_(pos), false};
        R.g["segLo"] = pos; R.g["segHi"] = pos;
        Str e; e.len = status == 2 ? Lin::sym(g_sym.fresh(1, LENMAX, "errlen")) : Lin(0);
        R.strs[oErr] = e;
        if (status == 1) R.cells[oSz] = Cell{8, Val::I_(pos), false};
        else R.cells[oSz] = Cell{8, Val::I_(Lin(-1)), false};
    }
    return r;
}
