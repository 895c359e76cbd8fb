"""Assumed contracts on std::string for strings whose contents are known: a string object's first cell points to an
immutable region holding its characters and a terminating NUL (as c_str() guarantees)."""
import re
from engine import *
_strs = {}
def strreg(E, s):
    """region with the characters of s"""
    k = (id(E), s)
    r = _strs.get(k)
    if r is None or r[0] is not E:
        g = Region("str:" + s); g.s = s; g.const = s.encode("latin1") + b"\0"; g.base = {}; g.size = len(s) + 1
        _strs[k] = r = (E, g)
    return r[1]
def mkstr(E, s, name="string"):
    """a std::string object holding s -> Ptr"""
    r = Region(name); r.size = 32; r.base[("c", 0, 8)] = Ptr(strreg(E, s)); r.base[("c", 8, 8)] = len(s); r.isstr = True
    return Ptr(r)
def sget(E, st, p):
    """contents of the std::string object at p"""
    rs = E.resolve(st, p)
    if len(rs) != 1: raise Unsupported("string object")
    q = st.load(E, rs[0][1], 8, "ptr")
    if not isinstance(q, Ptr) or q.r is None or not hasattr(q.r, "s"): raise Unsupported("string of unknown contents")
    return q.r.s
def sset(E, st, p, s):
    st.store(E, p, 8, Ptr(strreg(E, s))); st.store(E, pgep(p, 8), 8, len(s))
def cstr(E, st, p):
    """C string at p (known contents)"""
    rs = E.resolve(st, p)
    if len(rs) != 1: raise Unsupported("C string")
    q = rs[0][1]
    if not isc(q.off) or q.r is None: raise Unsupported("C string")
    if hasattr(q.r, "s"): b = q.r.const
    elif q.r.const is not None: b = q.r.const
    else: raise Unsupported("C string of unknown contents")
    b = b[q.off:]
    if b"\0" not in b: raise Unsupported("unterminated C string")
    return b[:b.index(b"\0")].decode("latin1")
NPOS = M(64)
def lt(x):
    if not isc(x): raise Unsupported("symbolic string position")
    return x
def install(E):
    S = r"^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::"
    def on(pat, f): E.rmodels.insert(0, (re.compile(S + pat), f))
    sg = lambda E, st, p: sget(E, st, p)
    on(r"operator\[\]\(unsigned long\)", lambda E, st, a, I: pgep(st.load(E, a[0], 8, "ptr"), a[1]))
    on(r"at\(unsigned long\)", lambda E, st, a, I: pgep(st.load(E, a[0], 8, "ptr"), a[1]))
    on(r"(c_str|data)\(\) const", lambda E, st, a, I: st.load(E, a[0], 8, "ptr"))
    on(r"(size|length)\(\) const", lambda E, st, a, I: len(sg(E, st, a[0])))
    on(r"empty\(\) const", lambda E, st, a, I: len(sg(E, st, a[0])) == 0)
    on(r"(front)\(\)", lambda E, st, a, I: st.load(E, a[0], 8, "ptr"))
    def cmp3(x, y): return 0 if x == y else (M(32) if x < y else 1)
    on(r"compare\(unsigned long, unsigned long, char const\*\) const", lambda E, st, a, I: cmp3(sg(E, st, a[0])[lt(a[1]):lt(a[1]) + lt(a[2])], cstr(E, st, a[3])))
    on(r"compare\(unsigned long, unsigned long, std::__cxx11::basic_string.*const&\) const", lambda E, st, a, I: cmp3(sg(E, st, a[0])[lt(a[1]):lt(a[1]) + lt(a[2])], sg(E, st, a[3])))
    on(r"compare\(char const\*\) const", lambda E, st, a, I: cmp3(sg(E, st, a[0]), cstr(E, st, a[1])))
    on(r"compare\(std::__cxx11::basic_string.*const&\) const", lambda E, st, a, I: cmp3(sg(E, st, a[0]), sg(E, st, a[1])))
    def pos(x): return NPOS if x < 0 else x
    on(r"find\(char const\*, unsigned long\) const", lambda E, st, a, I: pos(sg(E, st, a[0]).find(cstr(E, st, a[1]), lt(a[2]))))
    on(r"find\(std::__cxx11::basic_string.*const&, unsigned long\) const", lambda E, st, a, I: pos(sg(E, st, a[0]).find(sg(E, st, a[1]), lt(a[2]))))
    def chr_(x):
        if not isc(x): raise Unsupported("symbolic character")
        return chr(x & 255)
    on(r"find\(char, unsigned long\) const", lambda E, st, a, I: pos(sg(E, st, a[0]).find(chr_(a[1]), lt(a[2]))))
    on(r"rfind\(char const\*, unsigned long\) const", lambda E, st, a, I: pos(sg(E, st, a[0]).rfind(cstr(E, st, a[1]))))
    def ffn(E, st, a, I):
        s = sg(E, st, a[0]); cs = cstr(E, st, a[1])
        for i in range(lt(a[2]), len(s)):
            if s[i] not in cs: return i
        return NPOS
    on(r"find_first_not_of\(char const\*, unsigned long\) const", ffn)
    def ffo(E, st, a, I):
        s = sg(E, st, a[0]); cs = cstr(E, st, a[1])
        for i in range(lt(a[2]), len(s)):
            if s[i] in cs: return i
        return NPOS
    on(r"find_first_of\(char const\*, unsigned long\) const", ffo)
    def sub_(E, st, a, I):      # sret: result, this, pos, n
        s = sg(E, st, a[1]); p = lt(a[2])
        if p > len(s): return Outcome("throw", st, "out_of_range")
        sset(E, st, a[0], s[p:p + min(lt(a[3]), len(s))]); return 0
    on(r"substr\(unsigned long, unsigned long\) const", sub_)
    def ctor0(E, st, a, I): sset(E, st, a[0], ""); return 0
    def ctorc(E, st, a, I): sset(E, st, a[0], cstr(E, st, a[1])); return 0
    def ctorx(E, st, a, I): sset(E, st, a[0], sg(E, st, a[1])); return 0
    on(r"basic_string\(\)$", ctor0)
    on(r"basic_string(<std::allocator<char>>)?\(char const\*, std::allocator<char> const&\)$", softly(ctorc))
    on(r"basic_string\(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>(&&| const&)\)$", ctorx)
    def asg(f):
        def h(E, st, a, I): sset(E, st, a[0], f(E, st, a[1])); return a[0]
        return h
    on(r"operator=\(std::__cxx11::basic_string.*\)$", asg(sg)); on(r"operator=\(char const\*\)$", asg(cstr))
    on(r"operator\+=\(char const\*\)$|append\(char const\*\)$", lambda E, st, a, I: (sset(E, st, a[0], sg(E, st, a[0]) + cstr(E, st, a[1])), a[0])[1])
    E.rmodels.insert(0, (re.compile(r"^bool std::operator==<char.*basic_string.*char const\*\)$"), lambda E, st, a, I: sg(E, st, a[0]) == cstr(E, st, a[1])))
    E.rmodels.insert(0, (re.compile(r"^bool std::operator!=<char.*basic_string.*char const\*\)$"), lambda E, st, a, I: sg(E, st, a[0]) != cstr(E, st, a[1])))
    E.rmodels.insert(0, (re.compile(r"^bool std::operator==<char.*basic_string.*basic_string.*const&\)$"), lambda E, st, a, I: sg(E, st, a[0]) == sg(E, st, a[1])))
    E.models["std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::~basic_string()"] = lambda E, st, a, I: 0
    def strtol(E, st, a, I):
        s = cstr(E, st, a[0]); m = re.match(r"\s*[+-]?\d*", s)
        t = m.group(0)
        if t.strip() in ("", "+", "-"): n = 0; v = 0
        else: n = len(t); v = int(t)
        if len(a) > 1 and not (isinstance(a[1], Ptr) and a[1].r is None): st.store(E, a[1], 8, pgep(a[0], n))
        return v & M(64 if I["ty"] == "i64" else 32)
    for n in ("strtol", "__isoc23_strtol", "atoi", "strtoul", "__isoc23_strtoul"): E.models[n] = strtol
    E.models["strcmp"] = lambda E, st, a, I: cmp3(cstr(E, st, a[0]), cstr(E, st, a[1]))
    E.models["strlen"] = lambda E, st, a, I: len(cstr(E, st, a[0]))
    E.models["strncmp"] = lambda E, st, a, I: cmp3(cstr(E, st, a[0])[:lt(a[2])], cstr(E, st, a[1])[:lt(a[2])])
def softly(f):
    def h(E, st, a, I):
        try: return f(E, st, a, I)
        except Unsupported: sset(E, st, a[0], "?unknown?"); return 0    # only error messages are built from unknown text
    return h
