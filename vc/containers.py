"""Assumed contracts on the libstdc++ / LLVM containers the interpreter uses.  A container is an object whose first cell
is its element count; its elements live in a companion region with a fixed stride; an iterator is a pointer into it."""
import re, z3
from engine import *
def it(E, st, p): return st.load(E, p, 8, "ptr")
def seq_iter(E, rx, stride):
    """iterators stored as one pointer cell: ==, !=, *, ->, ++, --"""
    def pre(s, f): E.rmodels.insert(0, (re.compile(s), f))
    pre(rx + r"::_?\w*iterator\w*\(\)$", lambda E, st, a, I: 0)
    pre(rx + r"::operator(\*|->)\(\) const", lambda E, st, a, I: it(E, st, a[0]))
    def bump(d, post):
        def f(E, st, a, I):
            p = it(E, st, a[0]); st.store(E, a[0], 8, pgep(p, (d * stride) & M(64))); return p if post else a[0]
        return f
    pre(rx + r"::operator\+\+\(\)", bump(1, False)); pre(rx + r"::operator\+\+\(int\)", bump(1, True))
    pre(rx + r"::operator--\(\)", bump(-1, False)); pre(rx + r"::operator--\(int\)", bump(-1, True))
def iter_cmp(E, rx):
    E.rmodels.insert(0, (re.compile(r"^bool std::operator==|^std::operator==\(%s|^std::operator==<?.*%s" % (rx, rx)), lambda E, st, a, I: peq(it(E, st, a[0]), it(E, st, a[1]))))
    E.rmodels.insert(0, (re.compile(r"^std::operator!=\(%s|^bool std::operator!=.*%s" % (rx, rx)), lambda E, st, a, I: Not(peq(it(E, st, a[0]), it(E, st, a[1])))))
class Seq:
    """element storage of one kind of container; obj regions carry .seq"""
    def __init__(self, E, name, stride, elem):
        self.E = E; self.r = Region(name + " elements"); self.stride = stride; self.r.stride = stride; self.r.schemafn = elem
    def count(self, st, p): return st.load(self.E, p, 8)
def ilist_instr(E):
    """llvm::ilist_iterator_w_bits over a block's instructions: {ptr, i16}"""
    W = r"^llvm::ilist_iterator_w_bits<llvm::ilist_detail::node_options<llvm::Instruction.*>"
    def pre(s, f): E.rmodels.insert(0, (re.compile(s), f))
    pre(W + r"::operator(\*|->)\(\) const$", lambda E, st, a, I: it(E, st, a[0]))
    def bump(d, post):
        def f(E, st, a, I):
            p = it(E, st, a[0]); st.store(E, a[0], 8, pgep(p, (d * ISTRIDE) & M(64))); return (p, 0) if post else a[0]
        return f
    pre(W + r"::operator\+\+\(\)$", bump(1, False)); pre(W + r"::operator\+\+\(int\)$", bump(1, True)); pre(W + r"::operator--\(\)$", bump(-1, False))
    def ctor(E, st, a, I):
        st.store(E, a[0], 8, a[1]); st.store(E, pgep(a[0], 8), 2, 0); return 0
    pre(W + r"::ilist_iterator_w_bits\(llvm::Instruction const[*&]\)$", ctor); pre(W + r"::ilist_iterator_w_bits\(llvm::Instruction[*&]\)$", ctor)
    pre(r"^(bool )?llvm::operator==\(llvm::ilist_iterator_w_bits<", lambda E, st, a, I: peq(it(E, st, a[0]), it(E, st, a[1])))
    pre(r"^(bool )?llvm::operator!=\(llvm::ilist_iterator_w_bits<", lambda E, st, a, I: Not(peq(it(E, st, a[0]), it(E, st, a[1]))))
    def parent(E, st, a, I):
        out = []
        for s, p in E.resolve(st, a[0]):
            if not hasattr(p.r, "block"): raise Unsupported("parent of an unknown instruction")
            out.append((s, p.r.block))
        return out
    pre(r"node_parent_access<.*::getParent\(\)", parent); E.models["llvm::Instruction::getParent"] = parent
ISTRIDE = 128
