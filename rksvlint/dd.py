"""Hash-consed terms and multi-terminal decision diagrams.

A *term* is an interned tree (op, args).  A *value* (V) is a decision diagram
whose inner nodes test boolean terms ("atoms") and whose leaves are terms.  A
*condition* is a value whose leaves are only the constants True and False.
This is the gated value-numbering domain used by interp.py: control-flow joins
build `ite` diagrams, nothing is enumerated path by path.
"""
import sys

sys.setrecursionlimit(20000)


class Term(object):
    __slots__ = ('op', 'args', 'id', 'typ', 'deps', '__weakref__')

    def __repr__(self):
        return show(self)


_terms = {}
_count = [0]


def T(op, *args):
    key = (op,) + tuple((type(a).__name__, a) if not isinstance(a, (Term, V)) else a for a in args)
    t = _terms.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.typ = None
        t.deps = None
        _count[0] += 1
        t.id = _count[0]
        _terms[key] = t
    return t


def const(v):
    return T('const', v)


class V(object):
    """leaf: atom is None, hi holds the term.  node: atom/hi/lo."""
    __slots__ = ('atom', 'hi', 'lo', 'id')

    def __repr__(self):
        return showv(self)

    @property
    def leaf(self):
        return self.atom is None


_nodes = {}
_ncount = [0]


def leaf(t):
    key = (None, t.id)
    n = _nodes.get(key)
    if n is None:
        n = V()
        n.atom, n.hi, n.lo = None, t, None
        _ncount[0] += 1
        n.id = _ncount[0]
        _nodes[key] = n
    return n


NODE_RULES = []


def node(atom, hi, lo):
    if hi is lo:
        return hi
    if atom.op == 'ge':
        for f in NODE_RULES:
            r = f(atom, hi, lo)
            if r is not None:
                return r
    key = (atom.id, hi.id, lo.id)
    n = _nodes.get(key)
    if n is None:
        n = V()
        n.atom, n.hi, n.lo = atom, hi, lo
        _ncount[0] += 1
        n.id = _ncount[0]
        _nodes[key] = n
    return n


TRUE = leaf(const(True))
FALSE = leaf(const(False))
NONE = leaf(const(None))
UNDEF = leaf(T('undef'))


class Blowup(Exception):
    pass


_ite = {}
LIMIT = [3000000]


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    key = (c.id, a.id, b.id)
    r = _ite.get(key)
    if r is not None:
        return r
    if len(_ite) > LIMIT[0]:
        raise Blowup()
    top = c.atom
    if a.atom is not None and a.atom.id < top.id:
        top = a.atom
    if b.atom is not None and b.atom.id < top.id:
        top = b.atom
    c1, c0 = (c.hi, c.lo) if c.atom is top else (c, c)
    a1, a0 = (a.hi, a.lo) if a.atom is top else (a, a)
    b1, b0 = (b.hi, b.lo) if b.atom is top else (b, b)
    r = node(top, ite(c1, a1, b1), ite(c0, a0, b0))
    _ite[key] = r
    return r


def NOT(c):
    return ite(c, FALSE, TRUE)


def AND(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, c, FALSE)
    return r


def OR(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, c)
    return r


def atomv(t):
    return node(t, TRUE, FALSE)


def restrict(f, care):
    """Simplify f using `care` as the care set (Coudert/Madre restrict)."""
    memo = {}

    def go(f, c):
        if c is TRUE or f.atom is None:
            return f
        if c is FALSE:
            return f
        key = (f.id, c.id)
        r = memo.get(key)
        if r is not None:
            return r
        if c.atom.id < f.atom.id:
            if c.hi is FALSE:
                r = go(f, c.lo)
            elif c.lo is FALSE:
                r = go(f, c.hi)
            else:
                r = go(f, OR(c.hi, c.lo))
        elif c.atom is f.atom:
            if c.hi is FALSE:
                r = go(f.lo, c.lo)
            elif c.lo is FALSE:
                r = go(f.hi, c.hi)
            else:
                r = node(f.atom, go(f.hi, c.hi), go(f.lo, c.lo))
        else:
            r = node(f.atom, go(f.hi, c), go(f.lo, c))
        memo[key] = r
        return r
    return go(f, care)


def leaves(v):
    seen, out, st = set(), [], [v]
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.atom is None:
            out.append(n.hi)
        else:
            st.append(n.hi)
            st.append(n.lo)
    return out


def atoms(v):
    seen, out, st = set(), [], [v]
    while st:
        n = st.pop()
        if n.id in seen or n.atom is None:
            continue
        seen.add(n.id)
        if n.atom not in out:
            out.append(n.atom)
        st.append(n.hi)
        st.append(n.lo)
    return out


def size(v):
    seen, st = set(), [v]
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.atom is not None:
            st.append(n.hi)
            st.append(n.lo)
    return len(seen)


def cases(v):
    """[(cond, term)] — one entry per distinct leaf."""
    if v.atom is None:
        return [(TRUE, v.hi)]
    out = []
    for t in leaves(v):
        out.append((where(v, t), t))
    return out


def where(v, t):
    memo = {}

    def go(n):
        r = memo.get(n.id)
        if r is None:
            if n.atom is None:
                r = TRUE if n.hi is t else FALSE
            else:
                r = node(n.atom, go(n.hi), go(n.lo))
            memo[n.id] = r
        return r
    return go(v)


def lift(f, *vs):
    """Apply f (terms -> V) to every leaf combination."""
    memo = {}
    n = [0]

    def go(vs):
        key = tuple(v.id for v in vs)
        r = memo.get(key)
        if r is not None:
            return r
        top = None
        for v in vs:
            if v.atom is not None and (top is None or v.atom.id < top.id):
                top = v.atom
        if top is None:
            n[0] += 1
            if n[0] > 60000:
                raise Blowup()
            r = f(*[v.hi for v in vs])
            if isinstance(r, Term):
                r = leaf(r)
        else:
            hi = go(tuple(v.hi if v.atom is top else v for v in vs))
            lo = go(tuple(v.lo if v.atom is top else v for v in vs))
            r = ite(atomv(top), hi, lo)
        memo[key] = r
        return r
    return go(tuple(vs))


def box(v):
    if v.atom is None:
        return v.hi
    return T('box', v)


def unbox(t):
    if t.op == 'box':
        return t.args[0]
    return leaf(t)


# ---------------------------------------------------------------- printing

def show(t, d=0):
    if not isinstance(t, Term):
        if isinstance(t, V):
            return showv(t, d + 1)
        return repr(t)
    if t.op == 'const':
        return repr(t.args[0])
    if t.op == 'var':
        return str(t.args[0])
    if d > 7:
        return '..'
    if t.op == 'attr':
        return '%s.%s' % (show(t.args[0], d + 1), t.args[1])
    if t.op == 'eq':
        return '(%s == %s)' % (show(t.args[0], d + 1), show(t.args[1], d + 1))
    if t.op == 'ge':
        return '(%s >= %s)' % (show(t.args[0], d + 1), show(t.args[1], d + 1))
    if t.op == 'box':
        return showv(t.args[0], d + 1)
    return '%s(%s)' % (t.op, ', '.join(show(a, d + 1) for a in t.args))


def showv(v, d=0):
    if v.atom is None:
        return show(v.hi, d)
    if d > 6:
        return '{..}'
    if v.hi is TRUE and v.lo is FALSE:
        return show(v.atom, d)
    if v.hi is FALSE and v.lo is TRUE:
        return 'not ' + show(v.atom, d)
    return '{%s ? %s : %s}' % (show(v.atom, d + 1), showv(v.hi, d + 1), showv(v.lo, d + 1))
