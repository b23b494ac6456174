"""Smart constructors: every term is built in a normal form, so that two
phrasings of the same computation intern to the same term.  Also the small
theory (consistency of atom assignments) used when a diagram is inspected."""
import base64
import binascii
from fractions import Fraction
import re

from . import dd, rx
from .dd import (T, V, Term, const, leaf, node, TRUE, FALSE, NONE, UNDEF, ite, NOT,
                 AND, OR, atomv, lift, box, unbox, Blowup, atoms, leaves)

# class -> attribute -> type, filled by the configuration (config.py)
ATTR_TYPES = {}
# op-term result types for opaque calls: callee name -> type
CALL_TYPES = {}

b64alpha = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'

SEQ = ('list', 'tuple', 'dict', 'set')


def isconst(t):
    return t.op == 'const'


def cval(t):
    return t.args[0]


def base_type(ty):
    if ty and ty.startswith('?'):
        return ty[1:]
    return ty


def typ(t):
    if t.typ is None:
        t.typ = _typ(t) or '*'
    return None if t.typ == '*' else t.typ


def btyp(t):
    return base_type(typ(t))


def _typ(t):
    op = t.op
    if op == 'const':
        v = t.args[0]
        if v is None:
            return 'none'
        if isinstance(v, bool):
            return 'bool'
        if isinstance(v, tuple) and v and v[0] == 'enum':
            return 'enum:' + v[1]
        if isinstance(v, tuple) and v and v[0] == 'name':
            return 'name'
        return type(v).__name__
    if op == 'var':
        return t.args[1] if len(t.args) > 1 and t.args[1] != 'json' else None
    if op == 'attr':
        bt = btyp(t.args[0])
        if bt and bt.startswith('obj:'):
            return ATTR_TYPES.get((bt[4:], t.args[1]))
        return ATTR_TYPES.get((None, t.args[1]))
    if op in ('mu', 'out'):
        ty = t.args[2] if len(t.args) > 2 else None
        return ty[:-1] if ty and ty[-1] == '+' else ty
    if op == 'elem':
        return elem_type(t.args[0])
    if op == 'idx':
        return 'int'
    if op in ('scat', 'dec', 'strfmt', 'str', 'join', 'hexs', 'u64s', 'strm', 'repl_s'):
        return 'str'
    if op in ('bcat', 'enc', 'b64e', 'u64e', 'b32e', 'b64d', 'u64d', 'b32d', 'bjoin', 'sha256', 'tobytes', 'repl_b'):
        return 'bytes'
    if op in ('len', 'int', 'round', 'ceil', 'find', 'count', 'frombytes', 'floordiv', 'ceildiv', 'intbase', 'ord'):
        return 'int'
    if op in ('float', 'truediv'):
        return 'float'
    if op == 'call' and t.args[0] == 'sum' and len(t.args) == 2 and getattr(t.args[1], 'op', None) == 'map':
        # a sum of integers
        v = t.args[1].args[1]
        xs = list(leaves(v.args[0])) if v.op == 'box' else [v]
        return 'int' if xs and all(btyp(x) in ('int', 'bool') for x in xs) else None
    if op == 'lin':
        tys = [btyp(a) for a in t.args[1::2]]
        if all(x in ('int', 'bool') for x in tys):
            return 'int'
        if 'float' in tys or isinstance(t.args[0], float):
            return 'float'
        return None
    if op == 'mul':
        tys = [btyp(a) for a in t.args]
        if all(x == 'int' for x in tys):
            return 'int'
        return None
    if op == 'mod':
        return btyp(t.args[0])
    if op == 'slice':
        return btyp(t.args[0])
    if op == 'item':
        bt = btyp(t.args[0])
        if bt == 'str':
            return 'str'
        if bt == 'bytes':
            return 'int'
        return elem_type(t.args[0], t.args[1])
    if op in ('list', 'map', 'fmap', 'split', 'cat', 'sorted', 'rev', 'tolist', 'chunks', 'keys', 'values', 'items', 'splitlines'):
        return 'list'
    if op == 'tuple':
        return 'tuple'
    if op in ('dict', 'dset', 'ddel', 'todict', 'dupd'):
        return 'dict'
    if op in ('set', 'sadd', 'union', 'toset', 'sdel', 'inter', 'sdiff'):
        return 'set'
    if op in ('eq', 'ge', 'gt', 'in', 'truthy', 'nonempty', 'isinst', 'startswith', 'endswith', 'match',
              'isdigit', 'isalnum', 'some', 'exits', 'ok', 'raises'):
        return 'bool'
    if op == 'obj':
        return 'obj:' + t.args[1]
    if op == 'struct':
        return 'obj:' + t.args[0]
    if op == 'exc':
        return 'exc:' + t.args[0]
    if op == 'box':
        tys = set(typ(x) for x in leaves(t.args[0]))
        if len(tys) == 1:
            return tys.pop()
        if len(tys) == 2 and 'none' in tys:
            tys.discard('none')
            x = tys.pop()
            return x and ('?' + base_type(x))
        return None
    if op == 'call':
        return CALL_TYPES.get(t.args[0])
    if op == 'strptime':
        return 'datetime'
    return None


def elem_type(seq, idx=None):
    bt = typ(seq)
    if seq.op in ('split', 'splitlines'):
        return btyp(seq.args[0])
    if seq.op == 'call' and seq.args[0] == 'rsplit':
        return btyp(seq.args[1])
    if seq.op == 'ext' and seq.args[0] == 'sys.stdin':
        return 'str'
    if seq.op == 'call' and seq.args[0] == 'open' and len(seq.args) < 4 and \
            not any(isinstance(a, Term) and not (isconst(a) and 'b' not in str(cval(a))) for a in seq.args[2:]):
        return 'str'
    if seq.op == 'call':
        et = CALL_TYPES.get((seq.args[0], '[]'))
        if isinstance(et, tuple) and idx is not None and isconst(idx) and isinstance(cval(idx), int) \
                and cval(idx) < len(et):
            return et[cval(idx)]
        if isinstance(et, str):
            return et
    if seq.op == 'var' and len(seq.args) > 2:
        et = seq.args[2]
        if isinstance(et, tuple) and idx is not None and isconst(idx) and isinstance(cval(idx), int) \
                and cval(idx) < len(et):
            return et[cval(idx)]
        if isinstance(et, str):
            return et
    if seq.op == 'attr':
        b2 = btyp(seq.args[0])
        et = ATTR_TYPES.get((b2[4:] if b2 and b2.startswith('obj:') else None, seq.args[1], '[]'))
        if isinstance(et, str) and (idx is not None or base_type(bt) != 'dict'):
            return et
    if seq.op == 'elem':
        et = CALL_TYPES.get(('elem', seq.args[0]))
        s = seq.args[0]
        if s.op == 'var' and len(s.args) > 3:
            et = s.args[3]
            if isinstance(et, tuple) and idx is not None and isconst(idx) and cval(idx) < len(et):
                return et[cval(idx)]
            if isinstance(et, str):
                return et
        if s.op == 'item' or s.op == 'attr':
            pass
    if seq.op == 'map':
        f = seq.args[1]
        if f.op != 'box':
            return typ(f)
    if seq.op == 'list' and len(seq.args):
        tys = set(typ(a) for a in seq.args)
        if len(tys) == 1:
            return tys.pop()
    if seq.op == 'slice':
        return elem_type(seq.args[0])
    if seq.op == 'idxrange':
        return 'int'
    if seq.op == 'range':
        return 'int'
    return None


def is_intlike(t):
    return btyp(t) in ('int', 'bool')


# ------------------------------------------------------------------ numbers

def lin_parts(t):
    if t.op == 'lin':
        a = t.args
        return a[0], [(a[i], a[i + 1]) for i in range(1, len(a), 2)]
    if isconst(t) and isinstance(cval(t), (int, float)) and not isinstance(cval(t), bool):
        return cval(t), []
    if isconst(t) and isinstance(cval(t), bool):
        return int(cval(t)), []
    return 0, [(t, 1)]


def mklin(c, parts):
    d = {}
    order = {}
    for t, k in parts:
        d[t] = d.get(t, 0) + k
    items = sorted([(t, k) for t, k in d.items() if k != 0], key=lambda x: x[0].id)
    if not items:
        return const(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    if isinstance(c, float) and c == int(c):
        c = int(c)
    flat = []
    for t, k in items:
        if isinstance(k, float) and k == int(k):
            k = int(k)
        flat += [t, k]
    return T('lin', c, *flat)


NUMT = ('int', 'float', 'bool', None)


def add(a, b):
    ta, tb = btyp(a), btyp(b)
    if isconst(a) and isconst(b):
        try:
            return leaf(const(cval(a) + cval(b)))
        except TypeError:
            pass
    if ta in ('str', 'bytes') or tb in ('str', 'bytes'):
        if b.op == 'rep' and isconst(b.args[0]) and cval(b.args[0]) in ('=', b'='):
            r = _padding(a, b.args[1])
            if r is not None:
                return r
        return leaf(scat(a, b))
    if ta in ('list', 'tuple') or tb in ('list', 'tuple'):
        return leaf(lcat(a, b))
    if ta in NUMT and tb in NUMT and (ta or tb):
        ca, pa = lin_parts(a)
        cb, pb = lin_parts(b)
        return leaf(mklin(ca + cb, pa + pb))
    return leaf(T('add', a, b))


def neg(a):
    if a.op == 'floordiv' and a.args[0].op == 'lin':
        n = neg(a.args[0])
        if n.leaf and n.hi.op != 'lin' and btyp(n.hi) == 'int' and btyp(a.args[1]) == 'int':
            return leaf(T('ceildiv', n.hi, a.args[1]))
    c, p = lin_parts(a)
    return leaf(mklin(-c, [(t, -k) for t, k in p]))


def sub(a, b):
    ta, tb = btyp(a), btyp(b)
    if ta == 'set':
        return leaf(T('sdiff', a, b))
    if ta in NUMT and tb in NUMT and (ta or tb):
        ca, pa = lin_parts(a)
        cb, pb = lin_parts(b)
        return leaf(mklin(ca - cb, pa + [(t, -k) for t, k in pb]))
    return leaf(T('sub', a, b))


def mul(a, b):
    if isconst(a) and isconst(b):
        try:
            return leaf(const(cval(a) * cval(b)))
        except TypeError:
            pass
    if isconst(b) and isinstance(cval(b), (int, float)) and btyp(a) in ('int', 'float', 'bool'):
        c, p = lin_parts(a)
        k = cval(b)
        return leaf(mklin(c * k, [(t, kk * k) for t, kk in p]))
    if isconst(a) and isinstance(cval(a), (int, float)) and btyp(b) in ('int', 'float', 'bool'):
        return mul(b, a)
    if isconst(b) and isinstance(cval(b), int) and btyp(a) is None:
        # unknown-typed: number or sequence
        return leaf(T('mul', a, b))
    x, y = (a, b) if a.id < b.id else (b, a)
    if btyp(a) in SEQ + ('str', 'bytes') or btyp(b) in SEQ + ('str', 'bytes'):
        if btyp(a) in SEQ + ('str', 'bytes'):
            return leaf(T('rep', a, b))
        return leaf(T('rep', b, a))
    return leaf(T('mul', x, y))


def truediv(a, b):
    if isconst(b) and isinstance(cval(b), (int, float)) and cval(b) != 0:
        k = cval(b)
        if isconst(a) and isinstance(cval(a), (int, float)):
            return leaf(const(cval(a) / k))
    return leaf(T('truediv', a, b))


def floordiv(a, b):
    if isconst(a) and isconst(b) and cval(b):
        return leaf(const(cval(a) // cval(b)))
    # -(-x // y) is computed by neg; (x + y - 1) // y
    if btyp(a) == 'int' and btyp(b) == 'int' and a.op == 'lin':
        r = sub(add(a, const(1)).hi, b) if add(a, const(1)).leaf else None
        if r is not None and r.leaf and r.hi.op != 'lin':
            return leaf(T('ceildiv', r.hi, b))
    return leaf(T('floordiv', a, b))


def mod(a, b):
    if isconst(a) and isconst(b) and cval(b):
        return leaf(const(cval(a) % cval(b)))
    return leaf(T('mod', a, b))


def mkint(a):
    """int(a) on a numeric term"""
    bt = btyp(a)
    if bt == 'int':
        return leaf(a)
    if isconst(a) and isinstance(cval(a), (int, float, str)):
        try:
            return leaf(const(int(cval(a))))
        except ValueError:
            pass
    if a.op in ('round', 'ceil', 'ceildiv'):
        return leaf(a)
    return leaf(T('int', a))


# ------------------------------------------------------------- comparisons

def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'box' or b.op == 'box':
        return lift(eq, unbox(a), unbox(b))
    if isconst(a) and not isconst(b):
        a, b = b, a
    if isconst(a) and isconst(b):
        try:
            return TRUE if (cval(a) == cval(b)) else FALSE
        except Exception:
            pass
    if a.op == 'call' and len(a.args) == 2 and a.args[0] in ('abs', 'math.fabs') and isconst(b) and cval(b) == float('inf'):
        return OR(eq(a.args[1], b), eq(a.args[1], const(float('-inf'))))
    if a.op == 'mod' and isconst(b) and cval(b) == 0 and isconst(a.args[1]) and type(cval(a.args[1])) is int \
            and cval(a.args[1]) > 0:
        return NOT(ge(a, const(1)))
    ta, tb = typ(a), typ(b)
    ba, bb = base_type(ta), base_type(tb)
    if isconst(b) and cval(b) is None:
        if ta and not ta.startswith('?'):
            return FALSE
        return atomv(T('eq', a, b))
    # definite type mismatch
    if ta and tb and not ta.startswith('?') and not tb.startswith('?') and ba != bb:
        num = ('int', 'float', 'bool')
        if ba in ('str', 'bytes', 'none', 'list', 'dict', 'tuple', 'set') or ba in num:
            if not (ba in num and bb in num) and (bb in ('str', 'bytes', 'none', 'list', 'dict', 'tuple', 'set') or bb in num):
                return FALSE
    if ba == 'bool' and bb == 'bool' and isconst(b):
        return truthy(a) if cval(b) else NOT(truthy(a))
    if ba == 'int' and bb == 'int':
        return AND(ge(a, b), ge(b, a))
    # structural inverses
    if a.op == 'tolist' and b.op == 'tolist' and btyp(a.args[0]) == btyp(b.args[0]):
        return eq(a.args[0], b.args[0])
    if a.op == b.op and a.op in ('enc', 'dec', 'b64e', 'u64e', 'b32e', 'hexs'):
        return eq(a.args[0], b.args[0])
    if a.op == 'dec' and isconst(b) and isinstance(cval(b), str):
        return eq(a.args[0], const(cval(b).encode('utf-8', 'surrogatepass')))
    if a.op == 'enc' and isconst(b) and isinstance(cval(b), bytes):
        try:
            return eq(a.args[0], const(cval(b).decode('utf-8')))
        except UnicodeDecodeError:
            return FALSE
    if a.op == 'call' and a.args[0] == '.encode' and len(a.args) == 3 and isconst(a.args[2]) and cval(a.args[2]) == 'utf-8' \
            and isconst(b) and isinstance(cval(b), bytes):
        try:
            return eq(a.args[1], const(cval(b).decode('utf-8')))
        except UnicodeDecodeError:
            return FALSE
    if a.op == 'tuple' and b.op == 'tuple':
        if len(a.args) != len(b.args):
            return FALSE
        return AND(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if a.op == 'list' and b.op == 'list':
        if len(a.args) != len(b.args):
            return FALSE
        return AND(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if a.op == 'slice' and isconst(b) and isinstance(cval(b), (str, bytes)):
        s, lo, hi = a.args
        n = len(cval(b))
        if isconst(lo) and cval(lo) in (0, None) and isconst(hi) and cval(hi) == n and n > 0:
            return startswith(s, b)
        if isconst(hi) and cval(hi) is None and isconst(lo) and cval(lo) == -n and n > 0:
            return endswith(s, b)
    if a.op == 'item' and isconst(b) and isinstance(cval(b), str) and btyp(a.args[0]) == 'str':
        if isconst(a.args[1]) and len(cval(b)) == 1:
            if cval(a.args[1]) == 0:
                return startswith(a.args[0], b)
            if cval(a.args[1]) == -1:
                return endswith(a.args[0], b)
    if isconst(b) and b.op == 'const' and a.op in ('scat', 'bcat'):
        r = _cat_eq_const(a, cval(b))
        if r is not None:
            return r
    if not isconst(b) and b.id < a.id:
        a, b = b, a
    return atomv(T('eq', a, b))


def _cat_eq_const(a, v):
    # a concatenation containing a constant longer than / incompatible with v
    first, last = a.args[0], a.args[-1]
    if isconst(first) and not v.startswith(cval(first)):
        return FALSE
    if isconst(last) and not v.endswith(cval(last)):
        return FALSE
    if any(isconst(p) and cval(p) not in v for p in a.args):
        return FALSE
    return None


def ge(a, b):
    if a.op == 'box' or b.op == 'box':
        return lift(ge, unbox(a), unbox(b))
    if a is b:
        return TRUE
    if isconst(a) and isconst(b):
        try:
            return TRUE if cval(a) >= cval(b) else FALSE
        except TypeError:
            return atomv(T('ge', a, b))
    if is_intlike(a) and is_intlike(b):
        ca, pa = lin_parts(a)
        cb, pb = lin_parts(b)
        d = mklin(0, pa + [(t, -k) for t, k in pb])
        c = cb - ca
        return int_ge(d, c)
    if isconst(b) or (a.id < b.id and not isconst(a)):
        return atomv(T('ge', a, b))
    return NOT(atomv(T('gt', b, a)))


def natural(t):
    """an integer that is never negative"""
    if isconst(t):
        return isinstance(cval(t), int) and cval(t) >= 0
    if t.op in ('mu', 'out'):
        return len(t.args) > 2 and t.args[2] == 'int+'
    if t.op == 'lin':
        c, ps = lin_parts(t)
        return c >= 0 and all(isinstance(k, int) and k > 0 and natural(x) for x, k in ps)
    return t.op in ('len', 'idx', 'count')


def int_ge(d, c):
    """d >= c, d without constant part"""
    if isconst(d):
        return TRUE if cval(d) >= c else FALSE
    _, parts = lin_parts(d)
    if parts[0][1] < 0:
        return NOT(int_ge(mklin(0, [(t, -k) for t, k in parts]), 1 - c))
    g = 0
    for _t, k in parts:
        if not isinstance(k, int):
            g = 1
            break
        import math
        g = math.gcd(g, abs(k))
    if g > 1:
        d = mklin(0, [(t, k // g) for t, k in parts])
        c = -((-c) // g)
        _, parts = lin_parts(d)
    if len(parts) == 1 and d is parts[0][0]:
        t = d
        if t.op == 'len':
            if c <= 0:
                return TRUE
            s = t.args[0]
            if s.op == 'slice' and isconst(s.args[1]) and isconst(s.args[2]) and type(cval(s.args[1])) is int \
                    and cval(s.args[1]) >= 0 and (cval(s.args[2]) is None or type(cval(s.args[2])) is int and
                                                  cval(s.args[2]) >= 0):
                lo, hi = cval(s.args[1]), cval(s.args[2])
                if hi is not None and hi - lo < c:
                    return FALSE
                if c > 1 or btyp(s.args[0]) == 'list':
                    return lift(lambda n: ge(n, const(lo + c)), mklen(s.args[0]))
            if c == 1:
                return truthy(s)
            if s.op == 'split' and c == 1:
                return TRUE
            if s.op == 'split' and c == 2 and len(s.args) == 2:
                return contains(s.args[1], s.args[0])
            if s.op == 'split' and c >= 3 and len(s.args) == 2 and isconst(s.args[1]) and isinstance(cval(s.args[1]), (str, bytes)) and \
                    len(cval(s.args[1])) == 1 and s.args[0].op == 'slice' and s.args[0].args[1:] == (const(1), const(None)):
                x = s.args[0].args[0]
                q = T('len', split(x, s.args[1]))
                return ite(startswith(x, s.args[1]), ge(q, const(c + 1)), ge(q, const(c)))
            if s.op == 'split' and c >= 2 and maxsplit(s) >= 0:
                return FALSE if c > maxsplit(s) + 1 else ge(T('len', split(s.args[0], s.args[1])), const(c))
        if t.op == 'find':
            if c <= -1:
                return TRUE
            if c == 0:
                return contains(t.args[1], t.args[0])
        if t.op == 'count':
            if c <= 0:
                return TRUE
            if c == 1:
                return contains(t.args[1], t.args[0])
        if c <= 0 and natural(t):
            return TRUE
        if t.op == 'mod' and isconst(t.args[1]) and type(cval(t.args[1])) is int and cval(t.args[1]) > 0:
            if c <= 0:
                return TRUE
            if c >= cval(t.args[1]):
                return FALSE
    return atomv(T('ge', d, const(c)))


def gt(a, b):
    if a.op == 'box' or b.op == 'box':
        return lift(gt, unbox(a), unbox(b))
    if a is b:
        return FALSE
    if is_intlike(a) and is_intlike(b):
        return NOT(ge(b, a))
    if isconst(a) and isconst(b):
        try:
            return TRUE if cval(a) > cval(b) else FALSE
        except TypeError:
            pass
    if isconst(b) or (a.id < b.id and not isconst(a)):
        return atomv(T('gt', a, b))
    return NOT(atomv(T('ge', b, a)))


def truthy(t):
    if t.op == 'box':
        return lift(truthy, t.args[0])
    if isconst(t):
        return TRUE if cval(t) else FALSE
    ty = typ(t)
    if ty is None:
        return atomv(T('truthy', t))
    bt = base_type(ty)
    nn = NOT(eq(t, const(None))) if ty.startswith('?') else TRUE
    if bt == 'str':
        return AND(nn, NOT(str_empty(t)))
    if bt == 'bytes':
        return AND(nn, NOT(str_empty(t)))
    if bt == 'int':
        return AND(nn, NOT(eq(t, const(0))))
    if bt == 'float':
        return AND(nn, NOT(eq(t, const(0.0))))
    if bt == 'bool':
        return AND(nn, atomv(t))
    if bt in SEQ:
        return AND(nn, nonempty(t))
    return nn


def str_empty(t):
    if t.op in ('enc', 'dec', 'b64e', 'u64e', 'b32e'):
        return str_empty(t.args[0])
    if t.op in ('scat', 'bcat'):
        if any(isconst(p) for p in t.args):
            return FALSE
        return AND(*[str_empty(p) for p in t.args])
    return eq(t, const(b'' if btyp(t) == 'bytes' else ''))


def nonempty(t):
    op = t.op
    if op in ('list', 'tuple', 'set', 'dict'):
        return TRUE if t.args else FALSE
    if op == 'split':
        return TRUE
    if rsplit_as_split(t) is not None:
        return TRUE
    if op == 'map':
        return truthy(t.args[0]) if typ(t.args[0]) else nonempty(t.args[0])
    if op in ('sorted', 'rev', 'tolist', 'toset'):
        return nonempty(t.args[0])
    if op == 'cat':
        return OR(*[nonempty(a) for a in t.args])
    if op == 'sadd' or op == 'dset':
        return TRUE
    if op == 'union':
        return OR(nonempty(t.args[0]), nonempty(t.args[1]))
    if op == 'box':
        return lift(nonempty, t.args[0])
    return atomv(T('nonempty', t))


def rsplit_as_split(t):
    """the split at the same separators from the left: as many parts"""
    if t.op == 'call' and t.args[0] == 'rsplit' and len(t.args) in (3, 4):
        sep = unbox(t.args[2])
        if sep.leaf and isconst(sep.hi) and cval(sep.hi):
            return split(*([t.args[1], sep.hi] + ([unbox(t.args[3]).hi] if len(t.args) == 4 else [])))
    return None


def mklen(t):
    if t.op == 'call' and rsplit_as_split(t) is not None:
        return mklen(rsplit_as_split(t))
    if t.op == 'box':
        return lift(mklen, t.args[0])
    if isconst(t):
        try:
            return leaf(const(len(cval(t))))
        except TypeError:
            pass
    if t.op in ('list', 'tuple') or (t.op == 'dict'):
        return leaf(const(len(t.args) if t.op != 'dict' else len(t.args) // 2))
    if t.op in ('map', 'sorted', 'rev', 'tolist') or t.op == 'dset' and t.typ == 'list':
        if typ(t.args[0]) is None and t.op != 'dset' and t.args[0].op != 'box':
            return leaf(T('len', T('tolist', t.args[0])))
        return mklen(t.args[0])
    if t.op == 'cat':
        r = leaf(const(0))
        for a in t.args:
            r = lift(add, r, mklen(a))
        return r
    if t.op == 'slice':
        s, lo, hi = t.args
    return leaf(T('len', t))


ITERABLE = ('str', 'list', 'dict')
HASHABLE = ('str', 'int', 'float', 'bool', 'none')


def isjson(t):
    """a value taken from a parsed JSON document: any JSON type"""
    while True:
        if t.op == 'var':
            return len(t.args) > 1 and t.args[1] == 'json'
        if t.op == 'item' and t.args[0].op == 'elem' and t.args[0].args[0].op == 'items':
            if not (isconst(t.args[1]) and cval(t.args[1]) == 1):
                return False
            t = t.args[0].args[0].args[0]
        elif t.op in ('item', 'elem', 'values'):
            if t.op == 'elem' and t.args[0].op in ('items', 'keys'):
                return False
            t = t.args[0]
        elif t.op == 'box':
            v = t.args[0]
            if not v.leaf:
                return False
            t = v.hi
        else:
            return False


def isinst(t, cls):
    """cls: builtin type name or class qualname string"""
    if t.op == 'box':
        return lift(lambda x: isinst(x, cls), t.args[0])
    ty = typ(t)
    if ty is not None:
        bt = base_type(ty)
        r = None
        if bt.startswith('obj:') and '.' not in bt[4:] and '.' in cls:
            r = None
        elif bt.startswith('obj:') or bt.startswith('exc:'):
            r = cls == 'object' or CLASSES.issub(bt[4:], cls)
        elif bt.startswith('enum:'):
            r = cls == bt[5:] or cls == 'object'
        elif bt == 'bool':
            r = cls in ('bool', 'int', 'object')
        elif bt in ('str', 'bytes', 'int', 'float', 'list', 'dict', 'set', 'tuple', 'none'):
            r = cls == bt or cls == 'object'
        if r is not None:
            if ty.startswith('?'):
                return NOT(eq(t, const(None))) if r else FALSE
            return TRUE if r else FALSE
    return atomv(T('isinst', t, cls))


class _Classes(object):
    """installed by program.py: nominal subclassing"""
    def issub(self, a, b):
        return a == b


CLASSES = _Classes()


# ----------------------------------------------------------------- strings

def scat(*ts):
    parts = []
    kind = None
    for t in ts:
        bt = btyp(t)
        if bt in ('str', 'bytes'):
            kind = kind or bt
        if t.op in ('scat', 'bcat'):
            parts += t.args
        else:
            parts.append(t)
    kind = kind or 'str'
    out = []
    for p in parts:
        if isconst(p) and cval(p) in ('', b''):
            continue
        if out and isconst(p) and isconst(out[-1]) and type(cval(p)) is type(cval(out[-1])):
            out[-1] = const(cval(out[-1]) + cval(p))
        else:
            out.append(p)
    # padding restoration:   s + '=' * (4 - len(s) % 4)
    if not out:
        return const('' if kind == 'str' else b'')
    # split re-assembly: item(split(s,d),0) d item(split(s,d),1) ... is left alone
    if len(out) == 1:
        return out[0]
    return T('scat' if kind == 'str' else 'bcat', *out)


def enc(t):
    if t.op == 'box':
        return lift(enc, t.args[0])
    if isconst(t) and isinstance(cval(t), str):
        return leaf(const(cval(t).encode('utf-8', 'surrogatepass')))
    if t.op == 'dec':
        return leaf(t.args[0])
    if t.op == 'scat':
        return catv([enc(p) for p in t.args])
    if t.op == 'repl_s' and isconst(t.args[1]) and isconst(t.args[2]):
        return lift(lambda x: replace(x, const(cval(t.args[1]).encode()), const(cval(t.args[2]).encode())),
                    enc(t.args[0]))
    if t.op == 'strfmt':
        pass
    return leaf(T('enc', t))


def ddel(c, k):
    if c.op == 'dict' and not c.args:
        return leaf(c)
    return ite(contains(k, c), leaf(T('ddel', c, k)), leaf(c))


def fmtterm(conv, spec, v):
    """One formatted field: conversion ('%' for printf style, 'r'/'a'/'s' or none)
    and format spec, in a spelling-independent form."""
    import re as _re
    m = _re.match(r'([-#0 +]*)(\d*)([xXod])$', spec)
    if m and conv in ('%', '') and isconst(v) and type(cval(v)) is int:
        return const(('%' + spec) % cval(v) if conv == '%' else format(cval(v), spec))
    if m and conv in ('%', ''):
        fl, w, ty = m.groups()
        if not w:
            fl = fl.replace('0', '').replace('-', '')
        return T('strfmt', 'int:' + ''.join(sorted(set(fl))) + w + ty, v)
    m = _re.match(r'(?:\.(\d+))?([feFE])$', spec)
    if m and conv in ('%', '') and btyp(v) in ('int', 'float', 'bool', None):
        return T('strfmt', 'real:%d%s' % (int(m.group(1)) if m.group(1) else 6, m.group(2)), v)
    if conv == '%' and spec == 'r':
        return T('strfmt', '!r', v)
    return T('strfmt', conv + '!' + spec, v)


def catv(vs):
    r = vs[0]
    for v in vs[1:]:
        r = lift(lambda a, b: leaf(scat(a, b)), r, v)
    return r


def dec(t):
    if t.op == 'box':
        return lift(dec, t.args[0])
    if isconst(t) and isinstance(cval(t), bytes):
        try:
            return leaf(const(cval(t).decode('utf-8')))
        except UnicodeDecodeError:
            pass
    if t.op == 'enc':
        return leaf(t.args[0])
    if t.op == 'bcat':
        return catv([dec(p) for p in t.args])
    return leaf(T('dec', t))


def replace(s, a, b):
    if s.op == 'box':
        return lift(lambda x: replace(x, a, b), s.args[0])
    if isconst(s) and isconst(a) and isconst(b):
        try:
            return leaf(const(cval(s).replace(cval(a), cval(b))))
        except TypeError:
            pass
    if s.op == 'dec' and isconst(a) and isconst(b) and isinstance(cval(a), str):
        return lift(dec, replace(s.args[0], const(cval(a).encode()), const(cval(b).encode())))
    if s.op == 'enc' and isconst(a) and isconst(b) and isinstance(cval(a), bytes):
        # normal form: replacement on the str side stays under dec only
        pass
    if s.op in ('scat', 'bcat') and isconst(a) and isconst(b) and len(cval(a)) == 1:
        return catv([replace(p, a, b) for p in s.args])
    if isconst(a) and isconst(b) and s.op in ('repl_s', 'repl_b') and s.args[1] is a and s.args[2] is b:
        return leaf(s)
    if isconst(a) and isconst(b) and cval(a) in (b'=', '=') and len(cval(b)) == 0:
        # stripping padding from something that has none
        if s.op == 'repl_b' and s.args[1] is a:
            return leaf(s)
    if btyp(s) == 'bytes':
        return leaf(T('repl_b', s, a, b))
    return leaf(T('repl_s', s, a, b))


def strip_eq(s):
    """remove trailing '=' (rstrip): for base64 text identical to replace('=','')"""
    if s.op == 'dec':
        return lift(dec, strip_eq(s.args[0]))
    if s.op in ('b64e', 'u64e', 'b32e'):
        return replace(s, const(b'='), const(b''))
    if isconst(s):
        v = cval(s)
        return leaf(const(v.rstrip('=' if isinstance(v, str) else b'=')))
    return None


def b64e(t):
    return _b('b64e', t, base64.b64encode, 'b64d')


def u64e(t):
    return _b('u64e', t, base64.urlsafe_b64encode, 'u64d')


def b32e(t):
    return _b('b32e', t, base64.b32encode, 'b32d')


def _b(op, t, f, inv):
    if t.op == 'box':
        return lift(lambda x: _b(op, x, f, inv), t.args[0])
    if isconst(t) and isinstance(cval(t), bytes):
        return leaf(const(f(cval(t))))
    return leaf(T(op, t))


def b64d(t):
    return _d('b64d', t, base64.b64decode, 'b64e')


def u64d(t):
    return _d('u64d', t, base64.urlsafe_b64decode, 'u64e')


def b32d(t):
    return _d('b32d', t, base64.b32decode, 'b32e')


def _d(op, t, f, inv):
    if t.op == 'box':
        return lift(lambda x: _d(op, x, f, inv), t.args[0])
    if t.op == inv:
        return leaf(t.args[0])
    if isconst(t) and isinstance(cval(t), bytes):
        try:
            return leaf(const(f(cval(t))))
        except (binascii.Error, ValueError):
            pass
    return leaf(T(op, t))


def _padding(s, n):
    """s + '=' * n where n restores base64 padding"""
    ln = mklen(s)
    four = const(4)
    if lift(lambda l: mod(l, four), lift(neg, ln)) is leaf(n):
        return pad64(s)
    m = lift(lambda l: mod(l, four), ln)
    if lift(lambda x: sub(four, x), m) is leaf(n):
        return ite(lift(lambda x: ge(x, const(1)), m), pad64(s),
                   leaf(scat(s, const('====' if btyp(s) == 'str' else b'===='))))
    return None


def _node_rule(atom, hi, lo):
    if atom.op == 'ge' and atom.args[0].op == 'mod' and isconst(atom.args[0].args[1]) and \
            cval(atom.args[0].args[1]) == 4 and lo.leaf and isconst(atom.args[1]) and cval(atom.args[1]) == 1 and \
            btyp(lo.hi) in ('str', 'bytes') and lift(lambda l: mod(l, const(4)), mklen(lo.hi)) is leaf(atom.args[0]) \
            and pad64(lo.hi) is hi:
        return hi
    return None


dd.NODE_RULES.append(_node_rule)


def pad64(t):
    """the padded form of unpadded base64 text t (str or bytes)"""
    if t.op == 'box':
        return lift(pad64, t.args[0])
    if t.op == 'dec':
        return lift(dec, pad64(t.args[0]))
    if t.op == 'repl_b' and isconst(t.args[1]) and cval(t.args[1]) == b'=' and cval(t.args[2]) == b'' \
            and t.args[0].op in ('u64e', 'b64e'):
        return leaf(t.args[0])
    return leaf(T('strm', 'pad64', t)) if btyp(t) != 'bytes' else leaf(T('call', 'pad64b', t))


def join(sep, seq):
    if seq.op == 'list' or seq.op == 'tuple':
        parts = []
        for i, e in enumerate(seq.args):
            if i:
                parts.append(leaf(sep))
            parts.append(unbox(e))
        if not parts:
            return leaf(const(b'' if btyp(sep) == 'bytes' else ''))
        r = parts[0]
        if len(parts) == 1:
            return r
        for p in parts[1:]:
            r = lift(lambda a, b: leaf(scat(a, b)), r, p)
        return r
    if seq.op == 'split' and len(seq.args) == 2 and seq.args[1] is sep:
        return leaf(seq.args[0])
    if seq.op == 'split' and len(seq.args) == 2 and isconst(sep) and isconst(seq.args[1]) and \
            type(cval(sep)) is type(cval(seq.args[1])) and cval(sep):
        return lift(lambda x: replace(x, seq.args[1], sep), leaf(seq.args[0]))
    if seq.op == 'box':
        return lift(lambda x: join(sep, x), seq.args[0])
    if isconst(sep) and cval(sep) in ('', b'') and seq.op == 'map':
        # sep + x1 + sep + x2 ...  is  sep + sep.join(x1, x2, ...) unless there is nothing
        v = unbox(seq.args[1])
        ls = leaves(v)
        if all(t.op in ('scat', 'bcat') and isconst(t.args[0]) for t in ls) and len(set(t.args[0] for t in ls)) == 1:
            d = ls[0].args[0]
            rest = lift(lambda t: leaf(scat(*t.args[1:])), v)
            whole = lift(lambda x: leaf(scat(d, x)), join(d, T('map', seq.args[0], box(rest))))
            return ite(nonempty(seq.args[0]), whole, leaf(sep))
    return leaf(T('bjoin' if btyp(sep) == 'bytes' else 'join', sep, seq))


_ALPHA = {'b64e': b64alpha + '+/=', 'u64e': b64alpha + '-_=', 'b32e': b64alpha + '='}


def lacks(t, sep):
    """string t cannot contain the constant sep"""
    c = cval(sep)
    if t.op == 'box':
        return all(lacks(x, sep) for x in leaves(t.args[0]))
    if isconst(t):
        return c not in cval(t) if isinstance(cval(t), type(c)) else False
    if t.op in ('dec', 'enc'):
        cs = c if isinstance(c, str) else c.decode('latin-1')
        return lacks(t.args[0], const(cs.encode() if t.op == 'dec' else cs))
    if t.op in _ALPHA:
        cs = c if isinstance(c, str) else c.decode('latin-1')
        return any(x not in _ALPHA[t.op] for x in cs)
    if t.op == 'item' and t.args[0].op == 'split' and len(t.args[0].args) == 2:
        return t.args[0].args[1] is sep
    if t.op == 'item' and t.args[0].op == 'dset':
        return items_without(t.args[0], sep)
    if t.op == 'elem':
        return items_without(t.args[0], sep)
    if t.op in ('repl_s', 'repl_b') and isconst(t.args[2]):
        if t.args[1] is sep and c not in cval(t.args[2]):
            return len(c) == 1
        return len(cval(t.args[2])) == 0 and len(c) == 1 and lacks(t.args[0], sep)
    return False


def items_without(q, sep):
    if q.op == 'split':
        return len(q.args) == 2 and q.args[1] is sep
    if q.op == 'dset':
        return items_without(q.args[0], sep) and lacks(q.args[2], sep)
    if q.op in ('list', 'tuple'):
        return len(q.args) > 0 and all(lacks(a, sep) for a in q.args)
    return False


def maxsplit(t):
    """the limit of a split at a given separator, or -1"""
    if t.op == 'split' and len(t.args) == 3 and isconst(t.args[1]) and isinstance(cval(t.args[1]), (str, bytes)) and \
            isconst(t.args[2]) and type(cval(t.args[2])) is int:
        return cval(t.args[2])
    return -1


def behind(t):
    """(s, separator, n) of a text that is the rest of s after n separators"""
    if t.op == 'item' and isconst(t.args[1]) and maxsplit(t.args[0]) >= 1 and cval(t.args[1]) == maxsplit(t.args[0]):
        return t.args[0].args[0], t.args[0].args[1], cval(t.args[1])


def split(s, sep=None, n=None):
    if sep is not None and n is None and behind(s) is not None and behind(s)[1] is sep:
        return T('slice', split(behind(s)[0], sep), const(behind(s)[2]), const(None))
    if isconst(s) and (sep is None or isconst(sep)) and n is None:
        v = cval(s).split(cval(sep)) if sep is not None else cval(s).split()
        return T('list', *[const(x) for x in v])
    if s.op in ('join', 'bjoin') and sep is not None and s.args[0] is sep and isconst(sep) and n is None and \
            items_without(s.args[1], sep):
        return s.args[1]
    args = [s] + ([sep] if sep is not None else []) + ([n] if n is not None else [])
    return T('split', *args)


NONEC = None


def mkslice(s, lo, hi, step=None):
    if s.op == 'box':
        return lift(lambda x: mkslice(x, lo, hi, step), s.args[0])
    none = const(None)
    if isconst(lo) and cval(lo) == 0:
        lo = none
    if isconst(lo) and cval(lo) is None:
        lo = const(0)
    if step is not None and not (isconst(step) and cval(step) in (None, 1)):
        if isconst(step) and cval(step) == -1 and isconst(lo) and cval(lo) == 0 and isconst(hi) and cval(hi) is None:
            return leaf(T('rev', s))
        return leaf(T('slice3', s, lo, hi, step))
    if isconst(lo) and cval(lo) == 0 and isconst(hi) and cval(hi) is None:
        return leaf(s)
    if isconst(s) and isconst(lo) and isconst(hi) and isinstance(cval(s), (str, bytes)):
        return leaf(const(cval(s)[cval(lo):cval(hi)]))
    if s.op in ('list', 'tuple') and isconst(lo) and isconst(hi):
        return leaf(T(s.op, *s.args[cval(lo):cval(hi)]))
    if s.op == 'split' and len(s.args) == 2 and isconst(s.args[1]) and isconst(lo) and cval(lo) == 1 and isconst(hi) and \
            cval(hi) is None and s.args[0].op in ('scat', 'bcat') and isconst(s.args[0].args[0]) and \
            cval(s.args[0].args[0]).startswith(cval(s.args[1])):
        # what follows the first separator of a text that starts with it
        x = s.args[0]
        return leaf(split(scat(const(cval(x.args[0])[len(cval(s.args[1])):]), *x.args[1:]), s.args[1]))
    if s.op in ('scat', 'bcat') and isconst(lo) and isconst(hi) and cval(hi) is None and cval(lo) > 0 \
            and isconst(s.args[0]) and len(cval(s.args[0])) >= cval(lo):
        return leaf(scat(const(cval(s.args[0])[cval(lo):]), *s.args[1:]))
    if s.op == 'cat' and isconst(lo) and cval(lo) == 0 and isconst(hi) and isinstance(cval(hi), int) and cval(hi) < 0 \
            and s.args[-1].op == 'list' and len(s.args[-1].args) >= -cval(hi):
        return leaf(lcat(*(s.args[:-1] + (T('list', *s.args[-1].args[:cval(hi)]),))))
    if hi.op == 'len' and hi.args[0] is s:
        return mkslice(s, lo, none)
    return leaf(T('slice', s, lo, hi))


def item(s, i):
    if s.op == 'box':
        return lift(lambda x: item(x, i), s.args[0])
    if i.op == 'box':
        return lift(lambda x: item(s, x), i.args[0])
    if isconst(i) and isinstance(cval(i), int) and not isinstance(cval(i), bool):
        k = cval(i)
        if s.op in ('list', 'tuple'):
            if -len(s.args) <= k < len(s.args):
                return unbox(s.args[k])
            return leaf(T('item', s, i))
        if isconst(s) and isinstance(cval(s), (str, bytes)) and -len(cval(s)) <= k < len(cval(s)):
            return leaf(const(cval(s)[k]))
        if s.op == 'split' and len(s.args) == 3 and 0 <= k < maxsplit(s):
            return item(split(s.args[0], s.args[1]), i)
        if k >= 1 and k == maxsplit(s):
            q = split(s.args[0], s.args[1])
            return ite(ge(T('len', q), const(k + 2)), leaf(T('item', s, i)), item(q, i))
        if s.op == 'split' and len(s.args) == 2 and k == 0 and s.args[0].op == 'var' and isconst(s.args[1]) and cval(s.args[1]):
            return ite(contains(s.args[1], s.args[0]), leaf(T('item', s, i)), leaf(s.args[0]))
        if s.op == 'call' and s.args[0] == 'rsplit' and len(s.args) in (3, 4) and k < 0 and \
                (len(s.args) == 3 or -k <= maxsplit(T('split', s.args[1], s.args[2], unbox(s.args[3]).hi))):
            return item(split(s.args[1], s.args[2]), i)
        if s.op == 'cat':
            if k >= 0 and s.args[0].op == 'list' and k < len(s.args[0].args):
                return unbox(s.args[0].args[k])
            if k < 0 and s.args[-1].op == 'list' and -k <= len(s.args[-1].args):
                return unbox(s.args[-1].args[k])
        if s.op == 'map' and s.args[0].op == 'list':
            pass
        if s.op == 'slice' and isconst(s.args[1]) and isconst(s.args[2]) and k >= 0 and cval(s.args[1]) >= 0 \
                and (cval(s.args[2]) is None or (cval(s.args[2]) >= 0 and cval(s.args[1]) + k < cval(s.args[2]))):
            return item(s.args[0], const(cval(s.args[1]) + k))
        if s.op == 'zip':
            return leaf(T('tuple', *[box(item(x, i)) for x in s.args]))
    if s.op == 'dict':
        r = leaf(T('item', s, i)) if not all(isconst(k) for k in s.args[::2]) or not isconst(i) else None
        vals = list(zip(s.args[::2], s.args[1::2]))
        out = leaf(T('nokey', s, i)) if r is None else r
        for k, v in vals:
            out = ite(eq(i, k), unbox(v), out)
        return out
    if s.op == 'dset':
        return ite(eq(i, s.args[1]), unbox(s.args[2]), item(s.args[0], i))
    if i.op == 'idx':
        if i.args[0] is s:
            return elem(s)
        if s.op == 'map' and i.args[0] is s.args[0]:
            return unbox(s.args[1])
    if i.op == 'lin' and is_intlike(i) and i.args[0] < 0 and s.op == 'x':
        pass
    if i.op == 'lin':
        c, p = lin_parts(i)
        if len(p) == 1 and p[0][0].op == 'len' and p[0][0].args[0] is s and p[0][1] == 1 and c < 0:
            return item(s, const(c))
    if s.op == 'cat' and len(s.args) == 2 and s.args[1].op == 'list':
        c, p = lin_parts(i)
        a = s.args[0]
        if len(p) == 1 and p[0][1] == 1 and p[0][0].op == 'len' and p[0][0].args[0] is a:
            if 0 <= c < len(s.args[1].args):
                return unbox(s.args[1].args[c])
            if c < 0:
                return ite(ge(T('len', a), const(-c)), item(a, const(c)), leaf(T('item', s, i)))
    return leaf(T('item', s, i))


def dset(x, k, v):
    t = T('dset', x, k, v)
    if t.typ is None and btyp(x) == 'list':
        t.typ = 'list'
    return t


def elem(s, depth=0):
    """the generic element of sequence s"""
    if s.op in ('sorted', 'rev') and setbase(s) is not None:
        return elem(setbase(s))
    if s.op == 'map':
        return unbox(s.args[1])
    if s.op == 'tolist':
        return elem(s.args[0])
    if s.op == 'zip':
        return leaf(T('tuple', *[box(elem(x)) for x in s.args]))
    if s.op == 'enumerate':
        return leaf(T('tuple', box(elem_idx(s.args[0], s.args[1])), box(elem(s.args[0]))))
    if s.op == 'idxrange':
        return elem_idx(s.args[0], const(0))
    return leaf(T('elem', s))


def mkzip(*ts):
    """zip of sequences computed from common ones is a map over those"""
    bases, vals, peeled = [], [], False
    for t in ts:
        if t.op == 'rep' and t.args[0].op == 'list' and len(t.args[0].args) == 1 and t.args[1].op == 'len':
            b = t.args[1].args[0]
            while b.op in ('map', 'tolist'):
                b = b.args[0]
            vals.append(unbox(t.args[0].args[0]))
            peeled = True
        else:
            b = t
            while b.op in ('map', 'tolist'):
                b = b.args[0]
            vals.append(elem(t))
            peeled = peeled or t.op == 'map'
        if b not in bases:
            bases.append(b)
    if not peeled or any(b.op in ('list', 'tuple', 'zip') for b in bases):
        return T('zip', *ts)
    base = bases[0] if len(bases) == 1 else T('zip', *bases)
    return T('map', base, box(leaf(T('tuple', *[box(v) for v in vals]))))


def elem_idx(s, start):
    while s.op in ('map', 'tolist'):
        s = s.args[0]
    return add(T('idx', s), start)


def mktodict(t):
    """the mapping made of the pairs of sequence t"""
    if t.op == 'list' and not t.args:
        return T('dict')
    if t.op == 'items':
        return t.args[0]
    if t.op == 'map' and t.args[0].op == 'items':
        v = unbox(t.args[1])
        e = elem(t.args[0])
        if v.leaf and e.leaf and (v.hi is e.hi or v.hi.op == 'tuple' and len(v.hi.args) == 2 and all(
                x.op == 'item' and x.args[0] is e.hi and isconst(x.args[1]) and cval(x.args[1]) == i
                for i, x in enumerate(v.hi.args))):
            return t.args[0].args[0]
    return T('todict', t)


def dupd(a, b):
    if b.op == 'dict' and not b.args:
        return a
    return T('dupd', a, b)


def lcat(*ts):
    parts = []
    for t in ts:
        if t.op == 'cat':
            parts += t.args
        else:
            parts.append(t)
    out = []
    for p in parts:
        if p.op in ('list',) and not p.args:
            continue
        if out and p.op in ('list', 'tuple') and out[-1].op == p.op:
            out[-1] = T(p.op, *(out[-1].args + p.args))
        else:
            out.append(p)
    if not out:
        return ts[0] if ts and ts[0].op in ('tuple', 'list') else T('list')
    if len(out) == 1:
        return out[0]
    return T('cat', *out)


_rxname = {}
_B64LANG = {
    'b64e': r'(?:[A-Za-z0-9+/]{4})*(?:[A-Za-z0-9+/]{2}==|[A-Za-z0-9+/]{3}=)?\Z',
    'u64e': r'(?:[A-Za-z0-9_-]{4})*(?:[A-Za-z0-9_-]{2}==|[A-Za-z0-9_-]{3}=)?\Z',
    'b32e': r'(?:[A-Z2-7]{8})*(?:[A-Z2-7]{2}={6}|[A-Z2-7]{4}={4}|[A-Z2-7]{5}={3}|[A-Z2-7]{7}=)?\Z',
}


def lang(pat, name):
    """the pattern re-expressed so that re.match decides membership"""
    if name == 'fullmatch':
        return '(?:%s)\\Z' % pat
    if name == 'search':
        return '(?:(?s:.)*)(?:%s)' % pat
    return '(?:%s)' % pat


def included(p, q):
    """L(p) subset of L(q) for two re.match patterns, decided on the automata"""
    g = rx.signature(q, 'match')
    return g is not None and rx.signature('(?:%s)|(?:%s)' % (p, q), 'match') == g


def match(pat, name, s):
    if s.op == 'box':
        return lift(lambda x: match(pat, name, x), s.args[0])
    while s.op in ('dec', 'enc'):
        s = s.args[0]
    if isconst(pat) and isinstance(cval(pat), str):
        if isconst(s) and isinstance(cval(s), (str, bytes)):
            v = cval(s)
            try:
                if isinstance(v, bytes):
                    v = v.decode('utf-8')
                return TRUE if getattr(re, name)(cval(pat), v) else FALSE
            except Exception:
                pass
        sub = _B64LANG.get(s.op)
        if sub and included(sub, lang(cval(pat), name)):
            return TRUE
        g = rx.signature(cval(pat), name)
        if g is not None:
            pp, nn = _rxname.setdefault(g, (pat, name))
            return atomv(T('match', pp, nn, s))
    return atomv(T('match', pat, name, s))


def startswith(s, p):
    if s.op == 'box':
        return lift(lambda x: startswith(x, p), s.args[0])
    if isconst(s) and isconst(p):
        return TRUE if cval(s).startswith(cval(p)) else FALSE
    if p.op == 'tuple':
        return OR(*[startswith(s, x) for x in p.args])
    if s.op in ('scat', 'bcat') and isconst(s.args[0]) and isconst(p):
        a, b = cval(s.args[0]), cval(p)
        if a.startswith(b):
            return TRUE
        if not b.startswith(a):
            return FALSE
    return atomv(T('startswith', s, p))


def endswith(s, p):
    if s.op == 'box':
        return lift(lambda x: endswith(x, p), s.args[0])
    if isconst(s) and isconst(p):
        return TRUE if cval(s).endswith(cval(p)) else FALSE
    if p.op == 'tuple':
        return OR(*[endswith(s, x) for x in p.args])
    if isconst(p) and cval(p) in ('=', b'='):
        b = s.args[0] if s.op in ('dec', 'enc') else s
        if b.op in ('repl_s', 'repl_b') and isconst(b.args[1]) and cval(b.args[1]) in ('=', b'=') and \
                isconst(b.args[2]) and not cval(b.args[2]):
            return FALSE
    return atomv(T('endswith', s, p))


def contains(x, s):
    """x in s"""
    if s.op == 'box':
        return lift(lambda y: contains(x, y), s.args[0])
    if isconst(x) and isconst(s):
        try:
            return TRUE if cval(x) in cval(s) else FALSE
        except TypeError:
            pass
    if s.op in ('list', 'tuple', 'set'):
        return OR(*[eq(x, e) for e in s.args])
    if s.op == 'slice' and isconst(x) and isinstance(cval(x), (str, bytes)) and len(cval(x)) == 1 and s.args[1:] == (const(1), const(None)):
        return ite(startswith(s.args[0], x), ge(T('len', split(s.args[0], x)), const(3)), contains(x, s.args[0]))
    if behind(s) is not None and behind(s)[1] is x:
        return ge(T('len', split(behind(s)[0], x)), const(behind(s)[2] + 2))
    if s.op == 'dict':
        return OR(*[eq(x, e) for e in s.args[::2]])
    if s.op == 'sadd':
        return OR(eq(x, s.args[1]), contains(x, s.args[0]))
    if s.op == 'dset':
        return OR(eq(x, s.args[1]), contains(x, s.args[0]))
    if s.op == 'union':
        return OR(contains(x, s.args[0]), contains(x, s.args[1]))
    if s.op == 'cat':
        return OR(*[contains(x, p) for p in s.args])
    if s.op in ('tolist', 'toset', 'sorted', 'rev', 'keys'):
        return contains(x, s.args[0])
    if x.op == 'elem' and x.args[0] is s:
        return TRUE
    return atomv(T('in', x, s))


def sadd(s, x):
    if s.op == 'set':
        if x in s.args:
            return s
        return T('set', *sorted(s.args + (x,), key=lambda t: t.id))
    return T('sadd', s, x)


def setbase(t):
    """the set whose elements t lists, when t is a listing of a set"""
    u = t
    while u.op in ('sorted', 'rev', 'tolist'):
        u = u.args[0]
    return u if btyp(u) == 'set' else None


def mkset(t):
    if t.op in ('list', 'tuple') and not t.args:
        return T('set')
    while t.op in ('sorted', 'rev', 'tolist', 'toset'):
        t = t.args[0]
    if btyp(t) == 'set':
        return t
    return T('toset', t)


def union(a, b):
    if a.op == 'set' and not a.args:
        return b
    if b.op == 'set' and not b.args:
        return a
    if a is b:
        return a
    if b.op == 'set':
        for x in b.args:
            a = sadd(a, x)
        return a
    if a.id > b.id:
        a, b = b, a
    return T('union', a, b)


# ------------------------------------------------------- rebuild / substitute

REBUILD = {
    'toset': lambda t: leaf(mkset(t)), 'add': add, 'sub': sub, 'mul': mul, 'truediv': truediv, 'floordiv': floordiv, 'mod': mod,
    'eq': eq, 'ge': ge, 'gt': gt, 'truthy': truthy, 'nonempty': nonempty, 'len': mklen,
    'enc': enc, 'dec': dec, 'repl_s': replace, 'repl_b': replace,
    'b64e': b64e, 'b64d': b64d, 'u64e': u64e, 'u64d': u64d, 'b32e': b32e, 'b32d': b32d,
    'join': join, 'bjoin': join, 'slice': mkslice, 'item': item, 'elem': elem,
    'startswith': startswith, 'endswith': endswith, 'in': contains,
    'scat': lambda *a: leaf(scat(*a)), 'bcat': lambda *a: leaf(scat(*a)), 'cat': lambda *a: leaf(lcat(*a)),
    'split': lambda *a: leaf(split(*a)), 'sadd': lambda *a: leaf(sadd(*a)), 'union': lambda *a: leaf(union(*a)),
    'isinst': isinst, 'int': mkint, 'match': match,
    'zip': lambda *a: leaf(mkzip(*a)),
    'unionall': lambda t: leaf(T('set') if t.op == 'list' and not t.args else T('unionall', t)),
    'flat': lambda t: leaf(T('list') if t.op == 'list' and not t.args else T('flat', t)),
    'todict': lambda t: leaf(mktodict(t)),
    'dupd': lambda a, b: leaf(dupd(a, b)),
    'idx': lambda s: elem_idx(s, const(0)) if s.op != 'idx' else leaf(T('idx', s)),
}


def _rebuild_lin(t, args):
    r = leaf(const(args[0]))
    for i in range(1, len(args), 2):
        k = args[i + 1]
        r = lift(lambda a, b: add(a, b), r, lift(lambda x: mul(x, const(k)) if k != 1 else leaf(x), args[i]))
    return r


INTS = ('int', '?int')


def _halfspaces(a, v):
    """atom with value v as (constant, {term: coefficient}, strict) >= 0 facts"""
    x, y = a.args[0], a.args[1]
    if not isconst(y) or type(cval(y)) not in (int, bool) or x.op == 'const':
        return ()
    c, ps = lin_parts(x) if x.op == 'lin' else (0, [(x, 1)])
    if x.op != 'lin' and typ(x) not in INTS and x.op != 'len':
        return ()
    if type(c) not in (int,):
        return ()
    k = int(cval(y))
    m = dict(ps)
    n = {t: -q for t, q in ps}
    up = (c - k, m)
    if a.op == 'eq':
        return (up, (k - c, n)) if v else ()
    if v:
        return (up,)
    if all(typ(t) in INTS or t.op == 'len' for t in m):
        return ((k - 1 - c, n),)
    return ()


def lin_conflict(a1, v1, a2, v2):
    for c1, m1 in _halfspaces(a1, v1):
        for c2, m2 in _halfspaces(a2, v2):
            if c1 + c2 >= 0:
                continue
            s = dict(m1)
            for t, q in m2.items():
                s[t] = s.get(t, 0) + q
            if all(q == 0 or q < 0 and t.op == 'len' for t, q in s.items()):
                return True
    return False


class Subst(object):
    """mapping: Term -> V.  Rebuilds terms through the smart constructors."""

    def __init__(self, mapping):
        self.m = mapping
        self.tm = {}
        self.vm = {}

    def term(self, t):
        r = self.m.get(t)
        if r is not None:
            return r
        r = self.tm.get(t)
        if r is not None:
            return r
        if not any(isinstance(a, (Term, V)) for a in t.args):
            r = leaf(t)
        elif t.op == 'box':
            r = self.value(t.args[0])
        else:
            new = []
            ch = False
            for a in t.args:
                if isinstance(a, Term):
                    n = self.term(a)
                    if not (n.leaf and n.hi is a):
                        ch = True
                    new.append(n)
                elif isinstance(a, V):
                    n = self.value(a)
                    if n is not a:
                        ch = True
                    new.append(n)
                else:
                    new.append(a)
            if not ch:
                r = leaf(t)
            elif t.op == 'lin':
                r = _rebuild_lin(t, new)
            else:
                r = mkop(t.op, new, t.typ)
        self.tm[t] = r
        return r

    def value(self, v):
        r = self.vm.get(v.id)
        if r is not None:
            return r
        if v.atom is None:
            r = self.term(v.hi)
        else:
            c = self.cond(v.atom)
            r = ite(c, self.value(v.hi), self.value(v.lo))
        self.vm[v.id] = r
        return r

    def cond(self, atom):
        r = self.term(atom)
        if r is leaf(atom) or (r.leaf and r.hi.op != 'const'):
            r = lift(truthy, r) if r.hi is not atom else atomv(atom)
        elif not all(l.op == 'const' for l in leaves(r)):
            r = lift(truthy, r)
        return r


# ops whose container arguments are stored boxed rather than lifted
BOXED = set(['tuple', 'list', 'dict', 'dset', 'map', 'fmap', 'call', 'struct', 'set', 'some', 'exc', 'ok', 'raises',
             'strfmt', 'out', 'ev'])


LIFTED = set(['call', 'raises', 'exits'])


def nleaves(v):
    return len(leaves(v))


def mkcall(op, args, ty=None):
    """uninterpreted application; small case distinctions in the arguments are
    pulled out so that they meet the path conditions"""
    vs = [a for a in args if isinstance(a, V)]
    n = 1
    for a in vs:
        if a.atom is not None:
            n *= nleaves(a)
    if n <= 16:
        def build(*ts):
            it = iter(ts)
            t = in_order(T(op, *[next(it) if isinstance(a, V) else a for a in args]))
            if ty and ty != '*' and (t.typ is None or t.typ == '*'):
                t.typ = ty
            return atomv(t) if typ(t) == 'bool' else leaf(t)
        return lift(build, *vs)
    t = T(op, *[box(a) if isinstance(a, V) else a for a in args])
    if ty and ty != '*' and (t.typ is None or t.typ == '*'):
        t.typ = ty
    return atomv(t) if typ(t) == 'bool' else leaf(t)


CERT_SETTERS = {'.subject_name', '.issuer_name', '.not_valid_before', '.not_valid_after', '.serial_number', '.public_key', '.add_extension'}


def in_order(t):
    """the setters of a certificate builder commute"""
    if t.op != 'call' or t.args[0] not in CERT_SETTERS:
        return t
    r = t.args[1]
    if not (isinstance(r, Term) and r.op == 'call' and r.args[0] in CERT_SETTERS and t.args[0] < r.args[0]):
        return t
    b = r
    while b.op == 'call' and b.args[0] in CERT_SETTERS and isinstance(b.args[1], Term):
        b = b.args[1]
    if b.op != 'call' or not str(b.args[0]).endswith('x509.CertificateBuilder'):
        return t
    return T('call', r.args[0], in_order(T('call', t.args[0], r.args[1], *t.args[2:])), *r.args[2:])


def callcases(op, args, ty=None):
    """[(condition, term)]: the applications mkcall(op, args) stands for"""
    vs = [a for a in args if isinstance(a, V)]
    n = 1
    for a in vs:
        if a.atom is not None:
            n *= nleaves(a)
    if n > 16:
        vs, args = [], [box(a) if isinstance(a, V) else a for a in args]

    def build(*ts):
        it = iter(ts)
        t = T(op, *[next(it) if isinstance(a, V) else a for a in args])
        if ty and ty != '*' and (t.typ is None or t.typ == '*'):
            t.typ = ty
        return leaf(t)
    r = lift(build, *vs)
    if r.leaf:
        return [(TRUE, r.hi)]
    return [(lift(lambda x, t=t: TRUE if x is t else FALSE, r), t) for t in leaves(r)]


def mkop(op, args, ty=None):
    """args: V | python constants"""
    if op in LIFTED:
        return mkcall(op, args, ty)
    if op in ('map', 'fmap') and isinstance(args[0], V) and args[0].leaf and args[0].hi.op in ('list', 'tuple') and not args[0].hi.args:
        return leaf(T('list'))
    if op in BOXED:
        return leaf(T(op, *[box(a) if isinstance(a, V) else a for a in args]))
    f = REBUILD.get(op)
    vs = [a for a in args if isinstance(a, V)]

    def build(*ts):
        it = iter(ts)
        full = [next(it) if isinstance(a, V) else a for a in args]
        if f is not None:
            return f(*full)
        t = T(op, *full)
        if ty and ty != '*' and t.typ is None:
            t.typ = ty
        if typ(t) == 'bool':
            return atomv(t)
        return leaf(t)
    return lift(build, *vs)


# ------------------------------------------------------------ dependencies

def subterms(t, seen=None):
    """all subterms (including through boxes)"""
    if t.deps is not None:
        return t.deps
    out = set([t])
    for a in t.args:
        if isinstance(a, Term):
            out |= subterms(a)
        elif isinstance(a, V):
            out |= vterms(a)
    t.deps = frozenset(out)
    return t.deps


_vt = {}


def vterms(v):
    r = _vt.get(v.id)
    if r is None:
        if v.atom is None:
            r = subterms(v.hi)
        else:
            r = subterms(v.atom) | vterms(v.hi) | vterms(v.lo)
        _vt[v.id] = r
    return r


# ------------------------------------------------------- theory of the atoms

_conf = {}


def conflict(a1, v1, a2, v2):
    key = (a1, v1, a2, v2)
    r = _conf.get(key)
    if r is None:
        r = _conflict(a1, v1, a2, v2) or _conflict(a2, v2, a1, v1)
        _conf[key] = r
        _conf[(a2, v2, a1, v1)] = r
    return r


DISJOINT = set(['str', 'bytes', 'int', 'float', 'list', 'dict', 'tuple', 'set', 'none'])


def _evalatom(a, old, new):
    s = Subst({old: leaf(new)})
    return s.cond(a)


def _conflict(a1, v1, a2, v2):
    # user supplied axioms
    for ax in AXIOMS:
        if ax(a1, v1, a2, v2):
            return True
    if a1.op == 'eq' and v1:
        x, y = a1.args
        if isconst(y) and x in subterms(a2) and a2 is not a1:
            r = _evalatom(a2, x, y)
            if r is TRUE and not v2 or r is FALSE and v2:
                return True
    if a1.op == 'isinst' and a2.op == 'isinst' and a1.args[0] is a2.args[0]:
        c1, c2 = a1.args[1], a2.args[1]
        if v1 and v2 and c1 != c2 and c1 in DISJOINT and c2 in DISJOINT:
            return True
        if v1 and not v2 and (CLASSES.issub(c1, c2) or c2 == 'object'):
            return True
    if a1.op == 'ge' and a2.op == 'ge':
        if a1.args[0] is a2.args[0] and isconst(a1.args[1]) and isconst(a2.args[1]):
            try:
                if v1 and not v2 and cval(a1.args[1]) >= cval(a2.args[1]):
                    return True
            except TypeError:
                pass
    if a1.op in ('ge', 'eq') and a2.op in ('ge', 'eq') and lin_conflict(a1, v1, a2, v2):
        return True
    if a1.op == 'ge' and v1 and a2.op == 'in' and not v2 and a1.args[0].op == 'len' and isconst(a1.args[1]) \
            and cval(a1.args[1]) >= 2:
        x = a1.args[0].args[0]
        if x.op == 'split' and len(x.args) == 2 and x.args[0] is a2.args[1] and x.args[1] is a2.args[0]:
            return True
    if a1.op in ('startswith', 'endswith') and v1 and a2.op == 'in' and not v2 and a1.args[0] is a2.args[1] and isconst(a1.args[1]) and \
            isconst(a2.args[0]):
        return cval(a2.args[0]) in cval(a1.args[1])
    if a1.op == 'gt' and v1 and a2.op == 'ge' and not v2 and a1.args == a2.args:
        return True
    if a1.op == 'eq' and v1 and a2.op in ('ge', 'gt') and set(a1.args) == set(a2.args):
        if (a2.op == 'ge') != v2:
            return True
    if a1.op == 'nonempty' and not v1 and a2.op == 'some' and v2 and a2.args[0] is a1.args[0]:
        return True
    if a1.op == 'nonempty' and not v1 and a2.op == 'in' and v2 and a2.args[1] is a1.args[0]:
        return True
    if a1.op == 'startswith' and v1 and a2.op == 'startswith' and v2 and a1.args[0] is a2.args[0] \
            and isconst(a1.args[1]) and isconst(a2.args[1]):
        p, q = cval(a1.args[1]), cval(a2.args[1])
        if not p.startswith(q) and not q.startswith(p):
            return True
    if a1.op == 'startswith' and v1 and a2.op == 'startswith' and not v2 and a1.args[0] is a2.args[0] \
            and isconst(a1.args[1]) and isconst(a2.args[1]):
        if cval(a1.args[1]).startswith(cval(a2.args[1])):
            return True
    if a1.op in ('startswith', 'endswith') and v1 and a2.op == 'ge' and not v2 and isconst(a1.args[1]) \
            and a2.args[0].op == 'len' and a2.args[0].args[0] is a1.args[0] and isconst(a2.args[1]):
        if len(cval(a1.args[1])) >= cval(a2.args[1]):
            return True
    if a1.op in ('startswith', 'endswith') and v1 and a2.op == 'eq' and v2 and a2.args[0] is a1.args[0] \
            and isconst(a2.args[1]) and cval(a2.args[1]) in ('', b'') and isconst(a1.args[1]) and len(cval(a1.args[1])):
        return True
    if a1.op in ('isdigit', 'isalnum') and v1 and a2.op == 'eq' and v2 and a2.args[0] is a1.args[0] \
            and isconst(a2.args[1]) and cval(a2.args[1]) == '':
        return True
    if a1.op == 'match' and v1 and isconst(a1.args[0]) and isinstance(cval(a1.args[0]), str):
        if a2.op == 'match' and not v2 and a2.args[2] is a1.args[2] and isconst(a2.args[0]):
            return included(lang(cval(a1.args[0]), a1.args[1]), lang(cval(a2.args[0]), a2.args[1]))
        if a2.op == 'ok' and a2.args[0] == 'float' and not v2:
            t = a2.args[1]
            if t is a1.args[2]:
                return included(lang(cval(a1.args[0]), a1.args[1]), _FLOAT % r'\.')
            if t.op == 'repl_s' and t.args[0] is a1.args[2] and isconst(t.args[1]) and cval(t.args[1]) == ',' and \
                    isconst(t.args[2]) and cval(t.args[2]) == '.':
                return included(lang(cval(a1.args[0]), a1.args[1]), _FLOAT % ',')
    if a2.op == 'ok' and a2.args[0] == 'nosurr' and not v2 and v1:
        t = a2.args[1]
        if a1.op == 'match' and a1.args[2] is t and isconst(a1.args[0]):
            return included(lang(cval(a1.args[0]), a1.args[1]), '[^\ud800-\udfff]*\\Z')
        if a1.op in ('isdigit', 'isalnum') and a1.args[0] is t or a1.op == 'ok' and a1.args[0] in ('strptime', 'float', 'int10') and \
                a1.args[1] is t:
            return True
        if a1.op == 'truthy' and a1.args[0].op == 'call' and a1.args[0].args[0] in ('.isdigit', '.isalnum') and a1.args[0].args[1] is t:
            return True
    if a1.op == 'match' and v1 and a2.op == 'ok' and a2.args[0] in ('int', 'int10') and not v2 and a2.args[1] is a1.args[2]:
        # pieces of a text split at (Q), separators kept: a piece that matches Q is such a separator
        t = a1.args[2]
        if t.op == 'elem' and t.args[0].op == 'call' and t.args[0].args[0] == '.split' and t.args[0].args[1].op == 'regex' and \
                isconst(a1.args[0]):
            p = cval(a1.args[0])
            r = t.args[0].args[1].args[0]
            if isconst(r) and cval(r) == p and p[:1] == '(' and p[-1:] == ')' and p[1:-1].count('(') == 0:
                return included('(?:%s)\\Z' % p[1:-1], r'\s*[+-]?\d+\Z')
        return included(lang(cval(a1.args[0]), a1.args[1]), r'\s*[+-]?\d+\s*\Z') if isconst(a1.args[0]) else False
    if a1.op == 'isdigit' and v1 and a2.op == 'isalnum' and not v2 and a1.args[0] is a2.args[0]:
        return True
    return False


_FLOAT = r'\s*[+-]?\d+%s\d+\s*\Z'

AXIOMS = []
UNARY = []


_SIZED = ('str', 'bytes', 'list', 'dict', 'tuple', 'set')


def emptiness(assign, atom, val):
    """the truth of a text or container is that it is not empty"""
    x = atom.args[0]
    if atom.op == 'ge':
        if x.op != 'len' or not isconst(atom.args[1]) or cval(atom.args[1]) != 1:
            return True
        x = x.args[0]

    def get(a):
        return val if a is atom else assign.get(a)
    tr = get(T('truthy', x))
    if tr is None:
        return True
    size = get(T('ge', T('len', x), const(1)))
    if size is not None and size != tr and any(get(T('isinst', x, c)) for c in _SIZED):
        return False
    for c, e in (('str', ''), ('bytes', b'')):
        if not tr and get(T('isinst', x, c)) and get(T('eq', x, const(e))) is False:
            return False
    return True


def consistent(assign, atom, val, index):
    """pairwise check of (atom,val) against assigned atoms sharing subterms"""
    for u in UNARY:
        if u(atom, val):
            return False
    if atom.op in ('truthy', 'isinst', 'eq', 'ge') and not emptiness(assign, atom, val):
        return False
    rel = set()
    for s in subterms(atom):
        l = index.get(s)
        if l:
            rel.update(l)
    for a in rel:
        if conflict(a, assign[a], atom, val):
            return False
    # equality between two non-constants: congruence with one substitution
    eqs = [a for a in rel if a.op == 'eq' and assign[a] and not isconst(a.args[1])]
    if atom.op == 'eq' and val and not isconst(atom.args[1]):
        x, y = atom.args
        for a in list(assign):
            if x in subterms(a) and a is not atom:
                r = _evalatom(a, x, y)
                if not _agree(r, assign[a], assign):
                    return False
            elif y in subterms(a) and a is not atom:
                r = _evalatom(a, y, x)
                if not _agree(r, assign[a], assign):
                    return False
    for e in eqs:
        x, y = e.args
        for p, q in ((x, y), (y, x)):
            if p in subterms(atom) and e is not atom:
                r = _evalatom(atom, p, q)
                if not _agree(r, val, assign):
                    return False
    return True


def _agree(r, val, assign):
    while r.atom is not None:
        if r.atom in assign:
            r = r.hi if assign[r.atom] else r.lo
        else:
            return True
    if r is TRUE:
        return val
    if r is FALSE:
        return not val
    return True


class Budget(Exception):
    pass


_sat = {}


def sat(v, budget=40000):
    """True / False, or None when the budget ran out (treated as 'maybe')."""
    if v is TRUE:
        return True
    if v is FALSE:
        return False
    r = _sat.get(v.id, 0)
    if r != 0:
        return r
    n = [0]
    w = [None]
    # relevance: atoms that interact with no other atom never need theory work
    def go(v, assign, index):
        if v is FALSE:
            return False
        if v is TRUE:
            w[0] = dict(assign)
            return True
        n[0] += 1
        if n[0] > budget:
            raise Budget()
        a = v.atom
        for val, nx in ((True, v.hi), (False, v.lo)):
            if nx is FALSE:
                continue
            if consistent(assign, a, val, index):
                assign[a] = val
                subs = subterms(a)
                for s in subs:
                    if not (s.op == 'const'):
                        index.setdefault(s, []).append(a)
                ok = go(nx, assign, index)
                for s in subs:
                    if not (s.op == 'const'):
                        index[s].pop()
                del assign[a]
                if ok:
                    return True
        return False
    try:
        r = go(v, {}, {})
    except Budget:
        r = None
    _sat[v.id] = r
    if r:
        _wit[v.id] = w[0]
    return r


_wit = {}


def witness(v):
    if sat(v):
        return _wit.get(v.id, {})
    return None


def _equality(a, v, w):
    """the two terms that atom a makes equal under witness w, or None"""
    if a.op == 'eq' and v and not isconst(a.args[1]) and not isconst(a.args[0]):
        x, y = a.args
    elif a.op == 'ge' and isconst(a.args[1]):
        c, ps = lin_parts(a.args[0])
        if len(ps) != 2 or sorted(k for t, k in ps) != [-1, 1]:
            return None
        k = cval(a.args[1]) - (0 if v else 1)
        o = T('ge', a.args[0], const(k + 1 if v else k))
        if k != 0 or w.get(o if v else T('ge', a.args[0], const(0))) is not (not v):
            return None
        x, y = ps[0][0], ps[1][0]
    else:
        return None
    if x in subterms(y) or y in subterms(x):
        return None
    return (x, y) if len(subterms(x)) >= len(subterms(y)) else (y, x)


class Under(Subst):
    """terms in the situation a witness describes: inner case distinctions it decides are taken"""

    def __init__(self, w):
        Subst.__init__(self, {})
        self.w = w
        self.index = {}
        for a in w:
            for s in subterms(a):
                if s.op != 'const':
                    self.index.setdefault(s, []).append(a)

    def decide(self, a):
        v = self.w.get(a)
        if v is None and not (self.index.keys() & subterms(a)):
            return None
        if v is None:
            if not consistent(self.w, a, True, self.index):
                v = False
            elif not consistent(self.w, a, False, self.index):
                v = True
        return v

    def value(self, v):
        r = self.vm.get(v.id)
        if r is None:
            if v.atom is None:
                r = self.term(v.hi)
            else:
                d = self.decide(v.atom)
                if d is None:
                    r = ite(self.cond(v.atom), self.value(v.hi), self.value(v.lo))
                else:
                    r = self.value(v.hi if d else v.lo)
            self.vm[v.id] = r
        return r


def torn(w):
    """whether a witness gives one fact, written in two ways, both outcomes"""
    if not any(t.op == 'box' for a in w for t in subterms(a)):
        return False
    u = Under(w)
    got = {}
    for a, val in w.items():
        try:
            r = u.cond(a)
        except (Blowup, RecursionError):
            continue
        if r.atom is None and r.hi.op == 'const':
            if (r is TRUE) != val:
                return True
            continue
        if got.setdefault(r.id, val) != val:
            return True
        r = NOT(r)
        if got.setdefault(r.id, not val) == val:
            return True
    return False


def closed(v, limit=60):
    """(condition, witness) that also respects congruence of every equality it supposes;
    None when there is none, False when undecided"""
    stack, seen = [v], set()
    while stack:
        limit -= 1
        if limit < 0:
            return False
        c = stack.pop()
        s = sat(c)
        if s is False:
            continue
        if s is None:
            return False
        w = witness(c) or {}
        for a, val in w.items():
            e = _equality(a, val, w)
            if e is None:
                continue
            try:
                q = lift(eq, leaf(e[0]), leaf(e[1]))
                d = Subst({e[0]: leaf(e[1])}).value(c)
            except (Blowup, RecursionError):
                return False
            stack.append(AND(c, NOT(q)))
            stack.append(d)
            break
        else:
            if not torn(w):
                return c, w
            stack.append(AND(c, NOT(AND(*[atomv(a) if val else NOT(atomv(a)) for a, val in w.items()]))))
    return None


def implies(a, b):
    """a => b modulo the theory: True/False/None"""
    s = sat(AND(a, NOT(b)))
    if s is None:
        return None
    return not s


def prune(v, budget=4000):
    """drop theory-inconsistent branches of a condition"""
    s = sat(v, budget)
    if s is False:
        return FALSE
    return v


def mksum(t):
    """sum of the elements of sequence term t"""
    if t.op in ('list', 'tuple'):
        r = leaf(const(0))
        for x in t.args:
            r = lift(add, r, unbox(x))
        return r
    if t.op == 'cat':
        r = leaf(const(0))
        for x in t.args:
            r = lift(add, r, mksum(x))
        return r
    if t.op == 'fmap':
        return mksum(T('map', t.args[0], box(ite(unbox(t.args[1]), unbox(t.args[2]), leaf(const(0))))))
    if t.op == 'map' and t.args[0].op == 'cat':
        q, v = t.args[0], unbox(t.args[1])
        if not any(x.op == 'idx' and x.args[0] is q for x in vterms(v)):
            r = leaf(const(0))
            for p in q.args:
                if p.op == 'list':
                    for x in p.args:
                        r = lift(add, r, Subst({elem(q).hi: unbox(x)}).value(v))
                else:
                    r = lift(add, r, mksum(T('map', p, box(Subst({elem(q).hi: elem(p)}).value(v)))))
            return r
    if t.op == 'map':
        v = unbox(t.args[1])
        xs = list(leaves(v))
        if all(isconst(x) and type(cval(x)) in (int, bool) for x in xs):
            n = v
            while n.atom is not None:
                n = n.lo
            k = int(cval(n.hi))
            r = lift(lambda y: mul(const(k), y), mklen(t.args[0]))
            if len(xs) > 1:
                v = lift(lambda x: leaf(const(int(cval(x)) - k)), v)
                n, todo = 0, [v]
                while not n:
                    x = todo.pop()
                    if x.atom is None:
                        n = cval(x.hi)
                    else:
                        todo += [x.lo, x.hi]
                if n < 0:
                    v = lift(lambda x: leaf(const(-cval(x))), v)
                u = T('call', 'sum', T('map', t.args[0], box(v)))
                r = lift(lambda y: sub(y, u) if n < 0 else add(y, u), r)
            return r
    return leaf(T('call', 'sum', t))
