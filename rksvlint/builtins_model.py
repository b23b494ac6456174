"""Normalising models of the built-in types' methods, the builtins and the
library functions the repository uses.  A function that is not modelled becomes
an uninterpreted term (and an event)."""
import ast
import base64

from . import canon
from .rx import signature as rx_signature
from .canon import (typ, btyp, base_type, isconst, cval, eq, ge, gt, truthy, mklen, isinst, scat, enc, dec, replace,
                    join, split, mkslice, item, elem, lcat, contains)
from .dd import (T, V, Term, const, leaf, TRUE, FALSE, NONE, UNDEF, ite, NOT, AND, OR, atomv, lift, box, unbox,
                 leaves, cases, where, restrict as dd_restrict)


def seqs(I, v, st):
    return I.freeze_seq(v, st)


def b2s(v):
    """bool condition from V"""
    return v


# ---------------------------------------------------------------- methods

def method(I, recv, name, args, kwargs, st, node):
    bt = btyp(recv)
    if recv.op == 'gen':
        return I.top('generator method ' + name, st)
    cont = I.content(recv, st)
    kinds = set(btyp(t) for t in leaves(cont)) or {bt}
    if recv.op == 'ref':
        kind = recv.args[1]
    else:
        kind = bt
    if kind in ('str', 'bytes'):
        return str_method(I, recv, name, args, kwargs, st, node)
    if kind == 'list':
        return list_method(I, recv, name, args, kwargs, st, node)
    if kind == 'dict':
        return dict_method(I, recv, name, args, kwargs, st, node)
    if kind == 'set':
        return set_method(I, recv, name, args, kwargs, st, node)
    if kind == 'tuple':
        return list_method(I, recv, name, args, kwargs, st, node)
    if kind == 'hash':
        return hash_method(I, recv, name, args, st, node)
    if kind == 'int':
        if name == 'to_bytes':
            d = dict(kwargs)
            names = ['length', 'byteorder', 'signed']
            vals = dict(zip(names, args))
            vals.update(d)
            size = vals.get('length', leaf(const(1)))
            bo = vals.get('byteorder', leaf(const('big')))
            sg = vals.get('signed', FALSE)
            return lift(lambda l, b, s: leaf(T('tobytes', recv, l, b, s)), size, bo, sg)
        if name == 'bit_length':
            return leaf(T('call', '.bit_length', recv))
    if recv.op == 'regex':
        return regex_method(I, recv, name, args, kwargs, st, node)
    if name == 'encode' and I.strict and canon.isjson(recv):
        I.implicit(st, 'UnicodeEncodeError', node, may_surrogate(recv))
        if st.dead:
            return UNDEF
    return I.call_symbolic(T('attr', recv, name), args, kwargs, st, node)


def regex_method(I, recv, name, args, kwargs, st, node):
    if name in ('match', 'fullmatch', 'search'):
        I.need(st, args[0], ('str',), 'TypeError', node)
        if st.dead:
            return UNDEF

        def f(s):
            if isconst(s) and isconst(recv.args[0]) and isinstance(cval(s), (str, bytes)):
                import re
                try:
                    r = getattr(re.compile(cval(recv.args[0])), name)(cval(s))
                    return leaf(typed(T('mobj', recv, name, s), 'obj:re.Match')) if r else NONE
                except Exception:
                    pass
            return ite(match_atom(recv, name, s), leaf(typed(T('mobj', recv, name, s), 'obj:re.Match')), NONE)
        return lift(f, args[0])
    return I.call_symbolic(T('attr', recv, name), args, kwargs, st, node)


def match_atom(rx, name, s):
    """regex membership; patterns denoting the same language coincide"""
    pat = rx.args[0]
    while s.op in ('dec', 'enc'):
        s = s.args[0]
    if len(rx.args) > 1:
        return atomv(typed(T('call', 'match-flags', pat, name, s, *rx.args[1:]), 'bool'))
    return canon.match(pat, name, s)


def dflt(args, kwargs, i, nm, d):
    if i < len(args):
        return args[i]
    return kwargs.get(nm, d)


def str_method(I, recv, name, args, kwargs, st, node):
    isb = btyp(recv) == 'bytes'
    if isconst(recv) and all(a.leaf and isconst(a.hi) for a in args) and not kwargs and \
            name not in ('split', 'splitlines', 'encode', 'decode', 'format', 'partition', 'rpartition', 'rsplit'):
        try:
            r = getattr(cval(recv), name)(*[cval(a.hi) for a in args])
            if isinstance(r, (str, bytes, int, bool)):
                return leaf(const(r))
        except Exception:
            pass
    if name == 'encode':
        e = args[0] if args else kwargs.get('encoding')
        if e is None or (e.leaf and isconst(e.hi) and str(cval(e.hi)).lower().replace('_', '-') in ('utf-8', 'utf8')):
            if I.strict:
                I.implicit(st, 'UnicodeEncodeError', node, may_surrogate(recv))
                if st.dead:
                    return UNDEF
            return enc(recv)
        return lift(lambda x: leaf(typed(T('call', 'encode', recv, x), 'bytes')), e)
    if name == 'decode':
        e = args[0] if args else kwargs.get('encoding')
        if e is None or (e.leaf and isconst(e.hi) and str(cval(e.hi)).lower().replace('_', '-') in ('utf-8', 'utf8')):
            I.implicit(st, 'UnicodeDecodeError', node, may_undecodable(recv))
            if st.dead:
                return UNDEF
            return dec(recv)
        return lift(lambda x: leaf(typed(T('call', 'decode', recv, x), 'str')), e)
    if name == 'split':
        if not args and not kwargs:
            return I.new_ref(st, 'list', split(recv))
        sep = dflt(args, kwargs, 0, 'sep', None)
        mx = dflt(args, kwargs, 1, 'maxsplit', None)
        if mx is not None:
            r = lift(lambda s, m: leaf(split(recv, s, m)), sep or NONE, mx)
        else:
            r = lift(lambda s: leaf(split(recv, s)), sep)
        return I.new_ref(st, 'list', r)
    if name in ('rsplit',):
        return I.new_ref(st, 'list', typed(T('call', 'rsplit', recv, *[box(a) for a in args]), 'list'))
    if name == 'partition' and len(args) == 1 and not kwargs and args[0].leaf and isconst(args[0].hi) and cval(args[0].hi):
        d = args[0].hi
        has = canon.contains(d, recv)
        none = leaf(const('' if btyp(recv) != 'bytes' else b''))
        return leaf(T('tuple', box(canon.item(split(recv, d), const(0))), box(ite(has, leaf(d), none)),
                      box(ite(has, canon.item(split(recv, d, const(1)), const(1)), none))))
    if name in ('partition', 'rpartition'):
        t = typed(T('call', name, recv, *[box(a) for a in args]), 'tuple')
        return leaf(t)
    if name == 'splitlines':
        return I.new_ref(st, 'list', T('splitlines', recv))
    if name == 'join':
        q = seqs(I, args[0], st)
        return lift(lambda s: join(recv, s), I.freeze(q, st))
    if name == 'replace':
        if len(args) > 2:
            return leaf(typed(T('call', 'replace3', recv, *[box(a) for a in args]), btyp(recv)))
        return lift(lambda a, b: replace(recv, a, b), args[0], args[1])
    if name == 'format':
        fa = [I.freeze(a, st) for a in args]
        return I.format(recv, fa, {k: I.freeze(v, st) for k, v in kwargs.items()})
    if name == 'startswith':
        return lift(lambda p: canon.startswith(recv, p), I.freeze(args[0], st)) if len(args) == 1 else \
            leaf(T('call', 'startswith3', recv, *[box(a) for a in args]))
    if name == 'endswith':
        return lift(lambda p: canon.endswith(recv, p), I.freeze(args[0], st)) if len(args) == 1 else \
            leaf(T('call', 'endswith3', recv, *[box(a) for a in args]))
    if name in ('isdigit', 'isalnum') and canon.behind(recv) is not None and not cval(canon.behind(recv)[1]).isalnum():
        x, d, n = canon.behind(recv)
        return ite(canon.contains(d, recv), FALSE, atomv(T(name, recv)))
    if name in ('isdigit', 'isalnum'):
        return atomv(T(name, recv))
    if name in ('isupper', 'islower', 'isalpha', 'isspace', 'isdecimal', 'isnumeric', 'isidentifier', 'isascii'):
        return atomv(typed(T('call', name, recv), 'bool'))
    if name == 'find' and len(args) == 1:
        return lift(lambda p: leaf(T('find', recv, p)), args[0])
    if name == 'index' and len(args) == 1:
        I.implicit(st, 'ValueError', node, NOT(lift(lambda p: contains(p, recv), args[0])))
        return lift(lambda p: leaf(T('find', recv, p)), args[0])
    if name == 'count' and len(args) == 1 and args[0].leaf and isconst(args[0].hi) and cval(args[0].hi):
        return lift(lambda n: canon.sub(n, const(1)), lift(mklen, leaf(split(recv, args[0].hi))))
    if name == 'count' and len(args) == 1:
        return lift(lambda p: leaf(T('count', recv, p)), args[0])
    if name in ('rstrip', 'strip') and len(args) == 1 and args[0].leaf and isconst(args[0].hi) and \
            cval(args[0].hi) in ('=', b'='):
        r = canon.strip_eq(recv)
        if r is not None:
            return r
    if name in ('ljust', 'rjust') and 1 <= len(args) <= 2:
        def pad(w, c):
            more = lift(lambda n: canon.mul(c, n), lift(lambda n: canon.sub(w, n), canon.mklen(recv)))
            return lift(lambda m: canon.add(recv, m) if name == 'ljust' else canon.add(m, recv), more)
        return lift(pad, args[0], args[1] if len(args) > 1 else leaf(const(b' ' if btyp(recv) == 'bytes' else ' ')))
    if name in ('strip', 'lstrip', 'rstrip', 'upper', 'lower', 'title', 'zfill', 'ljust', 'rjust', 'casefold',
                'swapcase', 'capitalize', 'hex', 'center', 'expandtabs', 'removeprefix', 'removesuffix', 'translate'):
        return lift(lambda *a: leaf(typed(T('strm', name, recv, *a), 'str' if name == 'hex' else btyp(recv))),
                    *args) if args else leaf(typed(T('strm', name, recv), 'str' if name == 'hex' else btyp(recv)))
    return leaf(T('call', '.' + name, recv, *[box(a) for a in args]))


def typed(t, ty):
    if t.typ is None:
        t.typ = ty
    return t


def may_undecodable(t):
    """condition under which bytes t is not valid UTF-8"""
    if isconst(t):
        try:
            cval(t).decode('utf-8')
            return FALSE
        except Exception:
            return TRUE
    if t.op in ('enc', 'b64e', 'u64e', 'b32e'):
        return FALSE
    if t.op == 'bcat':
        return OR(*[may_undecodable(x) for x in t.args])
    if t.op == 'repl_b':
        return may_undecodable(t.args[0])
    if t.op == 'bjoin':
        s = t.args[1]
        if s.op == 'map' and s.args[1].op in ('enc', 'b64e', 'u64e', 'b32e'):
            return FALSE
    if t.op == 'box':
        return lift(may_undecodable, t.args[0])
    if t.op == 'call' and t.args[0] == 'pad64b':
        return may_undecodable(t.args[1])
    if t.op == 'call' and t.args[0] == '.encode' and (len(t.args) == 2 or str(t.args[2]).lower() in ("'utf-8'", "'utf8'")):
        return FALSE
    return NOT(atomv(T('ok', 'utf8', t)))


def may_surrogate(t):
    if isconst(t):
        try:
            cval(t).encode('utf-8')
            return FALSE
        except Exception:
            return TRUE
    if t.op in ('dec', 'str', 'strfmt'):
        return FALSE
    if t.op == 'scat':
        if sum(not isconst(x) for x in t.args) > 4:
            return FALSE        # a record put together from many fields: as with format()
        return OR(*[may_surrogate(x) for x in t.args])
    if t.op in ('repl_s', 'slice', 'strm', 'item'):
        for a in t.args:
            if isinstance(a, Term) and btyp(a) in ('str', 'list'):
                return may_surrogate(a)
    if t.op == 'split':
        return may_surrogate(t.args[0])
    if t.op == 'box':
        return lift(may_surrogate, t.args[0])
    return NOT(atomv(T('ok', 'nosurr', t)))


def list_method(I, recv, name, args, kwargs, st, node):
    c = I.content(recv, st)
    K = ('I', recv)
    if name == 'append':
        v = args[0]
        st.store[K] = lift(lambda x: leaf(lcat(x, T('list', box(v)))), c)
        return NONE
    if name == 'extend':
        q = seqs(I, args[0], st)
        if st.dead:
            return UNDEF
        st.store[K] = lift(lambda x, y: leaf(lcat(x, y if y.op != 'tuple' else T('list', *y.args))),
                           I.content(recv, st), q)
        return NONE
    if name == 'insert':
        if args[0].leaf and isconst(args[0].hi) and cval(args[0].hi) == 0:
            st.store[K] = lift(lambda x: leaf(lcat(T('list', box(args[1])), x)), c)
        else:
            st.store[K] = lift(lambda x, i: leaf(typed(T('call', 'insert', x, i, box(args[1])), 'list')), c, args[0])
        return NONE
    if name == 'pop':
        i = args[0] if args else leaf(const(-1))
        if recv.op == 'elem' or True:
            I.implicit(st, 'IndexError', node, NOT(lift(canon.nonempty, c)) if all(btyp(x) == 'list' for x in leaves(c)) else FALSE)
        if st.dead:
            return UNDEF
        v = lift(item, c, i)
        I.del_item(recv, i, st, node)
        return v
    if name == 'clear':
        st.store[K] = leaf(T('list'))
        return NONE
    if name == 'copy':
        return I.new_ref(st, 'list', c)
    if name == 'index':
        return lift(lambda x, y: leaf(typed(T('call', 'index', x, y), 'int')), c, args[0])
    if name == 'count':
        return lift(lambda x, y: leaf(typed(T('call', 'lcount', x, y), 'int')), c, args[0])
    if name == 'reverse':
        st.store[K] = lift(lambda x: leaf(T('rev', x)), c)
        return NONE
    if name == 'sort':
        key = [box(v) for k, v in sorted(kwargs.items())]
        st.store[K] = lift(lambda x: leaf(T('sorted', x, *key)), c)
        return NONE
    if name == 'remove':
        st.store[K] = lift(lambda x, y: leaf(typed(T('call', 'remove', x, y), 'list')), c, args[0])
        return NONE
    return I.call_symbolic(T('attr', recv, name), args, kwargs, st, node)


def dict_method(I, recv, name, args, kwargs, st, node):
    c = I.content(recv, st)
    K = ('I', recv)
    if name == 'get':
        d = args[1] if len(args) > 1 else kwargs.get('default', NONE)

        def f(x, k):
            has = contains(k, x)
            if has is TRUE:
                return item(x, k)
            if has is FALSE:
                return d
            return ite(has, item(x, k), d)
        return lift(f, c, args[0])
    if name == 'keys':
        return lift(lambda x: leaf(T('list', *x.args[::2])) if x.op == 'dict' else leaf(T('keys', x)), c)
    if name == 'values':
        return lift(lambda x: leaf(T('list', *x.args[1::2])) if x.op == 'dict' else leaf(T('values', x)), c)
    if name == 'items':
        return lift(lambda x: leaf(T('list', *[T('tuple', x.args[i], x.args[i + 1]) for i in range(0, len(x.args), 2)]))
                    if x.op == 'dict' else leaf(T('items', x)), c)
    if name == 'update':
        o = seqs(I, args[0], st) if args else leaf(T('dict'))

        def upd(x, y):
            if y.op == 'dict':
                r = leaf(x)
                for i in range(0, len(y.args), 2):
                    k, v = y.args[i], unbox(y.args[i + 1])
                    r = lift(lambda z: I.set_item_content(z, k, v), r)
                return r
            return leaf(T('dupd', x, y))
        st.store[K] = lift(upd, c, o)
        for k, v in kwargs.items():
            st.store[K] = lift(lambda x: I.set_item_content(x, const(k), v), st.store[K])
        return NONE
    if name == 'setdefault':
        d = args[1] if len(args) > 1 else NONE
        has = lift(lambda x, k: contains(k, x), c, args[0])
        v = ite(has, lift(item, c, args[0]), d)
        st.store[K] = ite(has, c, lift(lambda x, k: I.set_item_content(x, k, d), c, args[0]))
        return v
    if name == 'pop':
        has = lift(lambda x, k: contains(k, x), c, args[0])
        if len(args) == 1:
            I.implicit(st, 'KeyError', node, NOT(has))
            if st.dead:
                return UNDEF
            v = lift(item, c, args[0])
        else:
            v = ite(has, lift(item, c, args[0]), args[1])
        st.store[K] = lift(lambda x, k: canon.ddel(x, k), c, args[0])
        return v
    if name == 'copy':
        return I.new_ref(st, 'dict', c)
    if name == 'clear':
        st.store[K] = leaf(T('dict'))
        return NONE
    return I.call_symbolic(T('attr', recv, name), args, kwargs, st, node)


def set_method(I, recv, name, args, kwargs, st, node):
    c = I.content(recv, st)
    K = ('I', recv)
    if name == 'add':
        st.store[K] = lift(lambda x, y: leaf(canon.sadd(x, y)), c, I.freeze(args[0], st))
        return NONE
    if name in ('update', 'union', '__or__', '__ior__'):
        r = c
        for a in args:
            q = I.freeze(seqs(I, a, st), st)

            def u(x, y):
                if y.op in ('list', 'tuple', 'set'):
                    z = x
                    for e in y.args:
                        z = canon.sadd(z, e)
                    return leaf(z)
                return leaf(canon.union(x, canon.mkset(y)))
            r = lift(u, r, q)
        if st.dead:
            return UNDEF
        if name == 'update':
            st.store[K] = r
            return NONE
        return I.new_ref(st, 'set', r)
    if name in ('discard', 'remove'):
        if name == 'remove':
            I.implicit(st, 'KeyError', node, NOT(lift(lambda x, y: contains(y, x), c, args[0])))
        st.store[K] = lift(lambda x, y: leaf(T('sdel', x, y)), c, args[0])
        return NONE
    if name == 'copy':
        return I.new_ref(st, 'set', c)
    if name == 'clear':
        st.store[K] = leaf(T('set'))
        return NONE
    if name in ('intersection', 'difference', 'isdisjoint', 'issubset', 'issuperset'):
        ty = 'bool' if name.startswith('is') else 'set'
        q = I.freeze(seqs(I, args[0], st), st)

        def dj(x, y):
            return typed(T('call', name, x, y), ty)
        r = lift(lambda x, y: atomv(dj(x, y)) if ty == 'bool' else leaf(dj(x, y)), c, q)
        return r if ty == 'bool' else I.new_ref(st, 'set', r)
    return I.call_symbolic(T('attr', recv, name), args, kwargs, st, node)


# --------------------------------------------------------------- externals

TYPENAMES = {'str', 'bytes', 'int', 'float', 'list', 'dict', 'set', 'tuple', 'bool', 'object'}


def class_names(I, t):
    """names denoted by the second argument of isinstance"""
    if t.op == 'tuple' or t.op == 'list':
        r = []
        for a in t.args:
            r += class_names(I, a)
        return r
    if t.op in ('ext', 'class'):
        return [t.args[0]]
    return [None]


def const_leaf(v):
    return leaf(const(v))


def external(I, name, args, kwargs, st, node):
    f = EXT.get(name)
    if f is not None:
        I.current_ext = name
        r = f(I, args, kwargs, st, node)
        if r is not NotImplemented:
            return r
    if name.split('.')[-1][:1].isupper() and I.prog.is_exception(name):
        return leaf(T('exc', name, *[box(I.freeze(a, st)) for a in args]))
    names = KW_NAMES.get(name, ())
    if len(args) <= len(names) and not set(names[:len(args)]) & set(kwargs):
        args, kwargs = [], dict(kwargs, **dict(zip(names, args)))
    fa = [I.freeze(a, st) for a in args]
    kw = []
    for k in sorted(kwargs):
        kw += [const(('name', k)), I.freeze(kwargs[k], st)]
    if name in NONDET:
        fa = [leaf(T('fresh', I.new()))] + fa
    dv = KW_DEFAULTS.get(name, {})
    call = without_defaults([name] + fa, kw, dv) if any(cval(kw[i])[1] in dv for i in range(0, len(kw), 2)) \
        else canon.mkcall('call', [name] + fa + kw)
    if name not in PURE:
        shown = []
        for i in range(0, len(kw), 2):
            k = cval(kw[i])[1]
            if not (k in dv and kw[i + 1] is const_leaf(dv[k])):
                shown += kw[i:i + 2]
        I.record_events([name] + fa + shown, st, node)
    for c in I.ext_raises.get(name, ()):
        I.raise_sink(st, I.exc(c), node, I.raise_atom(c, call), via='implicit')
    if st.dead:
        return UNDEF
    return call


def without_defaults(head, kw, dv):
    """the call without the arguments that have their default values"""
    for i in range(0, len(kw), 2):
        k = cval(kw[i])[1]
        if k in dv and isinstance(kw[i + 1], V):
            d = const(dv[k])
            rest = kw[:i] + kw[i + 2:]
            w = where(kw[i + 1], d)
            if w is FALSE:
                continue
            less = without_defaults(head, rest, dv)
            if w is TRUE:
                return less
            return ite(w, less, without_defaults(head, kw[:i] + kw[i + 2:] + [kw[i], dd_restrict(kw[i + 1], NOT(w))],
                                                 {x: y for x, y in dv.items() if x != k}))
    pairs = sorted((cval(kw[i])[1], kw[i], kw[i + 1]) for i in range(0, len(kw), 2))
    return canon.mkcall('call', head + [x for p in pairs for x in p[1:]])


_JSON_DEFAULTS = {'skipkeys': False, 'ensure_ascii': True, 'check_circular': True, 'allow_nan': True, 'sort_keys': False,
                  'indent': None, 'separators': None, 'default': None, 'cls': None}
# keyword arguments of library calls that change nothing when they have these values
KW_NAMES = {'datetime.timedelta': ('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks')}
KW_DEFAULTS = {'datetime.timedelta': dict.fromkeys(KW_NAMES['datetime.timedelta'], 0), 'json.JSONEncoder': _JSON_DEFAULTS, 'json.dumps': _JSON_DEFAULTS, 'json.dump': _JSON_DEFAULTS}
PURE = set()
NONDET = set(['uuid.uuid4', 'os.urandom', 'random.random'])
EXT = {}


def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


@ext('len')
def _(I, a, k, st, node):
    def f(t):
        if t.op == 'obj' or (btyp(t) or '').startswith('obj:'):
            ci = I.prog.classes.get(t.args[1] if t.op == 'obj' else btyp(t)[4:])
            m = ci and I.prog.find_method(ci, '__len__')
            if m:
                return I.call_function(m, [leaf(t)], {}, st, node)
        return mklen(t)
    return lift(f, seqs(I, a[0], st))


@ext('isinstance')
def _(I, a, k, st, node):
    names = []
    for t in leaves(a[1]):
        names += class_names(I, t)

    def f(t):
        if t.op == 'ref':
            t2 = t.args[1]
            return TRUE if t2 in names or 'object' in names else FALSE
        if t.op in ('obj', 'exc', 'struct'):
            c = t.args[1] if t.op == 'obj' else t.args[0]
            return TRUE if any(n and I.prog.issub(c, n) for n in names) else FALSE
        if t.op in ('class', 'func', 'closure', 'bound', 'gen', 'module', 'ext'):
            return FALSE
        return OR(*[isinst(t, n) if n else atomv(T('isinst', t, '?')) for n in names])
    return lift(f, a[0])


@ext('issubclass')
def _(I, a, k, st, node):
    def f(x, y):
        if x.op == 'class' and y.op in ('class', 'ext'):
            return TRUE if I.prog.issub(x.args[0], y.args[0]) else FALSE
        return atomv(typed(T('call', 'issubclass', x, y), 'bool'))
    return lift(f, a[0], a[1])


@ext('int')
def _(I, a, k, st, node):
    if not a:
        return leaf(const(0))
    base = a[1] if len(a) > 1 else k.get('base')

    def isstr(t):
        return btyp(t) in ('str', 'bytes') or (base is not None and btyp(t) is None)
    v = I.freeze(a[0], st)
    I.need(st, v, ('str', 'int', 'float', 'bool') if base is None else ('str',), 'TypeError', node)
    if st.dead:
        return UNDEF

    def bad(t):
        if isconst(t):
            try:
                int(cval(t)) if base is None else int(cval(t), cval(base.hi))
                return FALSE
            except (ValueError, TypeError):
                return TRUE
        if t.op in ('item', 'call', 'attr', 'var', 'elem') and typ(t) is None:
            return NOT(atomv(T('ok', 'int' if base is None else 'int%s' % intbase(base), t)))
        if isstr(t):
            if base is None or intbase(base) == '10':
                return NOT(atomv(T('ok', 'int10', t)))
            return NOT(atomv(T('ok', 'int' + intbase(base), t)))
        return FALSE
    I.implicit(st, 'ValueError', node, lift(bad, v))
    if st.dead:
        return UNDEF
    if base is not None and intbase(base) != '10':
        def f(t):
            if isconst(t):
                return leaf(const(int(cval(t), cval(base.hi))))
            return leaf(T('intbase', t, const(intbase(base))))
        return lift(f, v)
    return lift(canon.mkint, v)


def intbase(b):
    return str(cval(b.hi)) if b.leaf and isconst(b.hi) else '?'


@ext('float')
def _(I, a, k, st, node):
    v = I.freeze(a[0], st)
    I.need(st, v, ('str', 'int', 'float', 'bool'), 'TypeError', node)
    if st.dead:
        return UNDEF

    def bad(t):
        if btyp(t) == 'str' and not isconst(t):
            return NOT(atomv(T('ok', 'float', t)))
        return FALSE
    I.implicit(st, 'ValueError', node, lift(bad, v))
    if st.dead:
        return UNDEF

    def f(t):
        if isconst(t):
            try:
                return leaf(const(float(cval(t))))
            except (ValueError, TypeError):
                pass
        if btyp(t) == 'float':
            return leaf(t)
        if btyp(t) == 'int':
            return leaf(t)          # exact for the magnitudes used
        return leaf(T('float', t))
    return lift(f, v)


@ext('math.isinf')
def _(I, a, k, st, node):
    v = I.freeze(a[0], st)
    I.need(st, v, ('int', 'float', 'bool'), 'TypeError', node)
    if st.dead:
        return UNDEF
    return OR(lift(lambda t: canon.eq(t, const(float('inf'))), v), lift(lambda t: canon.eq(t, const(float('-inf'))), v))


@ext('round')
def _(I, a, k, st, node):
    if len(a) > 1:
        return lift(lambda x, y: leaf(T('call', 'round2', x, y)), a[0], a[1])
    return lift(lambda t: leaf(t) if btyp(t) == 'int' else leaf(T('round', t)), a[0])


@ext('math.ceil')
def _(I, a, k, st, node):
    def f(t):
        if t.op == 'truediv':
            a = [x.args[0] if x.op == 'float' else x for x in t.args]
            if all(btyp(x) == 'int' for x in a):
                return leaf(T('ceildiv', *a))
        return leaf(T('ceil', t))
    return lift(f, a[0])


def recode(I, name, ty, a, k, st, node):
    """str(b, encoding) is b.decode(encoding), bytes(s, encoding) is s.encode(encoding)"""
    if not a or not all(btyp(t) == ty for t in leaves(a[0])):
        return NotImplemented
    return I.on_each(a[0], st, lambda t, s: str_method(I, t, name, list(a[1:]), k, s, node)) or UNDEF


@ext('str', 'six.text_type')
def _(I, a, k, st, node):
    if not a:
        return leaf(const(''))
    if len(a) > 1 or k:
        return recode(I, 'decode', 'bytes', a, k, st, node)
    v = I.freeze(a[0], st)

    def f(t):
        if t.op == 'exc':
            m = I.exc_attr(t, 'message', st, node)
            return leaf(typed(T('str', box(m)), 'str'))
        return I.tostr(leaf(t))
    return lift(f, v)


@ext('bool')
def _(I, a, k, st, node):
    return I.truth(a[0], st) if a else FALSE


@ext('bytes')
def _(I, a, k, st, node):
    if len(a) > 1 or k:
        return recode(I, 'encode', 'str', a, k, st, node)
    return lift(lambda t: leaf(t) if btyp(t) == 'bytes' else leaf(typed(T('call', 'bytes', t), 'bytes')), I.freeze(a[0], st)) \
        if len(a) == 1 else NotImplemented


@ext('list')
def _(I, a, k, st, node):
    if not a:
        return I.new_ref(st, 'list', T('list'))
    q = seqs(I, a[0], st)

    def f(t):
        if t.op == 'tuple':
            return leaf(T('list', *t.args))
        if t.op == 'dict':
            return leaf(T('list', *t.args[::2]))
        if t.op == 'zip' and all(x.op in ('list', 'tuple') for x in t.args):
            n = min(len(x.args) for x in t.args)
            return leaf(T('list', *[T('tuple', *[x.args[i] for x in t.args]) for i in range(n)]))
        if btyp(t) == 'list':
            return leaf(t)
        if t.op == 'range' and all(isconst(x) for x in t.args):
            return leaf(T('list', *[const(i) for i in range(*[cval(x) for x in t.args])]))
        return leaf(T('tolist', t))
    return I.new_ref(st, 'list', lift(f, q))


@ext('tuple')
def _(I, a, k, st, node):
    if not a:
        return leaf(T('tuple'))
    q = I.freeze(seqs(I, a[0], st), st)
    return lift(lambda t: leaf(T('tuple', *t.args)) if t.op == 'list' else leaf(t) if t.op == 'tuple' else
                leaf(T('tolist', t)), q)


@ext('set', 'frozenset')
def _(I, a, k, st, node):
    if not a:
        return I.new_ref(st, 'set', T('set'))
    q = I.freeze(seqs(I, a[0], st), st)

    def f(t):
        if t.op in ('list', 'tuple'):
            r = T('set')
            for x in t.args:
                r = canon.sadd(r, x)
            return leaf(r)
        if btyp(t) == 'set':
            return leaf(t)
        return leaf(canon.mkset(t))
    return I.new_ref(st, 'set', lift(f, q))


@ext('dict', 'collections.OrderedDict')
def _(I, a, k, st, node):
    base = leaf(T('dict'))
    if a:
        q = seqs(I, a[0], st)

        def f(t):
            if btyp(t) == 'dict':
                return leaf(t)
            if t.op in ('list', 'tuple') and all(x.op == 'tuple' and len(x.args) == 2 for x in t.args):
                r = leaf(T('dict'))
                for x in t.args:
                    r = lift(lambda y: I.set_item_content(y, x.args[0], unbox(x.args[1])), r)
                return r
            return leaf(T('dupd', T('dict'), canon.mktodict(t)))
        base = lift(f, q)
    for n, v in k.items():
        base = lift(lambda x: I.set_item_content(x, const(n), v), base)
    return I.new_ref(st, 'dict', base)


@ext('flask.jsonify')
def _(I, a, k, st, node):
    base = a[0] if a else leaf(T('dict'))
    for n, v in k.items():
        base = lift(lambda x: I.set_item_content(x, const(n), v), base)
    return lift(lambda x: leaf(T('call', 'flask.jsonify', x)), seqs(I, base, st))


@ext('range', 'xrange')
def _(I, a, k, st, node):
    def f(*ts):
        if len(ts) == 1:
            lo, hi, sp = const(0), ts[0], const(1)
        elif len(ts) == 2:
            lo, hi, sp = ts[0], ts[1], const(1)
        else:
            lo, hi, sp = ts
        if isconst(lo) and isconst(hi) and isconst(sp):
            return leaf(T('range', lo, hi, sp))
        if isconst(lo) and cval(lo) == 0 and isconst(sp) and cval(sp) == 1 and hi.op == 'len':
            return leaf(T('idxrange', hi.args[0]))
        return leaf(T('range', lo, hi, sp))
    return lift(f, *a)


@ext('enumerate')
def _(I, a, k, st, node):
    s = a[1] if len(a) > 1 else k.get('start', leaf(const(0)))
    q = seqs(I, a[0], st)
    return lift(lambda x, y: leaf(T('enumerate', x, y)), q, s)


@ext('zip')
def _(I, a, k, st, node):
    qs = []
    for x in a:
        if x.leaf and x.hi.op == 'star':
            return leaf(typed(T('call', 'zip*', x.hi.args[0]), 'list'))
        qs.append(I.freeze(seqs(I, x, st), st) if False else seqs(I, x, st))
    if st.dead:
        return UNDEF

    def f(*ts):
        # zip(S, map(S, g)) and friends keep a common element
        return leaf(canon.mkzip(*ts))
    return lift(f, *qs)


@ext('map')
def _(I, a, k, st, node):
    if len(a) != 2:
        return NotImplemented
    r = I.new_ref(st, 'list', T('list'))
    fv = a[0]
    box_ = {}

    def bind(v, s2):
        box_['v'] = v

    def body(s2):
        x = I.call_v(fv, [box_['v']], {}, s2, node)
        I.append_to(r.hi, x, s2)
    I.for_over(a[1], bind, node, body, None, st)
    if st.dead:
        return UNDEF
    return leaf(T('iter', box(I.deref(r, st))))


@ext('filter')
def _(I, a, k, st, node):
    r = I.new_ref(st, 'list', T('list'))
    box_ = {}

    def body(s2):
        v = box_['v']
        c = I.truth(v, s2) if a[0] is NONE else I.truth(I.call_v(a[0], [v], {}, s2, node), s2)
        s3, s4 = s2.fork(c), s2.fork(NOT(c))
        if not s3.dead:
            I.append_to(r.hi, v, s3)
        from .interp import merge
        s2.become(merge([s3, s4]))
    I.for_over(a[1], lambda v, s2: box_.__setitem__('v', v), node, body, None, st)
    if st.dead:
        return UNDEF
    return leaf(T('iter', box(I.deref(r, st))))


def quant(I, a, st, node, is_any):
    q = I.freeze(seqs(I, a[0], st), st)

    def f(t):
        if t.op in ('list', 'tuple', 'set'):
            cs = [lift(truthy, unbox(x)) for x in t.args]
            return OR(*cs) if is_any else AND(*cs)
        if t.op == 'map':
            c = lift(truthy, unbox(t.args[1]))
            if is_any:
                return some(t.args[0], c)
            return NOT(some(t.args[0], NOT(c)))
        if t.op == 'fmap':
            c = lift(truthy, unbox(t.args[2]))
            p = unbox(t.args[1])
            if is_any:
                return some(t.args[0], AND(p, c))
            return NOT(some(t.args[0], AND(p, NOT(c))))
        if t.op == 'cat':
            parts = [f(x) for x in t.args]
            return OR(*parts) if is_any else AND(*parts)
        e = canon.elem(t)
        c = lift(truthy, e)
        return some(t, c) if is_any else NOT(some(t, NOT(c)))
    return lift(f, q)


def some(seq, c):
    if c is FALSE:
        return FALSE
    if c is TRUE:
        return canon.nonempty(seq)
    return atomv(T('some', seq, box(c)))


@ext('any')
def _(I, a, k, st, node):
    return quant(I, a, st, node, True)


@ext('all')
def _(I, a, k, st, node):
    return quant(I, a, st, node, False)


@ext('sum')
def _(I, a, k, st, node):
    q = I.freeze(seqs(I, a[0], st), st)

    def f(t):
        return canon.mksum(t)
    r = lift(f, q)
    if len(a) > 1:
        r = lift(canon.add, a[1], r)
    return r


@ext('sorted')
def _(I, a, k, st, node):
    q = seqs(I, a[0], st)
    kk = [x for n in sorted(k) for x in (const(('name', n)), box(k[n]))]
    return I.new_ref(st, 'list', lift(lambda t: leaf(T('sorted', t, *kk)), q))


@ext('reversed')
def _(I, a, k, st, node):
    return lift(lambda t: leaf(T('rev', t)), seqs(I, a[0], st))


def larger(kind):
    def f(I, a, k, st, node):
        # the larger or smaller of two or three numbers is a case distinction
        if k or not 2 <= len(a) <= 3 or not all(canon.btyp(t) in ('int', 'float', 'bool') for v in a for t in leaves(v)):
            return NotImplemented
        r = a[0]
        for b in a[1:]:
            c = I.compare(ast.Gt() if kind == 'max' else ast.Lt(), b, r, st, node)
            r = ite(c, b, r)
        return r
    return f


for _k in ('max', 'min'):
    ext(_k)(larger(_k))


@ext('iter')
def _(I, a, k, st, node):
    if len(a) != 1:
        return NotImplemented
    return lift(lambda t: leaf(t) if t.op in ('gen', 'iter') else leaf(T('iter', box(seqs(I, leaf(t), st)))), a[0])


@ext('next')
def _(I, a, k, st, node):
    q = seqs(I, a[0], st) if not any(t.op == 'gen' for t in leaves(a[0])) else a[0]
    if any(t.op == 'gen' for t in leaves(q)):
        return I.top('next(generator)', st)
    fst = lift(lambda t: item(t, const(0)), q)
    ne = lift(canon.nonempty, q)
    if len(a) == 1:
        I.implicit(st, 'StopIteration', node, NOT(ne))
        if st.dead:
            return UNDEF
    rest = lift(lambda t: canon.mkslice(t, const(1), const(None)), q)
    if len(a) > 1:
        rest = ite(ne, rest, q)
    # the iterator has moved on, wherever it is kept
    x = node.args[0] if isinstance(node, ast.Call) and node.args else None
    if isinstance(x, (ast.Attribute, ast.Name)) and a[0].leaf and not isconst(a[0].hi):
        old = a[0]
        for kk in [kk for kk, vv in st.store.items() if kk[0] in ('A', 'L') and vv is old]:
            st.store[kk] = rest
        if isinstance(x, ast.Attribute):
            I.assign(x, rest, st)
        elif old.hi.op == 'attr' and isinstance(old.hi.args[1], str):
            kk = ('A', old.hi.args[0], old.hi.args[1])
            if kk not in st.store:
                st.store[kk] = rest
    if len(a) > 1:
        return ite(ne, fst, a[1])
    return fst


@ext('getattr')
def _(I, a, k, st, node):
    if a[1].leaf and isconst(a[1].hi) and len(a) == 2:
        return I.getattr_v(a[0], cval(a[1].hi), st, node)
    return NotImplemented


@ext('setattr')
def _(I, a, k, st, node):
    if a[1].leaf and isconst(a[1].hi):
        I.setattr_v(a[0], cval(a[1].hi), a[2], st)
        return NONE
    return NotImplemented


STREAMS = {'sys.stdout': 'stdout', 'sys.stderr': 'stderr'}


def emit(I, to, text, st, node):
    """text written to a file or to one of the standard streams"""
    for f in leaves(to):
        w = where(to, f)
        if f.op == 'ext' and f.args[0] in STREAMS:
            for c, t in canon.callcases('call', [STREAMS[f.args[0]], text], None):
                I.record_event(t, st, node, AND(w, c))
        else:
            for c, t in canon.callcases('call', ['.write', f, text], None):
                I.record_event(t, st, node, AND(w, c))


@ext('print')
def _(I, a, k, st, node):
    sep, end = k.get('sep', NONE), k.get('end', NONE)
    sep = leaf(const(' ')) if sep is NONE else I.freeze(sep, st)
    end = leaf(const('\n')) if end is NONE else I.freeze(end, st)
    to = k.get('file', NONE)
    text = []
    for i, x in enumerate(a):
        text += ([sep] if i else []) + [EXT['str'](I, [x], {}, st, node)]
    if st.dead:
        return UNDEF
    text = lift(scat, *text + [end])
    emit(I, leaf(T('ext', 'sys.stdout')) if to is NONE else I.freeze(to, st), text, st, node)
    return NONE


@ext('sys.stdout.write', 'sys.stderr.write')
def _(I, a, k, st, node):
    if len(a) != 1 or k:
        return NotImplemented
    text = EXT['str'](I, [I.freeze(a[0], st)], {}, st, node)
    if st.dead:
        return UNDEF
    emit(I, leaf(T('ext', I.current_ext[:-6])), text, st, node)
    return canon.mkcall('call', ['.write', leaf(T('ext', I.current_ext[:-6])), text], 'int')


@ext('sys.stdout.flush', 'sys.stderr.flush')
def _(I, a, k, st, node):
    return NONE


@ext('json.dump')
def _(I, a, k, st, node):
    if len(a) != 2:
        return NotImplemented
    text = external(I, 'json.dumps', [a[0]], k, st, node)
    if st.dead:
        return UNDEF
    emit(I, I.freeze(a[1], st), text, st, node)
    return NONE


@ext('sys.exit', 'exit', 'os._exit')
def _(I, a, k, st, node):
    I.raise_sink(st, I.exc('SystemExit', *[x for x in a]), node, TRUE)
    return UNDEF


@ext('flask.abort')
def _(I, a, k, st, node):
    code = a[0].hi if a and a[0].leaf and isconst(a[0].hi) else None
    I.raise_sink(st, I.exc('flask.abort' if code is None else 'flask.abort.%s' % (cval(code),), *a), node, TRUE)
    return UNDEF


@ext('super')
def _(I, a, k, st, node):
    return I.top('super value')


@ext('type')
def _(I, a, k, st, node):
    if len(a) == 1:
        return lift(lambda t: leaf(T('class', t.args[1])) if t.op == 'obj' else leaf(T('attr', t, '__class__')), a[0])
    return NotImplemented


@ext('callable')
def _(I, a, k, st, node):
    return NotImplemented


@ext('hasattr')
def _(I, a, k, st, node):
    if len(a) == 2 and a[0].leaf and a[1].leaf and isconst(a[1].hi):
        bt = canon.base_type(canon.typ(a[0].hi)) if canon.typ(a[0].hi) else None
        ci = I.prog.classes.get(bt[4:]) if isinstance(bt, str) and bt.startswith('obj:') else None
        if ci is not None and not str(canon.typ(a[0].hi)).startswith('?') and not I.prog.may_have(ci, cval(a[1].hi)):
            return leaf(const(False))
    return NotImplemented


@ext('id')
def _(I, a, k, st, node):
    return leaf(typed(T('call', 'id', *[box(x) for x in a]), 'int'))


@ext('ord', 'chr')
def _(I, a, k, st, node):
    return NotImplemented


# ---- int / bytes
@ext('int.from_bytes')
def _(I, a, k, st, node):
    vals = dict(zip(['bytes', 'byteorder', 'signed'], a))
    vals.update(k)
    return lift(lambda d, b, s: leaf(T('frombytes', d, b, s)), vals['bytes'], vals.get('byteorder', leaf(const('big'))),
                vals.get('signed', FALSE))


# ---- base64
def b64(op, f, inv=None):
    def g(I, a, k, st, node):
        return lift(f, I.freeze(a[0], st))
    return g


EXT['base64.b64encode'] = b64('b64e', canon.b64e)
EXT['base64.standard_b64encode'] = EXT['base64.b64encode']
EXT['base64.urlsafe_b64encode'] = b64('u64e', canon.u64e)
EXT['base64.b32encode'] = b64('b32e', canon.b32e)


def b64dec(kind, f):
    def g(I, a, k, st, node):
        v = I.freeze(a[0], st)
        I.need(st, v, ('str',), 'TypeError', node)
        if st.dead:
            return UNDEF

        def bad(t):
            if t.op in ('dec', 'enc'):
                t = t.args[0]
            if t.op in ('b64e', 'u64e', 'b32e'):
                return FALSE
            if isconst(t):
                return FALSE
            return NOT(atomv(T('ok', kind, t)))
        I.implicit(st, 'binascii.Error', node, lift(bad, v))
        if st.dead:
            return UNDEF

        def h(t):
            if t.op == 'enc' and t.args[0].op == 'dec':
                t = t.args[0].args[0]
            if t.op == 'dec':
                t = t.args[0]
            return f(t)
        if len(a) > 1 or k:
            return NotImplemented
        return lift(h, v)
    return g


EXT['base64.b64decode'] = b64dec('b64', canon.b64d)
EXT['base64.standard_b64decode'] = EXT['base64.b64decode']
EXT['base64.urlsafe_b64decode'] = b64dec('u64', canon.u64d)
EXT['base64.b32decode'] = b64dec('b32', canon.b32d)


@ext('re.compile')
def _(I, a, k, st, node):
    if len(a) == 1 and not k:
        return lift(lambda t: leaf(typed(T('regex', t), 'obj:regex')), a[0])
    return lift(lambda t: leaf(typed(T('regex', t, *[box(x) for x in a[1:]]), 'obj:regex')), a[0])


@ext('re.match', 're.fullmatch', 're.search')
def _(I, a, k, st, node):
    nm = 'match'
    fn = node.func
    nm = getattr(fn, 'attr', getattr(fn, 'id', 'match'))

    def f(p, s):
        return regex_method(I, typed(T('regex', p), 'obj:regex'), nm, [leaf(s)], {}, st, node)
    return lift(f, a[0], a[1])


@ext('datetime.datetime.strptime')
def _(I, a, k, st, node):
    def bad(s, f):
        return NOT(atomv(T('ok', 'strptime', s, f)))
    I.implicit(st, 'ValueError', node, lift(bad, a[0], a[1]))
    if st.dead:
        return UNDEF
    return lift(lambda s, f: leaf(T('strptime', s, f)), a[0], a[1])


@ext('copy.copy')
def _(I, a, k, st, node):
    for t in leaves(a[0]):
        I.copies.append((t, node, st.cond, I.whereami()))
    return copy_v(I, a[0], st, False)


@ext('copy.deepcopy')
def _(I, a, k, st, node):
    return copy_v(I, a[0], st, True)


def copy_v(I, v, st, deep, depth=0):
    def f(t, s2):
        if t.op == 'ref':
            c = I.content(t, s2)
            if deep and depth < 4:
                c = lift(lambda x: leaf(x) if x.op not in ('list', 'tuple', 'dict') else
                         leaf(T(x.op, *[box(copy_v(I, unbox(y), s2, True, depth + 1)) for y in x.args])), c)
            return I.new_ref(s2, t.args[1], c)
        bt = btyp(t)
        if t.op == 'obj' or (bt and bt.startswith('obj:') and bt[4:] in I.prog.classes):
            cn = t.args[1] if t.op == 'obj' else bt[4:]
            o = T('obj', I.new(), cn)
            attrs = {}
            if t.op != 'obj':
                for c, n in [k for k in canon.ATTR_TYPES if len(k) == 2]:
                    if c == cn:
                        attrs[n] = leaf(T('attr', t, n))
            for kk, x in list(s2.store.items()):
                if kk[0] == 'A' and kk[1] is t:
                    attrs[kk[2]] = x
            for n, x in attrs.items():
                if deep and depth < 4:
                    x = copy_v(I, x, s2, True, depth + 1)
                s2.store[('A', o, n)] = x
            r = leaf(o)
            ty = typ(t)
            if ty and ty.startswith('?'):
                r = ite(eq(t, const(None)), NONE, r)
            return r
        if bt in ('list', 'dict', 'set') and t.op not in ('const',):
            c = I.content(t, s2)
            r = I.new_ref(s2, bt, c)
            return r
        return leaf(t)
    r = I.on_each(v, st, f)
    return r if r is not None else UNDEF


@ext('itertools.chain')
def _(I, a, k, st, node):
    r = leaf(T('list'))
    for x in a:
        q = lift(lambda t: leaf(T('list', *t.args) if t.op == 'tuple' else t),
                 seqs(I, x, st))
        r = lift(lambda p, q: leaf(lcat(p, q)), r, q)
    return r


@ext('itertools.groupby')
def _(I, a, k, st, node):
    key = a[1] if len(a) > 1 else k.get('key', NONE)
    q = seqs(I, a[0], st)
    kf = NONE
    if key is not NONE and key.leaf:
        # key function applied to the generic element
        def f(t):
            return I.call_v(key, [canon.elem(t)], {}, st, node)
        kf = lift(f, q)
    return lift(lambda t: leaf(typed(T('groupby', t, box(kf)), 'list')), q)


@ext('gettext.install')
def _(I, a, k, st, node):
    return NONE


# ---- cryptography: incremental objects become values
@ext('cryptography.hazmat.backends.default_backend')
def _(I, a, k, st, node):
    return leaf(T('call', 'default_backend'))


@ext('cryptography.hazmat.primitives.hashes.Hash')
def _(I, a, k, st, node):
    alg = a[0] if a else k.get('algorithm')
    return I.new_ref(st, 'hash', lift(lambda t: leaf(T('hashing', t, const(b''))), I.freeze(alg, st)))


def hash_method(I, recv, name, args, st, node):
    c = I.content(recv, st)
    if name == 'update' and len(args) == 1:
        st.store[('I', recv)] = lift(lambda h, d: lift(lambda s: leaf(T('hashing', h.args[0], s)),
                                                       canon.add(h.args[1], d)), c, args[0])
        return NONE
    if name in ('finalize', 'digest') and not args:
        return lift(lambda h: leaf(typed(T('digest', h.args[0], h.args[1]), 'bytes')), c)
    if name == 'hexdigest':
        return lift(lambda h: leaf(typed(T('strm', 'hex', typed(T('digest', h.args[0], h.args[1]), 'bytes')), 'str')), c)
    return I.top('hash method ' + name, st)


@ext('hashlib.sha256')
def _(I, a, k, st, node):
    d = a[0] if a else leaf(const(b''))
    alg = T('call', 'cryptography.hazmat.primitives.hashes.SHA256')
    return I.new_ref(st, 'hash', lift(lambda t: leaf(T('hashing', alg, t)), d))


@ext('cryptography.hazmat.primitives.ciphers.Cipher')
def _(I, a, k, st, node):
    names = ['algorithm', 'mode']
    v = dict(zip(names, a))
    v.update(k)
    if set(('algorithm', 'mode')) - set(v):
        return NotImplemented
    return lift(lambda x, y: leaf(typed(T('cipher', x, y), 'obj:cipher')), I.freeze(v['algorithm'], st), I.freeze(v['mode'], st))


def cipher_method(I, recv, name, args, st, node):
    ctr = recv.args[1].op == 'call' and recv.args[1].args[0].endswith('modes.CTR')
    if name in ('encryptor', 'decryptor') and not args:
        # CTR: both directions are the same keystream
        return leaf(typed(T('crypt', recv, const('both' if ctr else name)), 'obj:crypt'))
    return None


def crypt_method(I, recv, name, args, st, node):
    ctr = recv.args[0].args[1].op == 'call' and recv.args[0].args[1].args[0].endswith('modes.CTR')
    if name == 'finalize' and not args and ctr:
        return leaf(const(b''))
    if name == 'update' and len(args) == 1:
        return lift(lambda d: leaf(typed(T('strm', 'crypt', recv, d), 'bytes')), args[0])
    return None


SYM = {'cipher': cipher_method, 'crypt': crypt_method}
