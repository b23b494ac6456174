"""Gated value-numbering interpreter: evaluates function bodies over the
decision-diagram domain of dd.py.  Control-flow joins merge stores with `ite`;
loops are summarised once by their carried variables (init / step / exits);
repository functions are inlined; library calls are uninterpreted terms with
algebraic laws (canon.py).  Nothing of the repository is executed."""
import ast
import codecs
import base64
import binascii

from . import canon, config
from .canon import (typ, btyp, base_type, isconst, cval, eq, ge, gt, truthy, mklen, isinst, scat, enc, dec, replace,
                    join, split, mkslice, item, elem, lcat, contains, sat, prune, Subst, subterms, vterms)
from .dd import (T, V, Term, const, leaf, TRUE, FALSE, NONE, UNDEF, ite, NOT, AND, OR, atomv, lift, box,
                 unbox, leaves, cases, restrict, where, size)
from .program import ClassInfo, FuncInfo, ModuleInfo, AnalysisBroken


class St(object):
    __slots__ = ('cond', 'store')

    def __init__(self, cond=TRUE, store=None):
        self.cond = cond
        self.store = {} if store is None else store

    def fork(self, c=TRUE):
        s = St(prune(AND(self.cond, c)), dict(self.store))
        return s

    @property
    def dead(self):
        return self.cond is FALSE

    def kill(self):
        self.cond = FALSE

    def become(self, o):
        self.cond = o.cond
        self.store = o.store


def merge(states):
    states = [s for s in states if not s.dead]
    if not states:
        return St(FALSE)
    r = states[0]
    if len(states) == 1:
        return St(r.cond, dict(r.store))
    out = St(r.cond, dict(r.store))
    for s in states[1:]:
        tot = OR(out.cond, s.cond)
        sel = None
        st = out.store
        for k, v in s.store.items():
            o = st.get(k)
            if o is v:
                continue
            if sel is None:
                sel = restrict(out.cond, tot)
            if o is None:
                o = default_of(k)
            st[k] = ite(sel, o, v)
        for k in list(st):
            if k not in s.store:
                d = default_of(k)
                if st[k] is not d:
                    if sel is None:
                        sel = restrict(out.cond, tot)
                    st[k] = ite(sel, st[k], d)
        out.cond = tot
    return out


def default_of(k):
    if k[0] == 'L':
        return UNDEF
    if k[0] == 'A':
        if k[1].op == 'obj':
            return UNDEF
        return leaf(T('attr', k[1], k[2]))
    if k[0] == 'I':
        return leaf(k[1])
    return UNDEF


class Sink(object):
    """an abrupt completion"""
    __slots__ = ('st', 'val', 'node', 'loop', 'kind', 'via', 'where')

    def __init__(self, st, val, node, loop, kind, via=None, where=None):
        self.st, self.val, self.node, self.loop, self.kind, self.via = st, val, node, loop, kind, via
        self.where = where

    @property
    def cond(self):
        return self.st.cond


class Loop(object):
    def __init__(self, id, seq, parent, node, fn):
        self.id, self.seq, self.parent, self.node, self.fn = id, seq, parent, node, fn
        self.vars = {}        # index -> (key, init V, step V, type)
        self.exits = []       # Sink
        self.cont = FALSE     # condition of normal continuation
        self.pre = None       # St before the loop
        self.end = None       # St at end of generic iteration
        self.test = None
        self.start = None
        self.closed = {}      # key -> closed form
        self.core = {}        # key -> (kind, the part of the closed form contributed by the loop)


class Clause(object):
    def __init__(self, loop, cond, classes, node, kind, extra=None, st=None):
        self.loop, self.cond, self.classes, self.node, self.kind, self.extra = loop, cond, classes, node, kind, extra
        self.st = st


class Frame(object):
    def __init__(self, fid, fn, module, cls):
        self.fid, self.fn, self.module, self.cls = fid, fn, module, cls
        self.returns = []
        self.locals = set()
        self.parents = ()
        self.on_yield = None
        self.self_term = None
        self.idx = None


class Fused(tuple):
    body = None


class LoopCtl(object):
    def __init__(self):
        self.breaks, self.conts = [], []


class Unsupported(Exception):
    pass


STR_METHODS_CONST = set(dir(str)) | set(dir(bytes))
STRM_KNOWN = set(['strip', 'lstrip', 'rstrip', 'upper', 'lower', 'title', 'zfill', 'ljust', 'rjust', 'hex', 'casefold'])

EXTNORM = {
    'builtins.': '',
    'six.string_types': 'str', 'six.binary_type': 'bytes', 'six.text_type': 'str', 'six.integer_types': 'int',
}


class Interp(object):
    def __init__(self, prog, opaque=(), contracts=None, raises=None, max_inline=40, ext_raises=None, pure_ext=()):
        self.prog = prog
        self.opaque = set(opaque)
        self.contracts = dict(contracts or {})
        self.raises = dict(raises or {})         # opaque function -> exception classes
        self.ext_raises = dict(EXT_RAISES)
        self.ext_raises.update(ext_raises or {})
        self.uid = 0
        self.frames = []
        self.handlers = [[]]       # stack of sink lists
        self.loopctl = []
        self.loopstack = []
        self.loops = []
        self.clauses = []
        self.events = []
        self.escapes = []          # (object, its content, condition, node, loops) when it is yielded
        self.noattr = []           # (class, attribute, condition, node, frame): reads of attributes the class does not have
        self.copies = []           # (class, node, condition, frame) of shallow copies
        self.closures = {}
        self.gens = {}
        self.spec_mode = 0
        self.catching = []
        self.max_inline = max_inline
        self.inlined = set()
        self.notes = set()
        self.globcache = {}
        self.hooks = {}
        self.strict = False        # failures of operations on JSON values and unencodable text
        self.curstmt = None
        self.class_of = {}

    # ------------------------------------------------------------------ util
    def new(self):
        self.uid += 1
        return self.uid

    def top(self, why, st=None):
        self.notes.add(why)
        t = T('top', why, self.new())
        if st is not None and not st.dead:
            # what this construct checks is not known on the paths that follow
            st.cond = prune(AND(st.cond, atomv(t)))
        return leaf(t)

    def cur(self):
        return self.frames[-1]

    def raise_sink(self, st, exc, node, cond=TRUE, via=None):
        if st.dead:
            return
        c = prune(AND(st.cond, cond))
        if c is FALSE:
            return
        s = St(c, dict(st.store))
        if not (self.spec_mode and via == 'implicit') or self.caught_here(exc):
            self.handlers[-1].append(Sink(s, exc, node, self.loopstack[-1] if self.loopstack else None, 'raise', via,
                                          self.whereami()))
        st.cond = prune(AND(st.cond, NOT(cond))) if cond is not TRUE else FALSE
        if self.spec_mode and cond is TRUE:
            st.kill()

    def caught_here(self, val):
        return any(self.handler_match(h, val, None, m) is True for hs, m in self.catching for h in hs)

    def whereami(self):
        for f in reversed(self.frames):
            if f.fn is not None:
                return f
        return None

    def exc(self, cls, *args):
        return leaf(T('exc', cls, *[box(a) for a in args]))

    def need(self, st, v, classes, exc, node=None):
        """strict mode: an operation on a JSON value that only works for some types"""
        if not self.strict or self.spec_mode or st.dead:
            return

        def f(t):
            return NOT(OR(*[isinst(t, c) for c in classes])) if canon.isjson(t) else FALSE
        self.implicit(st, exc, node if node is not None else self.curstmt, lift(f, v))

    def implicit(self, st, cls, node, cond):
        """a modelled built-in failure"""
        if cond is FALSE or st.dead:
            return
        if self.spec_mode and cls not in self.kept and not self.caught_here(self.exc(cls)):
            return
        self.raise_sink(st, self.exc(cls), node, cond, via=None if self.spec_mode and cls in self.kept else 'implicit')

    kept = ()      # built-in exceptions that belong to the rule

    # ------------------------------------------------------------- callables
    def call_function(self, fn, args, kwargs, st, node=None, closure_frames=(), self_cls=None):
        """inline fn"""
        if st.dead:
            return UNDEF
        if len(self.frames) > self.max_inline:
            return self.top('inline depth %s' % getattr(fn, 'qual', '?'), st)
        if sum(1 for f in self.frames if f.fn is not None and f.fn is fn) > 2:
            return self.top('recursion %s' % fn.qual, st)
        self.inlined.add(getattr(fn, 'qual', 'lambda'))
        fr = Frame(self.new(), fn, fn.module, fn.cls)
        fr.parents = closure_frames
        if not self.bind_args(fr, fn, args, kwargs, st, node):
            return UNDEF
        if fn.is_gen and not fr.on_yield:
            gid = self.new()
            self.gens[gid] = (fn, fr)
            return leaf(T('gen', gid))
        return self.run_frame(fr, fn, st)

    def bind_args(self, fr, fn, args, kwargs, st, node):
        a = fn.node.args
        names = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        defaults = [None] * (len(names) - len(a.defaults)) + list(a.defaults)
        vals = {}
        kwargs = dict(kwargs)
        rest = None
        if args and args[-1].leaf and args[-1].hi.op == 'star':
            # f(*xs): xs fills the remaining positional parameters
            src = args[-1].hi.args[0]
            k = len(names) - (len(args) - 1)
            if a.vararg is None and k >= 0 and all(d is None for d in defaults[-k:] if k) \
                    and not any(n in kwargs for n in names):
                args = list(args[:-1]) + [self.unpack_item(src, i) for i in range(k)]
            elif a.vararg is not None and k == 0:
                args, rest = list(args[:-1]), leaf(src)
            else:
                self.top('star-args into %s' % fn.qual)
                st.kill()
                return False
        if rest is not None:
            vals[a.vararg.arg] = rest
        elif len(args) > len(names):
            if a.vararg is None:
                self.implicit(st, 'TypeError', node, TRUE)
                return False
            vals[a.vararg.arg] = leaf(T('tuple', *[box(x) for x in args[len(names):]]))
            args = args[:len(names)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = leaf(T('tuple'))
        for n, v in zip(names, args):
            vals[n] = v
        for i, n in enumerate(names):
            if n in vals:
                if n in kwargs:
                    self.implicit(st, 'TypeError', node, TRUE)
                    return False
                continue
            if n in kwargs:
                vals[n] = kwargs.pop(n)
            elif defaults[i] is not None:
                vals[n] = self.eval_default(fn, defaults[i], st)
            else:
                self.implicit(st, 'TypeError', node, TRUE)
                return False
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kwargs:
                vals[x.arg] = kwargs.pop(x.arg)
            elif d is not None:
                vals[x.arg] = self.eval_default(fn, d, st)
            else:
                self.implicit(st, 'TypeError', node, TRUE)
                return False
        if kwargs:
            if a.kwarg is None:
                self.implicit(st, 'TypeError', node, TRUE)
                return False
            d = []
            for k, v in kwargs.items():
                d += [const(k), box(v)]
            kwargs = {}
            vals[a.kwarg.arg] = self.new_ref(st, 'dict', T('dict', *d))
        elif a.kwarg is not None:
            vals[a.kwarg.arg] = self.new_ref(st, 'dict', T('dict'))
        for n, v in vals.items():
            st.store[('L', fr.fid, n)] = v
        if names and fn.cls is not None and not fn.static:
            fr.self_term = vals[names[0]]
        return True

    def eval_default(self, fn, node, st):
        fr = Frame(self.new(), None, fn.module, fn.cls)
        self.frames.append(fr)
        try:
            return self.eval(node, st)
        finally:
            self.frames.pop()

    def run_frame(self, fr, fn, st):
        self.frames.append(fr)
        lc, self.loopctl = self.loopctl, []
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.eval(fn.node.body, st)
                return v
            self.exec_block(fn.node.body, st)
            outs = list(fr.returns)
            if not st.dead:
                outs.append((St(st.cond, st.store), NONE))
            outs = [(s, v) for s, v in outs if not s.dead]
            if not outs:
                st.kill()
                return UNDEF
            K = ('R', fr.fid)
            for s, v in outs:
                s.store[K] = v
            m = merge([s for s, v in outs])
            rv = m.store.pop(K)
            if not fn.has_nested:
                fid = fr.fid
                for k in [k for k in m.store if k[0] == 'L' and k[1] == fid]:
                    del m.store[k]
            st.become(m)
            return rv
        finally:
            self.frames.pop()
            self.loopctl = lc

    # generator consumption: run body with a callback at each yield
    def run_gen(self, gid, st, on_yield):
        fn, fr = self.gens[gid]
        nfr = Frame(fr.fid, fn, fr.module, fr.cls)
        nfr.parents = fr.parents
        nfr.self_term = fr.self_term
        consumer = list(self.frames)
        outer_ctl = self.loopctl

        def cb(v, s):
            # the consumer's code runs in the consumer's frames
            saved, savedctl = self.frames, self.loopctl
            self.frames, self.loopctl = list(consumer), outer_ctl
            try:
                on_yield(v, s)
            finally:
                self.frames, self.loopctl = saved, savedctl
        nfr.on_yield = cb
        self.run_frame(nfr, fn, st)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        for s in stmts:
            if st.dead:
                return
            self.exec_stmt(s, st)

    def exec_stmt(self, s, st):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            self.top('unsupported statement %s' % type(s).__name__, st)
            return
        self.curstmt = s
        m(s, st)

    def x_Expr(self, s, st):
        self.eval(s.value, st)

    def x_Pass(self, s, st):
        pass

    def x_Import(self, s, st):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            mod = self.prog.modules.get(a.name)
            self.set_local(st, nm, leaf(T('module', mod.name)) if mod else leaf(T('ext', a.name if a.asname else nm)))

    def x_ImportFrom(self, s, st):
        fr = self.cur()
        base = s.module or ''
        if s.level:
            pk = fr.module.name.split('.')
            pk = pk[:len(pk) - s.level]
            base = '.'.join(pk + ([s.module] if s.module else []))
        for a in s.names:
            sub = self.prog.modules.get(base + '.' + a.name)
            if sub:
                v = leaf(T('module', sub.name))
            else:
                bm = self.prog.modules.get(base)
                v = self.from_static(self.prog.lookup(bm, a.name), st) if bm else self.ext(base + '.' + a.name)
            self.set_local(st, a.asname or a.name, v)

    def x_Global(self, s, st):
        pass

    x_Nonlocal = x_Global

    def x_FunctionDef(self, s, st):
        fr = self.cur()
        fi = FuncInfo(s, fr.module, None, '%s.<local>.%s' % (fr.fn.qual if fr.fn else '?', s.name))
        cid = self.new()
        self.closures[cid] = (fi, tuple([fr] + list(fr.parents)))
        self.set_local(st, s.name, leaf(T('closure', cid)))

    def x_ClassDef(self, s, st):
        self.set_local(st, s.name, self.top('local class'))

    def x_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else NONE
        if st.dead:
            return
        self.do_return(self.cur(), st, v, s)

    def do_return(self, fr, st, v, node):
        snap = St(st.cond, dict(st.store))
        if self.loopstack and self.loopstack[-1].depth >= self.frame_depth(fr):
            self.cur_exits.append(Sink(snap, v, node, self.loopstack[-1], 'return', fr, self.whereami()))
        else:
            fr.returns.append((snap, v))
        st.kill()

    def frame_depth(self, fr):
        if fr.idx is not None:
            return fr.idx
        for i in range(len(self.frames) - 1, -1, -1):
            if self.frames[i] is fr:
                return i
        return -1

    def x_Raise(self, s, st):
        if s.exc is None:
            v = st.store.get(('E',))
            if v is None:
                v = self.top('re-raise')
            self.raise_v(st, v, s)
            return
        v = self.eval(s.exc, st)
        if st.dead:
            return
        # raising a class: instantiate
        def inst(t):
            if t.op == 'class' or t.op == 'ext':
                return True
            return False
        if v.leaf and inst(v.hi):
            v = self.call_v(v, [], {}, st, s)
        self.raise_v(st, v, s)

    def raise_v(self, st, v, node):
        if st.dead:
            return
        cs = cases(v)
        if len(cs) == 1:
            self.raise_sink(st, v, node)
            return
        for c, t in cs:
            s2 = st.fork(c)
            self.raise_sink(s2, leaf(t), node)
        st.kill()

    def x_Break(self, s, st):
        self.loopctl[-1].breaks.append(St(st.cond, dict(st.store)))
        st.kill()

    def x_Continue(self, s, st):
        self.loopctl[-1].conts.append(St(st.cond, dict(st.store)))
        st.kill()

    def x_Assert(self, s, st):
        c = self.cond(s.test, st)
        self.raise_sink(st, self.exc('AssertionError'), s, NOT(c))

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                base = self.eval(t.value, st)
                if isinstance(t.slice, ast.Slice):
                    lo = self.eval(t.slice.lower, st) if t.slice.lower else NONE
                    hi = self.eval(t.slice.upper, st) if t.slice.upper else NONE
                    if t.slice.step:
                        self.notes.add('del slice')
                    self.on_each(base, st, lambda b, s2: self.set_slice(b, lo, hi, leaf(T('list')), s2))
                    continue
                k = self.eval(t.slice, st)
                self.on_each(base, st, lambda b, s2: self.del_item(b, k, s2, t))
            elif isinstance(t, ast.Name):
                st.store[self.local_key(t.id, st)] = UNDEF
            elif isinstance(t, ast.Attribute):
                base = self.eval(t.value, st)
                self.on_each(base, st, lambda b, s2: s2.store.__setitem__(('A', b, t.attr), UNDEF))

    def del_item(self, b, k, st, node):
        cont = self.content(b, st)

        def f(c, kk):
            if c.op in ('list',) and isconst(kk) and -len(c.args) <= cval(kk) < len(c.args):
                l = list(c.args)
                del l[cval(kk)]
                return leaf(T('list', *l))
            if isconst(kk) and cval(kk) == -1:
                if c.op == 'cat' and c.args[-1].op == 'list':
                    return leaf(lcat(*(c.args[:-1] + (T('list', *c.args[-1].args[:-1]),))))
                return mkslice(c, const(0), const(-1))
            if isconst(kk) and cval(kk) == 0:
                return mkslice(c, const(1), const(None))
            if btyp(c) == 'dict' or c.op in ('dict', 'dset'):
                if c.op == 'dict' and isconst(kk):
                    out = []
                    for i in range(0, len(c.args), 2):
                        if c.args[i] is not kk:
                            out += [c.args[i], c.args[i + 1]]
                    return leaf(T('dict', *out))
                return canon.ddel(c, kk)
            return leaf(T('delitem', c, kk))
        if any(btyp(c) == 'dict' for c in leaves(cont)):
            self.implicit(st, 'KeyError', node, NOT(lift(lambda c, kk: contains(kk, c), cont, k)))
        st.store[('I', b)] = lift(f, cont, k)

    def x_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)

    def x_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st)

    def x_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, st)
            cur = self.getattr_v(base, t.attr, st, t)
        else:
            base = self.eval(t.value, st)
            k = self.eval(t.slice, st)
            cur = self.getitem_v(base, k, st, t)
        rhs = self.eval(s.value, st)
        if st.dead:
            return
        # in-place list extension keeps identity
        if isinstance(s.op, (ast.Add, ast.BitOr)) and cur.leaf and cur.hi.op == 'ref':
            b = cur.hi
            c2 = self.freeze_seq(rhs, st)
            old = self.content(b, st)
            if b.args[1] == 'list':
                st.store[('I', b)] = lift(lambda x, y: leaf(lcat(x, y)), old, c2)
            else:
                st.store[('I', b)] = lift(lambda x, y: leaf(canon.union(x, y)), old, c2)
            return
        if isinstance(s.op, (ast.Add, ast.BitOr)) and cur.leaf and cur.hi.op in ('attr', 'var', 'elem', 'item') and \
                btyp(cur.hi) in ('list', 'set'):
            b = cur.hi
            c2 = self.freeze_seq(rhs, st)
            old = st.store.get(('I', b), leaf(b))
            if btyp(b) == 'list':
                st.store[('I', b)] = lift(lambda x, y: leaf(lcat(x, y)), old, c2)
            else:
                st.store[('I', b)] = lift(lambda x, y: leaf(canon.union(x, canon.mkset(y))), old, c2)
            return
        v = self.binop(s.op, cur, rhs, st, s)
        if isinstance(t, ast.Name):
            self.assign(t, v, st)
        elif isinstance(t, ast.Attribute):
            self.setattr_v(base, t.attr, v, st)
        else:
            self.setitem_v(base, k, v, st, t)

    def assign(self, t, v, st):
        if st.dead:
            return
        if isinstance(t, ast.Name):
            self.set_local(st, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vv = self.deref(v, st)
            n = len(t.elts)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                for i, e in enumerate(t.elts):
                    if isinstance(e, ast.Starred):
                        after = n - i - 1
                        self.assign(e.value, lift(lambda x: mkslice(x, const(i), const(-after) if after else const(None)), vv), st)
                    else:
                        idx = i if i < [isinstance(q, ast.Starred) for q in t.elts].index(True) else i - n
                        self.assign(e, lift(lambda x: item(x, const(idx)), vv), st)
                return
            # length mismatch
            def bad(x):
                if x.op in ('tuple', 'list'):
                    return FALSE if len(x.args) == n else TRUE
                if x.op == 'split' and len(x.args) == 2:
                    return NOT(eqlen(x, n))
                return FALSE
            self.implicit(st, 'ValueError', t, lift(bad, vv))
            if st.dead:
                return
            for i, e in enumerate(t.elts):
                self.assign(e, lift(lambda x: self.unpack_item(x, i), vv), st)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, st)
            self.setattr_v(base, t.attr, v, st)
        elif isinstance(t, ast.Subscript) and self.is_dict_attr(t.value):
            base = self.eval(t.value.value, st)
            k = self.eval(t.slice, st)
            if k.leaf and isconst(k.hi):
                self.setattr_v(base, cval(k.hi), v, st)
            else:
                self.top('__dict__ changed')
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st)
            if isinstance(t.slice, ast.Slice):
                lo = self.eval(t.slice.lower, st) if t.slice.lower else NONE
                hi = self.eval(t.slice.upper, st) if t.slice.upper else NONE
                vv = self.freeze_seq(v, st)

                self.on_each(base, st, lambda b, s2: self.set_slice(b, lo, hi, vv, s2))
                return
            k = self.eval(t.slice, st)
            self.setitem_v(base, k, v, st, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        else:
            raise Unsupported(type(t).__name__)

    def set_slice(self, b, lo, hi, v, st):
        if lo is NONE and hi is NONE:
            st.store[('I', b)] = v
            return
        st.store[('I', b)] = lift(lambda c, l, h, x: leaf(T('setslice', c, l, h, x)), self.content(b, st), lo, hi, v)

    def unpack_item(self, x, i):
        return lift(lambda t: item(t, const(i)), unbox(x))

    def set_local(self, st, name, v):
        fr = self.cur()
        if fr.fn is not None and (name in fr.fn.globals or fr.fn.node.name == '__main__' and name in fr.module.assigns):
            st.store[('A', T('module', fr.module.name), name)] = v
            return
        fr.locals.add(name)
        st.store[('L', fr.fid, name)] = v

    def local_key(self, name, st):
        fr = self.cur()
        return ('L', fr.fid, name)

    def on_each(self, v, st, f):
        """run f(term, state) for each leaf of v, merge"""
        if st.dead:
            return None
        cs = cases(v)
        if len(cs) == 1:
            return f(cs[0][1], st)
        outs = []
        vals = []
        for c, t in cs:
            s2 = st.fork(c)
            if s2.dead:
                continue
            r = f(t, s2)
            outs.append(s2)
            vals.append(r)
        K = ('R', 'oneach', self.new())
        if any(isinstance(r, V) for r in vals):
            for s2, r in zip(outs, vals):
                s2.store[K] = r if isinstance(r, V) else UNDEF
        m = merge(outs)
        rv = m.store.pop(K, None)
        st.become(m)
        return rv

    # ----------------------------------------------------------- conditionals
    def cond(self, e, st):
        v = self.eval(e, st)
        return self.truth(v, st)

    def truth(self, v, st):
        def f(t):
            if t.op == 'ref':
                return lift(lambda c: canon.nonempty(c) if typ(c) is None and t.args[1] in ('list', 'dict', 'set') else truthy(c),
                            self.content(t, st))
            if t.op in ('obj',):
                ci = self.prog.classes.get(t.args[1])
                if ci and (self.prog.find_method(ci, '__len__') or self.prog.find_method(ci, '__bool__')):
                    return lift(truthy, leaf(T('truthy', t)))
                return TRUE
            if t.op in ('gen', 'closure', 'func', 'class', 'bound', 'module', 'ext', 'exc', 'meth'):
                return TRUE
            if t.op == 'undef':
                return FALSE
            if t.op == 'iter':
                return TRUE
            c = st.store.get(('I', t))
            if c is not None:
                return lift(truthy, c)
            return truthy(t)
        return lift(f, v)

    def x_If(self, s, st):
        c = self.cond(s.test, st)
        if st.dead:
            return
        s1, s2 = st.fork(c), st.fork(NOT(c))
        if not s1.dead:
            self.exec_block(s.body, s1)
        if not s2.dead:
            self.exec_block(s.orelse, s2)
        st.become(merge([s1, s2]))

    def x_With(self, s, st):
        for it in s.items:
            v = self.eval(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        self.exec_block(s.body, st)

    def x_Try(self, s, st):
        mine = []
        self.handlers.append(mine)
        fr = self.cur()
        fin = bool(s.finalbody)
        rets0 = len(fr.returns)
        ctl0 = [(len(c.breaks), len(c.conts)) for c in self.loopctl]
        ex0 = len(self.cur_exits) if self.loopstack else 0
        self.catching.append((s.handlers, self.cur().module))
        try:
            self.exec_block(s.body, st)
        finally:
            self.handlers.pop()
            self.catching.pop()
        outs = []
        esc = []
        inner_raises = []
        self.handlers.append(inner_raises)
        try:
            if not st.dead and s.orelse:
                self.exec_block(s.orelse, st)
            todo = list(mine)
            for h in s.handlers:
                rest = []
                caught = []
                for sk in todo:
                    m = self.handler_match(h, sk.val, st)
                    if m is True:
                        caught.append(sk)
                    elif m is None:
                        # may match: both
                        caught.append(sk)
                        self.notes.add('ambiguous handler')
                    else:
                        rest.append(sk)
                todo = rest
                if caught:
                    for sk in caught:
                        sk.st.store[('EXC', id(h))] = sk.val
                    hs = merge([sk.st for sk in caught])
                    ev = hs.store.pop(('EXC', id(h)))
                    saved = hs.store.get(('E',))
                    hs.store[('E',)] = ev
                    if h.name:
                        self.set_local(hs, h.name, ev)
                    self.exec_block(h.body, hs)
                    if saved is not None:
                        hs.store[('E',)] = saved
                    else:
                        hs.store.pop(('E',), None)
                    if not hs.dead:
                        outs.append(hs)
            esc = todo
        finally:
            self.handlers.pop()
        st.become(merge([st] + outs))
        final = esc + inner_raises
        if fin:
            for sk in final:
                self.exec_block(s.finalbody, sk.st)
            for i in range(rets0, len(fr.returns)):
                rs, rv = fr.returns[i]
                self.exec_block(s.finalbody, rs)
            for c, (b0, c0) in zip(self.loopctl, ctl0):
                for x in c.breaks[b0:] + c.conts[c0:]:
                    self.exec_block(s.finalbody, x)
            if self.loopstack:
                for x in self.cur_exits[ex0:]:
                    self.exec_block(s.finalbody, x.st)
            if not st.dead:
                self.exec_block(s.finalbody, st)
        self.handlers[-1].extend(k for k in final if not k.st.dead)

    x_TryStar = x_Try

    def handler_match(self, h, val, st, module=None):
        if h.type is None:
            return True
        types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        cls = set()
        for t in leaves(val):
            cls.add(self.exc_class(t))
        names = []
        for t in types:
            r = self.prog.resolve_static(module or self.cur().module, t)
            if isinstance(r, ClassInfo):
                names.append(r.qual)
            elif isinstance(r, str):
                names.append(norm_ext(r))
            elif isinstance(r, tuple) and r[0] == 'assign':
                names.append(r[2])
            else:
                if st is None:
                    return None
                v = self.eval(t, st)
                for x in leaves(v):
                    if x.op == 'class':
                        names.append(x.args[0])
                    elif x.op == 'ext':
                        names.append(x.args[0])
                    elif x.op == 'tuple':
                        names += [y.args[0] for y in x.args if y.op in ('class', 'ext')]
        res = set()
        for c in cls:
            if c is None:
                res.add(True if ('Exception' in names or 'BaseException' in names) else None)
            else:
                res.add(any(self.prog.issub(c, n) or (n in ('IOError', 'OSError') and c in ('IOError', 'OSError'))
                            for n in names))
        if len(res) == 1:
            return res.pop()
        return None

    def exc_class(self, t):
        if t.op == 'exc':
            return t.args[0]
        if t.op == 'obj':
            return t.args[1]
        ty = btyp(t)
        if ty and ty.startswith('exc:'):
            return ty[4:]
        return None

    # -------------------------------------------------------------------- loops
    @property
    def cur_exits(self):
        return self.loopstack[-1].cur_exits

    def x_While(self, s, st):
        self.loop(s, st, None, None, s.body, s.orelse, s.test)

    def x_For(self, s, st):
        it = self.eval(s.iter, st)
        if st.dead:
            return
        self.for_over(it, lambda v, s2: self.assign(s.target, v, s2), s, s.body, s.orelse, st)

    x_AsyncFor = x_For

    def for_over(self, it, bind, node, body, orelse, st):
        """body: list of statements or a callable(st)"""
        if st.dead:
            return
        run = body if callable(body) else (lambda s2: self.exec_block(body, s2))

        def one(t, s2):
            self._for_term(t, bind, node, run, orelse, s2)
        self.on_each(it, st, one)

    def _for_term(self, t, bind, node, run, orelse, st):
        if t.op == 'gen':
            ctl = LoopCtl()
            brk = Frame(0, None, self.cur().module, None)
            brk.idx = len(self.frames)

            def cb(v, s2):
                saved = self.loopctl
                self.loopctl = saved + [ctl]
                try:
                    bind(v, s2)
                    run(s2)
                finally:
                    self.loopctl = saved
                cs, ctl.conts = ctl.conts, []
                bs, ctl.breaks = ctl.breaks, []
                for b in bs:
                    if self.loopstack and self.loopstack[-1].depth >= brk.idx:
                        self.cur_exits.append(Sink(b, NONE, node, self.loopstack[-1], 'return', brk))
                    else:
                        brk.returns.append((b, NONE))
                s2.become(merge([s2] + cs))
            self.gen_depth = getattr(self, 'gen_depth', 0) + 1
            try:
                # returns/breaks of the consumer inside the generator's loops are
                # exits of those loops
                self.run_gen(t.args[0], st, cb)
            finally:
                self.gen_depth -= 1
            if orelse:
                self.exec_block(orelse, st)
            if brk.returns:
                st.become(merge([st] + [b for b, _v in brk.returns]))
            return
        self.need(st, leaf(t), canon.ITERABLE, 'TypeError', node)
        if st.dead:
            return
        seq = self.iter_seq(t, st)
        cs = cases(seq)
        if len(cs) > 1:
            self.on_each(seq, st, lambda q, s2: self._for_seq(q, bind, node, run, orelse, s2))
        else:
            self._for_seq(cs[0][1], bind, node, run, orelse, st)

    def counted(self, q, st, most=4):
        """the number of elements of sequence q if the path fixes it to a small one"""
        size = T('len', q)
        if size not in vterms(st.cond):
            return None
        for k in range(2, most + 1):
            if prune(AND(st.cond, NOT(AND(ge(size, const(k)), NOT(ge(size, const(k + 1))))))) is FALSE:
                return k
        return None

    def _for_seq(self, q, bind, node, run, orelse, st):
        n = None
        if q.op in ('list', 'tuple', 'dict'):
            n = [unbox(a) for a in (q.args if q.op != 'dict' else q.args[::2])]
        elif isconst(q) and isinstance(cval(q), (str, bytes)) and len(cval(q)) < 40:
            n = [leaf(const(x)) for x in cval(q)]
        elif q.op == 'range' and all(isconst(a) for a in q.args):
            r = range(*[cval(a) for a in q.args])
            if len(r) <= 64:
                n = [leaf(const(x)) for x in r]
        elif q.op == 'zip':
            ls = [a.args for a in q.args if a.op in ('list', 'tuple')]
            if ls:
                k = min(len(x) for x in ls)
                if all(a.op in ('list', 'tuple') for a in q.args):
                    n = [leaf(T('tuple', *[a.args[i] for a in q.args])) for i in range(k)]
        elif q.op == 'enumerate' and q.args[0].op in ('list', 'tuple'):
            n = [leaf(T('tuple', box(canon.add(const(i), q.args[1])), a)) for i, a in enumerate(q.args[0].args)]
        elif q.op in ('split', 'slice', 'call') and not orelse:
            k = self.counted(q, st)
            if k is not None:
                n = [item(q, const(i)) for i in range(k)]
        if n is not None:
            ctl = LoopCtl()
            self.loopctl = self.loopctl + [ctl]
            try:
                for v in n:
                    if st.dead:
                        break
                    bind(v, st)
                    run(st)
                    if ctl.conts:
                        st.become(merge([st] + ctl.conts))
                        ctl.conts = []
            finally:
                self.loopctl = self.loopctl[:-1]
            if orelse and not st.dead:
                self.exec_block(orelse, st)
            if ctl.breaks:
                st.become(merge([st] + ctl.breaks))
            return
        if q.op == 'cat':
            # sequential composition of the parts
            if not orelse and not any(isinstance(x, ast.Break) for x in ast.walk(node)):
                for part in q.args:
                    self._for_seq(part, bind, node, run, None, st)
                return
        if q.op == 'range' and isconst(q.args[2]) and cval(q.args[2]) == 1 and \
                not (isconst(q.args[0]) and cval(q.args[0]) == 0) and all(canon.btyp(x) == 'int' for x in q.args):
            # count the rounds from zero, whatever the first number is
            lo, first = q.args[0], bind
            span = canon.sub(q.args[1], lo)
            if span.leaf:
                q = T('idxrange', span.hi.args[0]) if span.hi.op == 'len' else T('range', const(0), span.hi, const(1))

                def bind(v, s, lo=lo, first=first):
                    first(lift(lambda x: canon.add(x, lo), v), s)
        self.loop(node, st, q, bind, run, orelse, None)

    def loop(self, node, st, seq, bind, body, orelse, test):
        if st.dead:
            return
        run = body if callable(body) else (lambda s2: self.exec_block(body, s2))
        # the driver of an indexed loop is the sequence itself
        if seq is not None and bind is not None:
            inner, full = bind, seq
            while seq.op in ('enumerate', 'idxrange', 'map', 'tolist'):
                seq = seq.args[0]
            if full is not seq:
                bind = lambda v, s2: inner(elem(full), s2)
            if seq.op == 'fmap' and not orelse and seq.args[0].op not in ('list', 'tuple') and \
                    not any(x.op in ('enumerate', 'idxrange', 'idx') for x in vterms(elem(full))):
                # a loop over the selected elements walks all of them and skips the others
                sel, run0 = unbox(seq.args[1]), run
                val = Subst({elem(seq).hi: unbox(seq.args[2])}).value(elem(full))
                seq = seq.args[0]

                def run(s2):
                    skip, go = s2.fork(NOT(sel)), s2.fork(sel)
                    if not go.dead:
                        inner(val, go)
                        run0(go)
                    s2.become(merge([go, skip]))
                bind = lambda v, s2: None
        lid = self.new()
        mark = self.uid
        parent = self.loopstack[-1] if self.loopstack else None
        jl, jc, je = len(self.loops), len(self.clauses), len(self.events)
        jx, jy, jz = len(self.escapes), len(self.copies), len(self.noattr)
        keys = []                # loop-carried keys
        types = {}
        fixed = {}               # key -> V replacing the mu (index variables)
        invar = set()            # the ones of these that keep their value
        seqx = seq
        late = []
        flip = set()             # flags that start set are followed by their opposite
        nat, nonat = set(), set()   # integers that start and stay non-negative; the ones that do not
        passes = 0
        outer_depth = len(self.frames) - 1
        while True:
            passes += 1
            if passes > 25:
                self.notes.add('loop fixpoint')
                break
            self.uid = mark
            del self.loops[jl:], self.clauses[jc:], self.events[je:]
            del self.escapes[jx:], self.copies[jy:], self.noattr[jz:]
            lp = Loop(lid, seqx, parent, node, self.whereami())
            lp.depth = outer_depth
            lp.cur_exits = []
            lp.pre = st.fork()
            s = St(st.cond, dict(st.store))
            mus = {}
            for i, k in enumerate(keys):
                if k in fixed:
                    s.store[k] = fixed[k]
                else:
                    mu = T('mu', lid, i, types.get(k))
                    mus[k] = mu
                    s.store[k] = NOT(atomv(mu)) if k in flip else leaf(mu)
            if seqx is not None:
                ne = canon.nonempty(seqx) if typ(seqx) or True else TRUE
                s.cond = prune(AND(s.cond, ne))
            lp.start = s.fork()
            self.loopstack.append(lp)
            ctl = LoopCtl()
            self.loopctl = self.loopctl + [ctl]
            sinks = []
            self.handlers.append(sinks)
            lp.testv = None
            try:
                if seqx is not None:
                    if bind is not None:
                        bind(elem(seqx), s)
                else:
                    if test is not None:
                        tc = self.cond(test, s)
                        lp.testv = tc
                        lp.teststate = s.fork()
                        s = s.fork(tc)
                if not s.dead:
                    run(s)
            finally:
                self.handlers.pop()
                self.loopctl = self.loopctl[:-1]
                self.loopstack.pop()
            end = merge([s] + ctl.conts)
            breaks = [Sink(b, None, node, lp, 'break') for b in ctl.breaks]
            exits = [x for x in lp.cur_exits if not x.st.dead] + [b for b in breaks if not b.st.dead]
            # which keys changed?
            new = []
            for src in [end] + [x.st for x in exits] + [x.st for x in sinks]:
                if src.dead:
                    continue
                for k, v in src.store.items():
                    if k in keys or k in new:
                        continue
                    if k[0] in ('R', 'E', 'EXC'):
                        continue
                    old = st.store.get(k)
                    if old is v:
                        continue
                    if old is None:
                        if k[0] == 'L' and k[1] > lid:
                            continue
                        if k[0] == 'A' and k[1].op == 'obj' and k[1].args[0] > lid:
                            continue
                        if k[0] == 'I' and k[1].op == 'ref' and k[1].args[0] > lid:
                            continue
                        if any(isinstance(x, int) and False for x in ()):
                            continue
                        if k[0] in ('A', 'I') and self.mentions_iter(k[1], lid, seqx):
                            # per-element heap effect, not a carried variable
                            continue
                        if k[0] == 'L' and src is not end:
                            continue
                        if v is default_of(k):
                            continue
                    new.append(k)
            # type refinement
            redo = bool(new)
            for k in keys:
                if k in fixed or end.dead:
                    continue
                init = st.store.get(k, default_of(k))
                ty = join_types([typ(t) for t in leaves(init) if t.op != 'undef'] +
                                [typ(t) for t in leaves(end.store.get(k, UNDEF)) if t is not mus.get(k) and t.op != 'undef'])
                if ty == 'int' and k in nat:
                    ty = 'int+'
                if ty != types.get(k):
                    if types.get(k, 0) is None and passes > 8:
                        continue
                    types[k] = ty
                    redo = True
            for k in new:
                init = st.store.get(k, default_of(k))
                types[k] = join_types([typ(t) for t in leaves(init) if t.op != 'undef'])
                keys.append(k)
            if redo:
                continue
            # index variables
            redo = False
            for k in keys:
                if k in fixed or end.dead:
                    continue
                init = st.store.get(k, default_of(k))
                step = end.store.get(k)
                if k[0] == 'L' and step is not None and step.leaf and step.hi is mus.get(k) and k not in invar:
                    # only ever assigned when the loop is left
                    fixed[k] = init
                    invar.add(k)
                    redo = True
                    continue
                if step is None or not init.leaf or not isconst(init.hi) or not isinstance(cval(init.hi), int):
                    continue
                mu = mus[k]
                if step.leaf and step.hi is canon.mklin(1, [(mu, 1)]) and typ(mu) == 'int':
                    c0 = cval(init.hi)
                    if seqx is not None:
                        fixed[k] = canon.elem_idx(seqx, const(c0))
                        redo = True
                    elif lp.testv is not None and c0 == 0:
                        # while i < len(S)
                        for a in canon.atoms(lp.testv):
                            for x in subterms(a):
                                if x.op == 'len' and lp.testv is lift(lambda m, l: NOT(ge(m, l)), leaf(mu), leaf(x)):
                                    seqx = x.args[0]
                                    fixed[k] = leaf(T('idx', seqx))
                                    test = None
                                    bind = None
                                    redo = True
                                    break
                            if redo:
                                break
            if redo:
                continue
            # flags
            for k in keys:
                if k not in fixed and k not in flip and types.get(k) == 'bool' and st.store.get(k, default_of(k)) is TRUE and not end.dead:
                    flip.add(k)
                    redo = True
            if redo:
                continue
            # counters
            for k in keys:
                if k in fixed or end.dead or k in nonat or types.get(k) not in ('int', 'int+'):
                    continue
                if k not in nat:
                    if not all(canon.natural(t) for t in leaves(st.store.get(k, default_of(k)))):
                        continue
                    nat.add(k)
                    types[k] = 'int+'
                    redo = True
                elif not all(canon.natural(t) for v in (st.store.get(k, default_of(k)), restrict(end.store.get(k, UNDEF), end.cond))
                             for t in leaves(v)):
                    nat.discard(k)
                    nonat.add(k)
                    types[k] = 'int'
                    redo = True
            if redo:
                continue
            break
        # ---- finalise
        lp.end = end
        lp.cont = end.cond
        def carried(i, k):
            """initial and next value of a carried variable"""
            init, step = st.store.get(k, default_of(k)), end.store.get(k, UNDEF)
            if k in flip:
                return NOT(init), NOT(lift(canon.truthy, step)) if step is not UNDEF else step
            return shifted[i][:2] if i in shifted else (init, step)
        shifted = self.shift_scans(lid, keys, fixed, st, end, types, default_of, exits)
        fused = {}
        if seqx is not None and not exits:
            fused = self.fused_scans(lid, keys, fixed, st, end, types, default_of, shifted, seqx, je, jc)
            shifted.update(fused)
        for i, k in enumerate(keys):
            if k in fixed:
                continue
            lp.vars[i] = (k,) + tuple(carried(i, k)) + (types.get(k),)
        lp.keys = keys
        self.loops.append(lp)
        # exits
        post = []
        ncond = st.cond
        exit_terms = []
        for n, x in enumerate(exits):
            at = T('exits', lid, n)
            exit_terms.append(at)
            es = St(AND(st.cond, atomv(at)), x.st.store)
            lp.exits.append(Sink(x.st, x.val, x.node, lp, x.kind, x.via, x.where))
            ncond = AND(ncond, NOT(atomv(at)))
            if x.kind == 'break':
                post.append(es)
            else:
                fr = x.via
                if self.loopstack and self.loopstack[-1].depth >= self.frame_depth(fr):
                    self.loopstack[-1].cur_exits.append(Sink(es, x.val, x.node, lp, 'return', fr))
                else:
                    fr.returns.append((es, x.val))
        for n, x in enumerate(sinks):
            at = T('exits', lid, ('r', n))
            es = St(prune(AND(st.cond, atomv(at))), x.st.store)
            lp.exits.append(Sink(x.st, x.val, x.node, lp, 'raise', x.via, x.where))
            if self.caught_here(x.val):
                ncond = AND(ncond, NOT(atomv(at)))
            self.handlers[-1].append(Sink(es, x.val, x.node, x.loop, 'raise', ('inloop', x), x.where))
        fin = St(ncond, dict(st.store))
        closed = {}
        for i, k in enumerate(keys):
            init = st.store.get(k, default_of(k))
            if k in fixed:
                if k in invar:
                    continue
                if seqx is not None and fixed[k] is not UNDEF:
                    c0 = cval(init.hi)
                    fin.store[k] = lift(lambda l: canon.add(l, const(c0)), mklen(seqx))
                continue
            init, step = carried(i, k)
            cf = None
            if seqx is not None:
                step = self.freeze(step, St(TRUE, {q: x for q, x in end.store.items() if q[0] in ('A', 'I') and
                                                   q[1].op in ('ref', 'obj') and q[1].args[0] > lid}))
                cf = self.closed_form(T('mu', lid, i, types.get(k)), lid, init, step, seqx, exits, end.cond)
            if cf is not None:
                fin.store[k] = cf if k not in flip else NOT(lift(canon.truthy, cf))
                lp.closed[k] = cf
                lp.core[k] = self.last_core
            elif k in flip:
                fin.store[k] = NOT(atomv(T('out', lid, i, types.get(k))))
            else:
                fin.store[k] = leaf(T('out', lid, i, types.get(k)))
        for i, (init, step, val) in fused.items():
            # the elements put together from those of the sequence and the carried values
            t = T('out', lid, i, types.get(keys[i]))
            v = T('map', canon.mkzip(seqx, t), box(Subst({val: elem(t)}).value(fused[i].body)))
            init = st.store.get(keys[i], default_of(keys[i]))
            fin.store[keys[i]] = lift(lambda l: leaf(canon.lcat(l, v)), init)
        for i in shifted:
            if i in fused:
                continue
            # closed forms above refer to the shortened list
            last = fin.store[keys[shifted[i][2]]]
            fin.store[keys[i]] = lift(lambda x: leaf(canon.lcat(x, T("list", box(last)))), fin.store[keys[i]])
        if test is not None and seqx is None and lp.testv is not None:
            # exit condition of the while loop, over the out values
            m = {}
            for i, k in enumerate(keys):
                m[T('mu', lid, i, types.get(k))] = leaf(T('out', lid, i, types.get(k)))
            if not exits:
                fin.cond = prune(AND(fin.cond, NOT(Subst(m).value(lp.testv))))
            else:
                fin.cond = prune(AND(fin.cond, NOT(Subst(m).value(lp.testv))))
        if end.dead and seqx is None and lp.testv is TRUE:
            fin.kill()
        if seqx is None and lp.testv is TRUE:
            fin.kill()
        if orelse and not fin.dead:
            self.exec_block(orelse, fin)
        st.become(merge([fin] + post))

    def shift_scans(self, lid, keys, fixed, st, end, types, default_of, exits):
        """a list that starts with the initial value of another carried variable
        and grows by its new value is the list of the old values plus the final one"""
        out = {}
        if end.dead:
            return out
        for i, k in enumerate(keys):
            if k in fixed:
                continue
            init, step = st.store.get(k, default_of(k)), end.store.get(k, UNDEF)
            if not (init.leaf and init.hi.op == 'list' and init.hi.args and step.leaf and step.hi.op == 'cat'):
                continue
            mu = T('mu', lid, i, types.get(k))
            a = step.hi.args
            if len(a) != 2 or a[0] is not mu or a[1].op != 'list' or len(a[1].args) != 1:
                continue
            for j, q in enumerate(keys):
                if j == i or q in fixed:
                    continue
                if unbox(init.hi.args[-1]) is st.store.get(q, default_of(q)) and unbox(a[1].args[0]) is end.store.get(q, UNDEF):
                    m = leaf(T('mu', lid, j, types.get(q)))
                    out[i] = (leaf(T('list', *init.hi.args[:-1])), leaf(T('cat', mu, T('list', box(m)))), j)
                    break
        return out

    def fused_scans(self, lid, keys, fixed, st, end, types, default_of, shifted, seq, je, jc):
        """a list that grows by one value per element, put together from the
        element and one other carried value, is the list of the carried values
        combined with the elements"""
        out = {}
        if end.dead:
            return out
        for i, k in enumerate(keys):
            if k in fixed or i in shifted:
                continue
            step = end.store.get(k, UNDEF)
            mu = T('mu', lid, i, types.get(k))
            if not (step.leaf and step.hi.op == 'cat' and len(step.hi.args) == 2 and step.hi.args[0] is mu):
                continue
            a = step.hi.args[1]
            if a.op != 'list' or len(a.args) != 1:
                continue
            body = self.freeze(unbox(a.args[0]), St(TRUE, {q: x for q, x in end.store.items() if q[0] in ('A', 'I') and
                                                   q[1].op in ('ref', 'obj') and q[1].args[0] > lid}))
            if not body.leaf or body.hi.op == 'mu':
                continue
            used = [x for x in subterms(body.hi) if x.op == 'mu' and x.args[0] == lid]
            if len(set(used)) != 1 or used[0] is mu or used[0].args[1] not in range(len(keys)) or keys[used[0].args[1]] in fixed or typ(used[0]) == 'bool':
                continue
            if any(mu in vterms(x) for q, x in end.store.items() if q != k):
                continue
            if self.mentioned(mu, self.events[je:]) or self.mentioned(mu, [(c.cond, c.extra) for c in self.clauses[jc:]]):
                continue
            f = Fused((leaf(T('list')), leaf(T('cat', mu, T('list', box(leaf(used[0]))))), used[0]))
            f.body = body
            out[i] = f
        return out

    def mentioned(self, t, xs):
        for x in xs:
            if isinstance(x, V):
                if t in vterms(x):
                    return True
            elif isinstance(x, (tuple, list)):
                if self.mentioned(t, x):
                    return True
            elif hasattr(x, 'op') and t in subterms(x):
                return True
        return False

    def mentions_iter(self, t, lid, seq):
        for x in subterms(t):
            if x.op == 'mu' and x.args[0] == lid:
                return True
            if seq is not None and x.op == 'elem' and x.args[0] is seq:
                return True
            if x.op in ('ref', 'obj', 'mu', 'out') and isinstance(x.args[0], int) and x.args[0] > lid:
                return True
        return False

    def closed_form(self, mu, lid, init, step, seq, exits, cont):
        """recognise list/set/dict building and summation"""
        def free(v):
            for x in vterms(v):
                if x.op == 'mu' and x.args[0] == lid:
                    return False
            return True
        step = restrict(step, cont) if cont is not FALSE else step
        ls = leaves(step)
        kind = None
        pieces = {}
        for t in ls:
            if t is mu:
                pieces[t] = None
                continue
            if t.op == 'cat' and t.args[0] is mu and len(t.args) == 2 and t.args[1].op == 'list' and len(t.args[1].args) == 1:
                k, e = 'list', t.args[1].args[0]
            elif t.op == 'sadd' and t.args[0] is mu:
                k, e = 'set', t.args[1]
            elif t.op in ('scat', 'bcat') and t.args[0] is mu and btyp(mu) in ('str', 'bytes'):
                k, e = 'text', canon.scat(*t.args[1:])
            elif t.op == 'dset' and t.args[0] is mu:
                k, e = 'dict', T('tuple', t.args[1], t.args[2])
            elif t.op == 'union' and mu in t.args:
                k = 'union'
                e = t.args[1] if t.args[0] is mu else t.args[0]
            elif t.op == 'cat' and t.args[0] is mu and len(t.args) == 2:
                k, e = 'flat', t.args[1]
            elif t.op == 'lin':
                c, parts = canon.lin_parts(t)
                if dict(parts).get(mu) == 1:
                    k = 'sum'
                    e = canon.mklin(c, [p for p in parts if p[0] is not mu])
                else:
                    return None
            else:
                return None
            if kind not in (None, k):
                return None
            kind = k
            if not free(leaf(e)):
                return None
            pieces[t] = e
        if kind is None:
            return None
        # filter condition
        skip = FALSE
        val = None
        for t, e in pieces.items():
            w = where(step, t)
            if e is None:
                skip = w
            else:
                val = leaf(e) if val is None else ite(w, leaf(e), val)
        if not free(skip):
            return None
        if skip is FALSE:
            m = T('map', seq, box(val)) if val is not elem(seq) else (seq if btyp(seq) == 'list' else T('tolist', seq))
        else:
            m = T('fmap', seq, box(NOT(skip)), box(val))
        core = m
        if kind in ('set', 'dict', 'union', 'flat'):
            core = canon.mkset(m) if kind == 'set' else canon.mktodict(m) if kind == 'dict' else \
                T({'union': 'unionall', 'flat': 'flat'}[kind], m)
        elif kind == 'sum':
            core = canon.mksum(m)
            core = core.hi if core.leaf else T('call', 'sum', m)
        self.last_core = (kind, core)
        if kind == 'text':
            return lift(lambda i: lift(lambda x: leaf(canon.scat(i, x)), canon.join(const('' if btyp(mu) == 'str' else b''), m)),
                        init)
        if kind == 'list':
            return lift(lambda i: leaf(lcat(i, m)), init)
        if kind == 'set':
            return lift(lambda i: leaf(canon.union(i, canon.mkset(m))), init)
        if kind == 'dict':
            return lift(lambda i: leaf(canon.dupd(i, canon.mktodict(m))), init)
        if kind == 'union':
            return lift(lambda i: leaf(canon.union(i, T('unionall', m))), init)
        if kind == 'flat':
            return lift(lambda i: leaf(lcat(i, T('flat', m))), init)
        if kind == 'sum':
            return lift(canon.add, init, canon.mksum(m))
        return None

    def iter_seq(self, t, st):
        """sequence value of iterating term t (V)"""
        if t.op == 'ref':
            c = self.content(t, st)
            if t.args[1] == 'set':
                return c
            return c
        if t.op == 'iter':
            return unbox(t.args[0])
        c = st.store.get(('I', t))
        if c is not None:
            return c
        if t.op == 'undef':
            return leaf(T('list'))
        return leaf(t)

    # ------------------------------------------------------------- heap helpers
    def new_ref(self, st, kind, content):
        r = T('ref', self.new(), kind)
        r.typ = kind
        st.store[('I', r)] = content if isinstance(content, V) else leaf(content)
        return leaf(r)

    def content(self, t, st):
        c = st.store.get(('I', t))
        if c is not None:
            return c
        return leaf(t)

    def deref(self, v, st):
        def f(t):
            c = st.store.get(('I', t))
            if c is not None:
                return c if not any(l is t for l in leaves(c)) else c
            return leaf(t)
        return lift(f, v)

    def freeze(self, v, st, depth=0, excl=frozenset()):
        """value with references replaced by their current content"""
        memo = {}

        def g(t):
            r = memo.get(t)
            if r is None:
                r = h(t)
                memo[t] = r
            return r

        def h(t):
            if depth > 8:
                return leaf(t)
            if t.op == 'ref':
                c = st.store.get(('I', t))
                if c is None:
                    return leaf(t)
                return self.freeze(c, st, depth + 1, excl)
            if t.op == 'obj':
                attrs = []
                for k, x in st.store.items():
                    if k[0] == 'A' and k[1] is t:
                        attrs.append((k[2], x))
                attrs.sort(key=lambda p: p[0])
                fl = []
                for n, x in attrs:
                    if any(l is t for l in leaves(x)):
                        continue
                    fl += [n, box(self.freeze(x, st, depth + 1, excl))]
                return leaf(T('struct', t.args[1], *fl))
            c = st.store.get(('I', t)) if t not in excl else None
            if c is not None and not (c.leaf and c.hi is t):
                # inside its own content t stands for the original content
                return self.freeze(c, st, depth + 1, excl | frozenset([t]))
            if t.op in ('tuple', 'list', 'cat', 'dict', 'dset', 'set', 'sadd', 'map', 'fmap', 'union', 'slice', 'item', 'iter',
                        'todict', 'dupd', 'toset', 'zip', 'rev', 'tolist', 'sorted', 'rep', 'exc'):
                if any(x.op in ('ref', 'obj') for x in subterms(t)):
                    if t.op in ('tuple', 'list', 'set', 'dset', 'dict', 'sadd', 'exc'):
                        old = frozenset()
                    else:
                        # a symbolic operand of a content stands for what it held when the content was made
                        old = frozenset(x for a in t.args if isinstance(a, Term) for x in leaves(unbox(a)) if x.op not in ('ref', 'obj'))
                    return canon.mkop(t.op, [self.freeze(unbox(a), st, depth + 1, excl | old) if isinstance(a, Term) else a for a in t.args])
            # mutated attributes of symbolic objects
            return leaf(t)
        return lift(g, v)

    def freeze_seq(self, v, st):
        self.need(st, v, canon.ITERABLE, 'TypeError')

        def f(t):
            if t.op == 'gen':
                return self.deref(self.gen_to_list(t, st), st)
            if t.op == 'iter':
                return unbox(t.args[0])
            return self.deref(leaf(t), st)
        return lift(f, v)

    def gen_to_list(self, t, st):
        r = self.new_ref(st, 'list', T('list'))

        def cb(v, s2):
            s2.store[('I', r.hi)] = lift(lambda c, x: leaf(lcat(c, T('list', x))), s2.store[('I', r.hi)], leaf(box(v)))
        self.run_gen(t.args[0], st, cb)
        return r

    # ------------------------------------------------------------ attributes
    def getattr_v(self, v, name, st, node):
        if st.dead:
            return UNDEF
        cs = leaves(v)
        if len(cs) == 1:
            return self.getattr_t(cs[0], name, st, node)

        def f(t, s2):
            return self.getattr_t(t, name, s2, node)
        return self.on_each(v, st, f) or UNDEF

    def getattr_t(self, t, name, st, node):
        op = t.op
        v = st.store.get(('A', t, name))
        if v is not None:
            return v
        v = st.store.get(('A', t, '__dict__'))
        if v is not None and not (op == 'obj' and self.prog.find_method(self.prog.classes.get(t.args[1]), name)):
            return lift(lambda d: leaf(T('attr', d.args[0], name) if d.op == 'attr' else T('item', d, const(name))), v)
        if op == 'module':
            m = self.prog.modules[t.args[0]]
            return self.global_v(m, name, st, node)
        if op == 'ext':
            return self.ext(t.args[0] + '.' + name)
        if op == 'class':
            ci = self.prog.classes[t.args[0]]
            f = self.prog.find_method(ci, name)
            if f is not None:
                if f.classm:
                    return leaf(T('bound', t, f.qual))
                return leaf(T('func', f.qual))
            n = self.prog.find_nested(ci, name)
            if n is not None:
                return leaf(T('class', n.qual))
            a = self.prog.find_attr(ci, name)
            if a is not None:
                if self.prog.issub(ci.qual, 'enum.Enum'):
                    return leaf(const(('enum', ci.qual, name)))
                return self.class_attr(a, st)
            if name == '__name__':
                return leaf(const(ci.qual.split('.')[-1]))
            return leaf(T('attr', t, name))
        if op == 'const' and cval(t) is None:
            self.implicit(st, 'AttributeError', node, TRUE)
            if self.spec_mode:
                return leaf(T('attr', t, name))
            return UNDEF
        if op == 'undef':
            self.implicit(st, 'NameError', node, TRUE)
            return UNDEF
        if op == 'exc':
            return self.exc_attr(t, name, st, node)
        if op == 'regex':
            return leaf(T('meth', t, name))
        if self.strict and canon.isjson(t):
            own = [c for c in ('str', 'list', 'dict', 'int', 'float') if hasattr({'str': str, 'list': list, 'dict': dict,
                   'int': int, 'float': float}[c], name)]
            self.need(st, leaf(t), own, 'AttributeError', node)
            if st.dead:
                return UNDEF
        ty = typ(t)
        bt = base_type(ty)
        if bt and bt.startswith('cls:'):
            # a class method called on the class or one derived from it
            ci = self.prog.classes.get(bt[4:])
            f = self.prog.find_method(ci, name) if ci is not None else None
            subs = [c for q, c in self.prog.classes.items() if c is not ci and self.prog.issub(q, bt[4:])]
            if f is not None and not any(name in c.methods for c in subs):
                return leaf(T('bound', t, f.qual)) if f.classm else leaf(T('func', f.qual))
            return leaf(T('attr', t, name))
        if ty and ty.startswith('?') and not self.spec_mode:
            self.implicit(st, 'AttributeError', node, eq(t, const(None)))
        if op == 'obj' or (bt and bt.startswith('obj:')):
            cn = t.args[1] if op == 'obj' else bt[4:]
            ci = self.prog.classes.get(cn)
            if name == '__class__':
                return leaf(T('class', cn)) if op == 'obj' and ci else leaf(T('attr', t, name))
            if ci is not None and name == '__dict__':
                names = self.prog.instance_attrs(ci)
                if names:
                    args = []
                    for n in sorted(names):
                        args += [const(n), box(self.getattr_t(t, n, st, node))]
                    return leaf(T('dict', *args))
            if ci is not None:
                f = self.prog.find_method(ci, name)
                if f is not None:
                    if f.prop:
                        return self.call_function(f, [leaf(t)], {}, st, node)
                    if f.static:
                        return leaf(T('func', f.qual))
                    return leaf(T('bound', t, f.qual))
                a = self.prog.find_attr(ci, name)
                own = op != 'obj' and self.prog.assigned_attr(ci, name)
                if a is not None and not own and not (isinstance(a[1], ast.Call) and self.foreign(ci)):
                    return self.class_attr(a, st)
                if a is not None:
                    # a value of its own per object: one that methods assign, or a descriptor of a framework class
                    return leaf(T('attr', t, name))
                if op == 'obj':
                    if self.foreign(ci):
                        return leaf(T('meth', t, name))
                    self.implicit(st, 'AttributeError', node, TRUE)
                    return UNDEF if not self.spec_mode else leaf(T('attr', t, name))
            if ci is None:
                return leaf(T('attr', t, name))
            if not self.spec_mode and not self.prog.may_have(ci, name) and not self.caught_here(self.exc('AttributeError')):
                self.noattr.append((ci.qual, name, st.cond, node, self.whereami()))
            return leaf(T('attr', t, name))
        if op == 'bound' or op == 'func' or op == 'closure':
            return leaf(T('attr', t, name))
        if bt in ('str', 'bytes', 'list', 'dict', 'set', 'tuple', 'int', 'float', 'bool', 'datetime') or op in ('ref', 'gen', 'iter', 'regex', 'mobj') \
                or op.startswith('ext'):
            return leaf(T('meth', t, name))
        if isconst(t) and isinstance(cval(t), tuple) and cval(t)[0] == 'enum':
            return leaf(T('attr', t, name))
        return leaf(T('attr', t, name))

    def foreign(self, ci):
        """whether a class derives from one outside of the analysed sources"""
        return any(not isinstance(b, ClassInfo) and b not in ('object',) for b in self.prog.mro(ci))

    def class_attr(self, a, st):
        c, node = a
        fr = Frame(self.new(), None, c.module, c)
        self.frames.append(fr)
        try:
            return self.eval(node, St())
        finally:
            self.frames.pop()

    def exc_attr(self, t, name, st, node):
        ci = self.prog.classes.get(t.args[0])
        if ci is None:
            return leaf(T('attr', t, name))
        f = self.prog.find_method(ci, '__init__')
        o = T('obj', self.new(), ci.qual)
        s2 = st.fork()
        if f is not None:
            self.handlers.append([])
            try:
                self.call_function(f, [leaf(o)] + [unbox(a) for a in t.args[1:]], {}, s2, node)
            finally:
                self.handlers.pop()
        v = s2.store.get(('A', o, name))
        if v is not None:
            return v
        m = self.prog.find_method(ci, name)
        if m is not None:
            return leaf(T('bound', t, m.qual))
        return leaf(T('attr', t, name))

    def setattr_v(self, base, name, v, st):
        if st.dead:
            return

        def f(t, s2):
            if t.op == 'const' and cval(t) is None or t.op == 'undef':
                self.implicit(s2, 'AttributeError', None, TRUE)
                return
            s2.store[('A', t, name)] = v
        self.on_each(base, st, f)

    # --------------------------------------------------------------- subscripts
    def getitem_v(self, base, k, st, node):
        if st.dead:
            return UNDEF

        def f(t, s2):
            return self.getitem_t(t, k, s2, node)
        r = self.on_each(base, st, f)
        return r if r is not None else UNDEF

    def getitem_t(self, t, k, st, node):
        if t.op == 'class' and self.prog.issub(t.args[0], 'enum.Enum'):
            return lift(lambda x: leaf(const(('enum', t.args[0], cval(x)))) if isconst(x) else leaf(T('call', 'enumget', t, x)), k)
        if t.op == 'obj':
            ci = self.prog.classes.get(t.args[1])
            f = ci and self.prog.find_method(ci, '__getitem__')
            if f:
                return self.call_function(f, [leaf(t), k], {}, st, node)
        c = self.content(t, st)
        if self.strict and canon.isjson(t):
            iskey = all(isconst(x) and isinstance(cval(x), str) or btyp(x) == 'str' for x in leaves(k))
            self.need(st, leaf(t), ('dict',) if iskey else canon.ITERABLE, 'TypeError', node)
            if st.dead:
                return UNDEF

        def chk(x, kk):
            bt = btyp(x)
            if bt == 'list':
                return FALSE
            root = x
            while root.op == 'dset':
                root = root.args[0]
            if self.strict and root is not x and root.op == 'call' and btyp(root) != 'dict' and isconst(kk) and \
                    isinstance(cval(kk), int):
                return FALSE        # a list some of whose items were replaced
            if x.op in ('dict', 'dset') or bt == 'dict':
                return NOT(contains(kk, x))
            if self.strict and canon.isjson(x) and not self.spec_mode:
                return AND(isinst(x, 'dict'), NOT(contains(kk, x)))
            return FALSE

        def chk2(x, kk):
            bt = btyp(x)
            if bt != 'list' and x.op in ('dict', 'dset') or bt == 'dict':
                return FALSE
            if (bt in ('list', 'tuple', 'str', 'bytes')) and btyp(kk) in ('int', None) and isconst(kk):
                i = cval(kk)
                if not isinstance(i, int):
                    return FALSE
                if x.op == 'elem' or bt == 'tuple' and x.op not in ('tuple',):
                    return FALSE
                return NOT(lift(lambda l: ge(l, const(i + 1 if i >= 0 else -i)), mklen(x)))
            if self.strict and canon.isjson(x) and not self.spec_mode and isconst(kk) and isinstance(cval(kk), int):
                i = cval(kk)
                return AND(OR(isinst(x, 'list'), isinst(x, 'str')),
                           NOT(lift(lambda l: ge(l, const(i + 1 if i >= 0 else -i)), mklen(x))))
            return FALSE
        self.implicit(st, 'KeyError', node, lift(chk, c, k))
        self.implicit(st, 'IndexError', node, lift(chk2, c, k))
        if st.dead:
            return UNDEF
        return lift(item, c, k)

    def setitem_v(self, base, k, v, st, node):
        if st.dead:
            return

        def f(t, s2):
            c = self.content(t, s2)

            def g(x, kk):
                return self.set_item_content(x, kk, v)
            s2.store[('I', t)] = lift(g, c, k)
        self.on_each(base, st, f)

    def set_item_content(self, x, kk, v):
        bt = btyp(x)
        if x.op in ('list',) and isconst(kk) and isinstance(cval(kk), int) and -len(x.args) <= cval(kk) < len(x.args):
            l = list(x.args)
            l[cval(kk)] = box(v)
            return leaf(T('list', *l))
        if x.op == 'dict' and isconst(kk):
            a = list(x.args)
            for i in range(0, len(a), 2):
                if a[i] is kk:
                    a[i + 1] = box(v)
                    return leaf(T('dict', *a))
            if all(isconst(q) for q in a[::2]):
                return leaf(T('dict', *(a + [kk, box(v)])))
        if x.op == 'dset' and isconst(kk) and isconst(x.args[1]):
            if x.args[1] is kk:
                return leaf(canon.dset(x.args[0], kk, box(v)))
            if repr(cval(x.args[1])) > repr(cval(kk)):
                inner = self.set_item_content(x.args[0], kk, v)
                return lift(lambda y: leaf(canon.dset(y, x.args[1], x.args[2])), inner)
        if x.op == 'dset' and x.args[1] is kk:
            return leaf(canon.dset(x.args[0], kk, box(v)))
        return leaf(canon.dset(x, kk, box(v)))

    # --------------------------------------------------------------- names
    def x_lookup(self, name, st, node):
        fr = self.cur()
        for f in [fr] + list(fr.parents):
            v = st.store.get(('L', f.fid, name))
            if v is not None:
                if any(l.op == 'undef' for l in leaves(v)):
                    c = where(v, T('undef'))
                    self.implicit(st, 'UnboundLocalError', node, c)
                return v
        return self.global_v(fr.module, name, st, node)

    def global_v(self, m, name, st, node=None):
        g = st.store.get(('A', T('module', m.name), name))
        if g is not None:
            return g
        r = self.prog.lookup(m, name)
        if r is None:
            if name == '_':
                return leaf(T('func', 'gettext'))
            if name in ('__name__',):
                return leaf(const(m.name))
            if name == '__file__':
                return leaf(T('var', '__file__', 'str'))
            self.implicit(st, 'NameError', node, TRUE)
            return UNDEF if not self.spec_mode else self.top('unresolved name ' + name)
        return self.from_static(r, st)

    def from_static(self, r, st):
        if isinstance(r, FuncInfo):
            return leaf(T('func', r.qual))
        if isinstance(r, ClassInfo):
            return leaf(T('class', r.qual))
        if isinstance(r, ModuleInfo):
            return leaf(T('module', r.name))
        if isinstance(r, tuple) and r[0] == 'assign':
            return self.global_assign(r[1], r[2])
        if isinstance(r, str):
            return self.ext(r)
        return self.top('unresolved')

    def ext(self, name):
        if name == 'True':
            return TRUE
        if name == 'librksv.gettext_helper._':
            return leaf(T('func', 'gettext'))
        if name == 'sys.argv':
            return leaf(T('var', 'argv', 'list'))
        if name.startswith('codecs.BOM_'):
            return leaf(const(getattr(codecs, name[7:], None))) if hasattr(codecs, name[7:]) else leaf(T('ext', name))
        return leaf(T('ext', norm_ext(name)))

    GLOBKEEP = set()

    def global_assign(self, m, name):
        key = (m.name, name)
        if m.short + '.' + name in self.opaque:
            return leaf(T('global', m.name, name))
        if name in m.rebound and not any(f.fn is not None and f.fn.node.name == '__main__' for f in self.frames):
            ty = config.GLOBALS.get(m.short + '.' + name)
            return leaf(T('var', 'G:%s.%s' % (m.short, name), *ty) if ty else T('global', m.name, name))
        v = self.globcache.get(key)
        if v is None:
            node = m.assigns[name]
            self.globcache[key] = leaf(T('global', m.name, name))   # recursion guard
            fr = Frame(self.new(), None, m, None)
            saved = self.frames, self.loopctl, self.loopstack, self.handlers
            self.frames, self.loopctl, self.loopstack, self.handlers = [fr], [], [], [[]]
            st = St()
            try:
                v = self.eval(node, st)
                v = self.freeze_global(v, st)
            finally:
                self.frames, self.loopctl, self.loopstack, self.handlers = saved
            self.globcache[key] = v
        return v

    def freeze_global(self, v, st):
        # module-level containers are immutable for the analysis: keep contents,
        # keep object identities, remember their attributes
        def f(t):
            if t.op == 'ref':
                c = st.store.get(('I', t))
                return self.freeze_global(c, st) if c is not None else leaf(t)
            if t.op == 'obj':
                ty = T('var', 'G:' + t.args[1], 'obj:' + t.args[1])
                return leaf(ty)
            if t.op in ('dict', 'list', 'tuple', 'set'):
                return leaf(T(t.op, *[box(self.freeze_global(unbox(a), st)) for a in t.args]))
            return leaf(t)
        return lift(f, v)

    # ------------------------------------------------------------- expressions
    def eval(self, e, st):
        if st.dead:
            return UNDEF
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return self.top('unsupported expression %s' % type(e).__name__, st)
        return m(e, st)

    def e_Constant(self, e, st):
        if e.value is Ellipsis:
            return self.top('...')
        return leaf(const(e.value))

    def e_Name(self, e, st):
        return self.x_lookup(e.id, st, e)

    def e_Attribute(self, e, st):
        b = self.eval(e.value, st)
        return self.getattr_v(b, e.attr, st, e)

    def e_Tuple(self, e, st):
        return self.mkseq('tuple', e.elts, st)

    def mkseq(self, kind, elts, st):
        parts = []
        cur = []
        plain = True
        for x in elts:
            if isinstance(x, ast.Starred):
                plain = False
                if cur:
                    parts.append(leaf(T(kind, *cur)))
                    cur = []
                parts.append(self.freeze_seq(self.eval(x.value, st), st))
            else:
                cur.append(box(self.eval(x, st)))
        if st.dead:
            return UNDEF
        if plain:
            if kind == 'tuple' and len(cur) > 1 and cur[0].op == 'item':
                # (x[0], x[1], ...) of a value that was taken apart is that value
                x = cur[0].args[0]
                if x.op in ('mu', 'out', 'elem', 'item', 'var', 'call') and btyp(x) in (None, 'tuple') and \
                        not canon.isjson(x) and all(
                        t.op == 'item' and t.args[0] is x and isconst(t.args[1]) and cval(t.args[1]) == i
                        for i, t in enumerate(cur)):
                    return leaf(x)
            return leaf(T(kind, *cur))
        if cur:
            parts.append(leaf(T(kind, *cur)))
        r = leaf(T(kind))
        for p in parts:
            r = lift(lambda a, b: leaf(lcat(a, b if b.op not in ('tuple', 'list') else T(kind, *b.args))), r, p)
        return r

    def e_List(self, e, st):
        v = self.mkseq('list', e.elts, st)
        if st.dead:
            return UNDEF
        return self.new_ref(st, 'list', v)

    def e_Set(self, e, st):
        v = [self.eval(x, st) for x in e.elts]
        if st.dead:
            return UNDEF
        r = leaf(T('set'))
        for x in v:
            r = lift(lambda s, y: leaf(canon.sadd(s, y)), r, x)
        return self.new_ref(st, 'set', r)

    def e_Dict(self, e, st):
        a = T('dict')
        r = leaf(a)
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.freeze_seq(self.eval(v, st), st)
                r = lift(lambda x, y: leaf(T('dupd', x, y)), r, o)
                continue
            kv = self.eval(k, st)
            vv = self.eval(v, st)
            if st.dead:
                return UNDEF
            r = lift(lambda x, kk: self.set_item_content(x, kk, vv), r, kv)
        if st.dead:
            return UNDEF
        return self.new_ref(st, 'dict', r)

    def e_BoolOp(self, e, st):
        is_and = isinstance(e.op, ast.And)
        v = self.eval(e.values[0], st)
        for nx in e.values[1:]:
            if st.dead:
                return UNDEF
            c = self.truth(v, st)
            go = c if is_and else NOT(c)
            if go is FALSE:
                return v
            s1, s2 = st.fork(go), st.fork(NOT(go))
            if s1.dead:
                return v
            b = self.eval(nx, s1)
            st.become(merge([s1, s2]))
            if s1.dead:
                continue
            if s2.dead:
                v = b
                continue
            # pure boolean context keeps conditions
            v = ite(go, b, v)
        return v

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if st.dead:
            return UNDEF
        if isinstance(e.op, ast.Not):
            return NOT(self.truth(v, st))
        if isinstance(e.op, ast.USub):
            return lift(canon.neg, v)
        if isinstance(e.op, ast.UAdd):
            return v
        return lift(lambda t: leaf(T('invert', t)), v)

    def e_IfExp(self, e, st):
        c = self.cond(e.test, st)
        if st.dead:
            return UNDEF
        s1, s2 = st.fork(c), st.fork(NOT(c))
        a = self.eval(e.body, s1) if not s1.dead else UNDEF
        b = self.eval(e.orelse, s2) if not s2.dead else UNDEF
        d1, d2 = s1.dead, s2.dead
        st.become(merge([s1, s2]))
        if d1:
            return b
        if d2:
            return a
        return ite(c, a, b)

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_Lambda(self, e, st):
        fr = self.cur()
        fi = FuncInfo(e, fr.module, fr.cls, 'lambda:%d' % e.lineno)
        fi.cls = None
        cid = self.new()
        self.closures[cid] = (fi, tuple([fr] + list(fr.parents)))
        return leaf(T('closure', cid))

    def e_Starred(self, e, st):
        return self.eval(e.value, st)

    def e_Compare(self, e, st):
        left = self.eval(e.left, st)
        res = TRUE
        for op, rn in zip(e.ops, e.comparators):
            right = self.eval(rn, st)
            if st.dead:
                return UNDEF
            res = AND(res, self.compare(op, left, right, st, e))
            left = right
        return res

    def compare(self, op, a, b, st, node):
        if isinstance(op, (ast.In, ast.NotIn)):
            bb = self.freeze_seq(b, st)
            aa = self.freeze(a, st)
            if self.strict and any(btyp(x) in ('set', 'dict') for x in leaves(bb)):
                self.need(st, aa, canon.HASHABLE, 'TypeError', node)
            if st.dead:
                return UNDEF
            r = lift(lambda x, s: self.contains_t(x, s, st, node), aa, bb)
            return r if isinstance(op, ast.In) else NOT(r)
        if isinstance(op, (ast.Is, ast.IsNot)):
            def isf(x, y):
                if isconst(x) and (cval(x) is None or isinstance(cval(x), bool)) or isconst(y) and \
                        (cval(y) is None or isinstance(cval(y), bool)):
                    if x.op in ('ref', 'obj', 'class', 'func', 'closure', 'gen', 'module', 'ext', 'exc', 'bound') or \
                            y.op in ('ref', 'obj', 'class', 'func', 'closure', 'gen', 'module', 'ext', 'exc', 'bound'):
                        return FALSE
                    if typ(x) == 'bool' and isconst(y) and isinstance(cval(y), bool):
                        return eq(x, y)
                    if isconst(y) and isinstance(cval(y), bool) and not isconst(x):
                        return atomv(T('eq', x, y))
                    return eq(x, y)
                if x.op in ('ref', 'obj') and y.op in ('ref', 'obj'):
                    return TRUE if x is y else FALSE
                return eq(x, y)
            r = lift(isf, a, b)
            return r if isinstance(op, ast.Is) else NOT(r)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            aa, bb = self.freeze(a, st), self.freeze(b, st)
            r = lift(eq, aa, bb)
            return r if isinstance(op, ast.Eq) else NOT(r)
        aa, bb = self.freeze(a, st), self.freeze(b, st)
        if self.strict:
            for x, y in ((aa, bb), (bb, aa)):
                ks = set(btyp(t) for t in leaves(y))
                self.need(st, x, ('str',) if ks == {'str'} else ('list',) if ks == {'list'} else ('int', 'float', 'bool'),
                          'TypeError', node)
            if st.dead:
                return UNDEF
        if isinstance(op, ast.GtE):
            return lift(ge, aa, bb)
        if isinstance(op, ast.Lt):
            return NOT(lift(ge, aa, bb))
        if isinstance(op, ast.Gt):
            return lift(gt, aa, bb)
        return NOT(lift(gt, aa, bb))

    def contains_t(self, x, s, st, node):
        if s.op == 'struct' or s.op == 'obj':
            cn = s.args[1] if s.op == 'obj' else s.args[0]
        return contains(x, s)

    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        if st.dead:
            return UNDEF
        return self.binop(e.op, a, b, st, e)

    def binop(self, op, a, b, st, node):
        if isinstance(op, ast.Mod) and any(btyp(t) == 'str' for t in leaves(a)):
            return self.percent(a, b, st, node)
        if self.strict:
            for x, y in ((a, b), (b, a)):
                ks = set(btyp(t) for t in leaves(y))
                self.need(st, x, ('str',) if ks == {'str'} and isinstance(op, ast.Add) else
                          ('list',) if ks == {'list'} and isinstance(op, ast.Add) else ('int', 'float', 'bool'),
                          'TypeError', node)
            if st.dead:
                return UNDEF
        isref = any(t.op == 'ref' for t in leaves(a)) or any(t.op == 'ref' for t in leaves(b))
        fa, fb = self.deref(a, st), self.deref(b, st)
        f = {ast.Add: canon.add, ast.Sub: canon.sub, ast.Mult: canon.mul, ast.Div: canon.truediv,
             ast.FloorDiv: canon.floordiv, ast.Mod: canon.mod}.get(type(op))
        if isinstance(op, ast.Mult):
            f = self.mulf
        if f is None:
            if isinstance(op, ast.BitOr) and any(btyp(t) == 'set' for t in leaves(fa)):
                r = lift(lambda x, y: leaf(canon.union(x, y)), fa, fb)
                return self.new_ref(st, 'set', r)
            nm = type(op).__name__

            def f(x, y):
                if isconst(x) and isconst(y):
                    try:
                        v = {'BitAnd': lambda p, q: p & q, 'BitOr': lambda p, q: p | q, 'BitXor': lambda p, q: p ^ q,
                             'LShift': lambda p, q: p << q, 'RShift': lambda p, q: p >> q,
                             'Pow': lambda p, q: p ** q}[nm](cval(x), cval(y))
                        return leaf(const(v))
                    except Exception:
                        pass
                t = T('binop', nm, x, y)
                return leaf(t)
        r = lift(f, fa, fb)
        if any(btyp(t) in ('list', 'set') for t in leaves(r)):
            ks = set(btyp(t) for t in leaves(r))
            if len(ks) == 1:
                return self.new_ref(st, ks.pop(), r)
        return r

    def mulf(self, x, y):
        if y.op in ('list',) or x.op == 'list':
            s, n = (x, y) if x.op == 'list' else (y, x)
            if isconst(n) and isinstance(cval(n), int) and cval(n) * len(s.args) < 100:
                return leaf(T('list', *(s.args * cval(n))))
            return leaf(T('rep', s, n))
        return canon.mul(x, y)

    # string formatting
    def percent(self, a, b, st, node):
        args = self.freeze(b, st)

        def f(s, x):
            if not isconst(s):
                return leaf(T('strfmt', '%', s, x))
            xs = list(x.args) if x.op == 'tuple' else [x]
            parts = []
            import re as _re
            pos = 0
            txt = cval(s)
            if not isinstance(txt, str):
                return leaf(T('strfmt', '%', s, x))
            i = 0
            for m in _re.finditer(r'%(%|[-#0 +]*\d*(?:\.\d+)?[a-zA-Z]|\()', txt):
                parts.append(leaf(const(txt[pos:m.start()])))
                pos = m.end()
                sp = m.group(1)
                if sp == '%':
                    parts.append(leaf(const('%')))
                    continue
                if sp.startswith('(') or i >= len(xs):
                    return leaf(T('strfmt', '%', s, x))
                v = xs[i]
                i += 1
                if sp in ('s', 'd') and (sp == 's' or btyp(v) == 'int'):
                    parts.append(self.tostr(unbox(v)))
                else:
                    parts.append(leaf(canon.fmtterm('%', sp, v)))
            parts.append(leaf(const(txt[pos:])))
            return canon.catv(parts)
        return lift(f, a, args)

    def tostr(self, v):
        def f(t):
            if t.op == 'box':
                return lift(f, t.args[0])
            if btyp(t) == 'str' and not typ(t).startswith('?'):
                return leaf(t)
            if isconst(t) and isinstance(cval(t), (int, float, str, type(None), bool)):
                return leaf(const(str(cval(t))))
            return leaf(T('str', t))
        return lift(f, v)

    def format(self, s, args, kwargs):
        if not isconst(s):
            return leaf(T('strfmt', 'format', s, *[box(a) for a in args]))
        import string
        parts = []
        auto = 0
        try:
            items = list(string.Formatter().parse(cval(s)))
        except ValueError:
            return self.top('format')
        for lit, fld, spec, conv in items:
            if lit:
                parts.append(leaf(const(lit)))
            if fld is None:
                continue
            if fld == '':
                v = args[auto] if auto < len(args) else None
                auto += 1
            elif fld.isdigit():
                v = args[int(fld)] if int(fld) < len(args) else None
            else:
                v = kwargs.get(fld)
            if v is None:
                return leaf(T('strfmt', 'format', s, *[box(a) for a in args]))
            if spec or conv:
                if spec == 'd' and all(btyp(x) == 'int' for x in leaves(v)):
                    parts.append(self.tostr(v))
                else:
                    parts.append(lift(lambda x: leaf(canon.fmtterm(conv or '', spec or '', x)), v))
            else:
                parts.append(self.tostr(v))
        if not parts:
            return leaf(const(''))
        return canon.catv(parts)

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(leaf(const(v.value)))
            else:
                x = self.freeze(self.eval(v.value, st), st)
                if st.dead:
                    return UNDEF
                if v.format_spec is not None:
                    sp = ''.join(c.value for c in v.format_spec.values if isinstance(c, ast.Constant))
                    parts.append(lift(lambda y: leaf(canon.fmtterm('', sp, y)), x))
                elif v.conversion not in (-1, 115):
                    parts.append(lift(lambda y: leaf(canon.fmtterm(chr(v.conversion), '', y)), x))
                else:
                    parts.append(self.tostr(x))
        if not parts:
            return leaf(const(''))
        return canon.catv(parts)

    def e_Subscript(self, e, st):
        b = self.eval(e.value, st)
        if st.dead:
            return UNDEF
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(e.slice.lower, st) if e.slice.lower else NONE
            hi = self.eval(e.slice.upper, st) if e.slice.upper else NONE
            sp = self.eval(e.slice.step, st) if e.slice.step else NONE
            bb = self.deref(b, st)
            r = lift(lambda x, l, h, s: mkslice(x, l, h, s), bb, lo, hi, sp)
            if any(btyp(t) == 'list' for t in leaves(r)):
                return self.new_ref(st, 'list', r)
            return r
        k = self.freeze(self.eval(e.slice, st), st)
        return self.getitem_v(b, k, st, e)

    # comprehensions -------------------------------------------------------
    def e_ListComp(self, e, st):
        r = self.new_ref(st, 'list', T('list'))
        self.comp(e, e.generators, st, lambda s2: self.append_to(r.hi, self.eval(e.elt, s2), s2))
        return r if not st.dead else UNDEF

    def e_GeneratorExp(self, e, st):
        v = self.e_ListComp(e, st)
        if st.dead:
            return UNDEF
        return leaf(T('iter', box(self.deref(v, st))))

    def e_SetComp(self, e, st):
        r = self.new_ref(st, 'set', T('set'))

        def add(s2):
            x = self.freeze(self.eval(e.elt, s2), s2)
            if s2.dead:
                return
            s2.store[('I', r.hi)] = lift(lambda c, y: leaf(canon.sadd(c, y)), s2.store[('I', r.hi)], x)
        self.comp(e, e.generators, st, add)
        return r if not st.dead else UNDEF

    def e_DictComp(self, e, st):
        r = self.new_ref(st, 'dict', T('dict'))

        def add(s2):
            k = self.freeze(self.eval(e.key, s2), s2)
            v = self.eval(e.value, s2)
            if s2.dead:
                return
            s2.store[('I', r.hi)] = lift(lambda c, y: self.set_item_content(c, y, v), s2.store[('I', r.hi)], k)
        self.comp(e, e.generators, st, add)
        return r if not st.dead else UNDEF

    def append_to(self, ref, v, st):
        if st.dead:
            return
        st.store[('I', ref)] = lift(lambda c: leaf(lcat(c, T('list', box(v)))), st.store[('I', ref)])

    def comp(self, e, gens, st, leafbody):
        # comprehension variables live in their own frame
        fr = self.cur()
        cf = Frame(self.new(), None, fr.module, fr.cls)
        cf.parents = tuple([fr] + list(fr.parents))
        cf.self_term = fr.self_term
        cf.fn = None

        def rec(i, s2):
            if s2.dead:
                return
            if i == len(gens):
                leafbody(s2)
                return
            g = gens[i]
            it = self.eval(g.iter, s2)
            if s2.dead:
                return

            def body(s3):
                for c in g.ifs:
                    cc = self.cond(c, s3)
                    s4 = s3.fork(cc)
                    self.loopctl[-1].conts.append(s3.fork(NOT(cc)))
                    s3.become(s4)
                rec(i + 1, s3)
            self.for_over(it, lambda v, s3: self.assign(g.target, v, s3), e, body, None, s2)
        self.frames.append(cf)
        try:
            rec(0, st)
        finally:
            self.frames.pop()
        for k in [k for k in st.store if k[0] == 'L' and k[1] == cf.fid]:
            del st.store[k]

    def e_Yield(self, e, st):
        v = self.eval(e.value, st) if e.value is not None else NONE
        if st.dead:
            return UNDEF
        fr = self.cur()
        for f in [fr] + list(fr.parents):
            if f.on_yield is not None:
                f.on_yield(v, st)
                return self.top('yield result') if not st.dead else UNDEF
        h = self.hooks.get('yield')
        if h:
            h(v, st, e)
        return leaf(T('sent', e.lineno))

    def e_YieldFrom(self, e, st):
        it = self.eval(e.value, st)
        fr = self.cur()
        if st.dead:
            return UNDEF

        def body(v, s2):
            for f in [fr] + list(fr.parents):
                if f.on_yield is not None:
                    f.on_yield(v, s2)
                    return
            h = self.hooks.get('yield')
            if h:
                h(v, s2, e)
        vals = []
        self.for_over(it, lambda v, s2: body(v, s2), e, lambda s2: None, None, st)
        return NONE

    # -------------------------------------------------------------------- calls
    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and \
                isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == 'super':
            return self.super_call(e, st)
        # x.__dict__.update(d)
        if isinstance(e.func, ast.Attribute) and e.func.attr == 'update' and self.is_dict_attr(e.func.value) and \
                len(e.args) == 1 and not e.keywords:
            return self.dict_update(e, st)
        # spec intrinsics
        if isinstance(e.func, ast.Name) and e.func.id in self.intrinsics and self.spec_mode:
            return self.intrinsics[e.func.id](self, e, st)
        fv = self.eval(e.func, st)
        args, kwargs, ok = self.eval_args(e, st)
        if st.dead:
            return UNDEF
        if not ok:
            return self.top('star-args call', st)
        return self.call_v(fv, args, kwargs, st, e)

    @staticmethod
    def is_dict_attr(e):
        return isinstance(e, ast.Attribute) and e.attr == '__dict__'

    @staticmethod
    def known_attrs(t):
        bt = canon.btyp(t)
        return [k[1] for k in canon.ATTR_TYPES if len(k) == 2 and k[0] is not None and bt == 'obj:' + k[0]]

    def dict_update(self, e, st):
        base = self.eval(e.func.value.value, st)
        src = None
        if base.leaf and self.is_dict_attr(e.args[0]):
            src = self.eval(e.args[0].value, st)
        elif base.leaf:
            v = self.eval(e.args[0], st)
            if v.leaf and v.hi.op == 'attr' and v.hi.args[1] == '__dict__':
                src = leaf(v.hi.args[0])
        if src is not None:
            if st.dead:
                return UNDEF
            if src.leaf and src.hi.op == 'obj':
                for k, v in list(st.store.items()):
                    if k[0] == 'A' and k[1] is src.hi:
                        st.store[('A', base.hi, k[2])] = v
            elif src.leaf and self.known_attrs(src.hi):
                for n in self.known_attrs(src.hi):
                    v = st.store.get(('A', src.hi, n))
                    st.store[('A', base.hi, n)] = leaf(T('attr', src.hi, n)) if v is None else v
            else:
                src = self.freeze(src, st)
                for k in [k for k in st.store if k[0] == 'A' and k[1] is base.hi]:
                    del st.store[k]
                st.store[('A', base.hi, '__dict__')] = lift(lambda x: leaf(T('attr', x, '__dict__')), src)
            return NONE
        d = self.freeze(self.deref(self.eval(e.args[0], st), st), st)
        if st.dead:
            return UNDEF
        if not (base.leaf and d.leaf and d.hi.op == 'dict' and all(isconst(x) for x in d.hi.args[::2])):
            self.top('__dict__ changed')
            return NONE
        for i in range(0, len(d.hi.args), 2):
            self.setattr_v(base, cval(d.hi.args[i]), unbox(d.hi.args[i + 1]), st)
        return NONE

    def eval_args(self, e, st):
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.freeze_seq(self.eval(a.value, st), st)
                if st.dead:
                    return args, kwargs, True
                if v.leaf and v.hi.op in ('tuple', 'list'):
                    args += [unbox(x) for x in v.hi.args]
                elif v.leaf and self.arity(v.hi):
                    args += [self.unpack_item(v.hi, i) for i in range(self.arity(v.hi))]
                elif v.leaf:
                    args.append(leaf(T('star', v.hi)))
                else:
                    args.append(leaf(T('star', box(v))))
            else:
                args.append(self.eval(a, st))
        for k in e.keywords:
            if k.arg is None:
                v = self.freeze_seq(self.eval(k.value, st), st)
                if v.leaf and v.hi.op == 'dict' and all(isconst(x) for x in v.hi.args[::2]):
                    for i in range(0, len(v.hi.args), 2):
                        kwargs[cval(v.hi.args[i])] = unbox(v.hi.args[i + 1])
                else:
                    return args, kwargs, False
            else:
                kwargs[k.arg] = self.eval(k.value, st)
        return args, kwargs, True

    @staticmethod
    def arity(t):
        """declared length of a tuple, or None"""
        if t.op == 'elem' and t.args[0].op == 'call':
            return canon.CALL_TYPES.get(('elem', t.args[0].args[0], 'arity'))
        if t.op == 'call':
            return canon.CALL_TYPES.get((t.args[0], 'arity'))
        return None

    def super_call(self, e, st):
        fr = self.cur()
        f0 = fr
        for f in [fr] + list(fr.parents):
            if f.fn is not None and f.fn.cls is not None:
                f0 = f
                break
        args, kwargs, ok = self.eval_args(e, st)
        if st.dead:
            return UNDEF
        ci = f0.fn.cls if f0.fn is not None else None
        if ci is None or not ok:
            return self.top('super')
        name = e.func.attr
        # next in MRO of the *runtime* class after ci
        selfv = f0.self_term
        t = selfv.hi if selfv is not None and selfv.leaf else None
        start = ci
        if t is not None and t.op == 'obj' and t.args[1] in self.prog.classes:
            start = self.prog.classes[t.args[1]]
        mro = self.prog.mro(start)
        if ci not in mro:
            mro = self.prog.mro(ci)
        for c in mro[mro.index(ci) + 1:]:
            if isinstance(c, ClassInfo):
                if name in c.methods:
                    if c.methods[name].qual in self.opaque:
                        return self.call_opaque_fn(c.methods[name], c.methods[name].qual, [selfv] + args, kwargs, st, e)
                    return self.call_function(c.methods[name], [selfv] + args, kwargs, st, e)
            else:
                break
        if name == '__init__' and t is not None and t.op == 'obj' and self.prog.is_exception(t.args[1]):
            st.store[('A', t, 'args')] = leaf(T('tuple', *[box(x) for x in args]))
        return NONE

    def call_v(self, fv, args, kwargs, st, node):
        if st.dead:
            return UNDEF
        cs = cases(fv)
        if len(cs) == 1:
            return self.call_t(cs[0][1], args, kwargs, st, node)
        r = self.on_each(fv, st, lambda t, s2: self.call_t(t, args, kwargs, s2, node))
        return r if r is not None else UNDEF

    def call_t(self, f, args, kwargs, st, node):
        if st.dead:
            return UNDEF
        op = f.op
        if op == 'func':
            q = f.args[0]
            if q == 'gettext':
                return lift(lambda t: leaf(T('strm', 'gettext', t)) if not isconst(t) else leaf(t), args[0])
            return self.call_named(q, args, kwargs, st, node)
        if op == 'bound':
            return self.call_named(f.args[1], [leaf(f.args[0])] + args, kwargs, st, node)
        if op == 'closure':
            fi, parents = self.closures[f.args[0]]
            return self.call_function(fi, args, kwargs, st, node, parents)
        if op == 'class':
            return self.instantiate(f.args[0], args, kwargs, st, node)
        if op == 'meth':
            return self.call_method(f.args[0], f.args[1], args, kwargs, st, node)
        if op == 'ext':
            return self.call_ext(f.args[0], args, kwargs, st, node)
        if op == 'attr':
            return self.call_symbolic(f, args, kwargs, st, node)
        if op == 'const' and cval(f) is None:
            self.implicit(st, 'TypeError', node, TRUE)
            return UNDEF
        if op == 'undef':
            self.implicit(st, 'NameError', node, TRUE)
            return UNDEF
        # unknown callable value
        return self.opaque_call(T('callv', f), args, kwargs, st, node)

    def call_symbolic(self, f, args, kwargs, st, node):
        """method of an object whose class is not analysed"""
        recv, name = f.args
        if kwargs:
            args, kwargs = self.positional(name, args, kwargs)
        from .builtins_model import SYM
        h = SYM.get(recv.op)
        if h is not None and not kwargs:
            r = h(self, recv, name, args, st, node)
            if r is not None:
                return r
        fa = [self.freeze(a, st) for a in args]
        kw = sorted((k, self.freeze(v, st)) for k, v in kwargs.items())
        h = self.hooks.get('method')
        if h:
            r = h(self, recv, name, fa, dict(kw), st, node)
            if r is not None:
                return r
        mt = base_type(typ(recv))
        ty = canon.CALL_TYPES.get(('.' + name, mt)) or canon.CALL_TYPES.get('.' + name)
        ca = ['.' + name, recv] + fa + [x for k, v in kw for x in (const(('name', k)), v)]
        rc = canon.mkcall('call', ca, ty)
        self.record_events(ca, st, node, ty)
        cl = self.ext_raises.get('%s.%s' % (mt[4:], name) if mt and mt.startswith('obj:') else '.' + name) or \
            self.ext_raises.get('.' + name)
        for c in cl or ():
            self.raise_sink(st, self.exc(c), node, self.raise_atom(c, rc), via='implicit')
        if st.dead:
            return UNDEF
        return rc

    def positional(self, name, args, kwargs):
        """keyword arguments in the order on which all methods of that name agree"""
        lists = set()
        for ci in self.prog.classes.values():
            m = ci.methods.get(name)
            if m is not None:
                a = m.node.args
                if a.vararg or a.kwarg or a.kwonlyargs:
                    return args, kwargs
                lists.add(tuple(x.arg for x in a.args[0 if m.static else 1:]))
        if len(lists) != 1:
            return args, kwargs
        names = lists.pop()
        args, kwargs = list(args), dict(kwargs)
        while len(args) < len(names) and names[len(args)] in kwargs:
            args.append(kwargs.pop(names[len(args)]))
        return args, kwargs

    def raise_atom(self, c, call):
        return lift(lambda t: atomv(T('raises', c, t)), call)

    def record_events(self, args, st, node, ty=None):
        for c, t in canon.callcases('call', args, ty):
            self.record_event(t, st, node, c)

    def record_event(self, call, st, node, when=TRUE):
        self.events.append((AND(st.cond, when), call, node, self.loopstack[-1] if self.loopstack else None,
                            self.whereami()))

    def yield_event(self, v, st):
        self.record_events(['yield', self.freeze(v, st)], st, self.curstmt)
        for t in self.reachable(v, st):
            self.escapes.append((t, st.store[('I', t)], st.cond, self.curstmt, list(self.loopstack), self.whereami()))

    def reachable(self, v, st):
        """containers that can be reached from a value"""
        out, todo = [], list(leaves(v))
        seen = set()
        while todo:
            t = todo.pop()
            if t in seen or len(seen) > 200:
                continue
            seen.add(t)
            if ('I', t) in st.store and t.op not in ('gen', 'iter'):
                out.append(t)
                todo += leaves(st.store[('I', t)])
            if t.op in ('list', 'tuple', 'set', 'cat'):
                for a in t.args:
                    todo += leaves(unbox(a))
        return out

    deep = False

    def whole(self, v, st):
        """an object handed to other code goes with what was changed in it"""
        if not self.deep:
            return v

        def f(t):
            if isconst(t):
                return leaf(t)
            if t.op == 'gen':
                # what it will produce
                return lift(lambda q: leaf(T('iter', q)), self.freeze(self.freeze_seq(leaf(t), st), st))
            if t.op in ('list', 'tuple') and any(x.op == 'gen' for a in t.args for x in leaves(unbox(a))):
                return leaf(T(t.op, *[box(lift(f, unbox(a))) for a in t.args]))
            ch = []
            for k in st.store:
                if k[0] in ('A', 'I') and k[1].op in ('attr', 'item', 'call', 'elem', 'var'):
                    r = k[1]
                    while r is not t and r.op in ('attr', 'item', 'elem') and isinstance(r.args[0], Term):
                        r = r.args[0]
                    if r is t:
                        ch.append(k)
            if not ch:
                return leaf(t)
            out = []
            for k in sorted(ch, key=str):
                x = self.freeze(st.store[k], st, excl=frozenset([k[1]]) if k[0] == 'I' else frozenset())
                if not (x.leaf and x.hi is k[1]):
                    out += [box(leaf(k[1])), const(('name', k[2] if k[0] == 'A' else '')), box(x)]
            return leaf(T('changed', t, *out)) if out else leaf(t)
        return lift(f, v)

    def opaque_call(self, head, args, kwargs, st, node):
        fa = [self.whole(self.freeze(a, st), st) for a in args]
        rc = canon.mkcall('call', [head] + fa)
        self.record_events([head] + fa, st, node)
        return rc

    def call_named(self, q, args, kwargs, st, node):
        h = self.contracts.get(q)
        if h is not None and not (callable(getattr(h, 'applies', None)) and not h.applies(self)):
            r = h(self, args, kwargs, st, node)
            if r is not NotImplemented:
                return r
        fn = self.prog.func(q)
        if q in self.opaque:
            return self.call_opaque_fn(fn, q, args, kwargs, st, node)
        return self.call_function(fn, args, kwargs, st, node)

    def call_opaque_fn(self, fn, q, args, kwargs, st, node):
        # bind by parameter name so that call style does not matter
        fr = Frame(self.new(), fn, fn.module, fn.cls)
        s2 = St(st.cond, {})
        if not self.bind_args(fr, fn, args, kwargs, s2, node):
            self.implicit(st, 'TypeError', node, TRUE)
            return UNDEF
        a = fn.node.args
        vals = [s2.store[('L', fr.fid, x.arg)] for x in a.args + [y for y in (a.vararg, a.kwarg) if y is not None] + a.kwonlyargs]
        for k, v in s2.store.items():
            if k[0] == 'I':
                st.store.setdefault(k, v)
        fa = [self.whole(self.freeze(v, st), st) for v in vals]
        # keep argument leaves exposed when single, otherwise boxed
        call = canon.mkcall('call', [q] + fa)
        for c in self.raises.get(q, ()):
            self.raise_sink(st, self.exc(c), node, self.raise_atom(c, call), via=('opaque', q))
        self.record_events([q] + fa, st, node)
        if st.dead:
            return UNDEF
        return call

    def instantiate(self, q, args, kwargs, st, node):
        ci = self.prog.classes[q]
        h = self.contracts.get(q)
        if h is not None:
            r = h(self, args, kwargs, st, node)
            if r is not NotImplemented:
                return r
        if self.prog.is_exception(q):
            f = self.prog.find_method(ci, '__init__')
            vals = list(args)
            if f is not None:
                names = [x.arg for x in f.node.args.args][1:]
                nd = len(f.node.args.defaults)
                if kwargs or True:
                    full = []
                    rest = dict(kwargs)
                    bad = len(args) > len(names) and f.node.args.vararg is None
                    for i, n in enumerate(names):
                        if i < len(args):
                            full.append(args[i])
                        elif n in rest:
                            full.append(rest.pop(n))
                        elif i >= len(names) - nd:
                            full.append(self.eval_default(f, f.node.args.defaults[i - (len(names) - nd)], st))
                        else:
                            bad = True
                    if bad:
                        self.implicit(st, 'TypeError', node, TRUE)
                        return UNDEF
                    vals = full
            return leaf(T('exc', q, *[box(self.freeze(v, st)) for v in vals]))
        if self.prog.issub(q, 'enum.Enum'):
            return lift(lambda x: leaf(T('call', 'enumval', T('class', q), x)), args[0])
        if q in self.opaque:
            f = self.prog.find_method(ci, '__init__')
            if f is not None and not f.node.args.vararg and not any(a.leaf and a.hi.op == 'star' for a in args):
                fr = Frame(self.new(), f, f.module, f.cls)
                s2 = St(st.cond, {})
                if not self.bind_args(fr, f, [leaf(T('var', 'self', 'obj:' + q))] + list(args), kwargs, s2, node):
                    self.implicit(st, 'TypeError', node, TRUE)
                    return UNDEF
                for k, v in s2.store.items():
                    if k[0] == 'I':
                        st.store.setdefault(k, v)
                names = [x.arg for x in f.node.args.args[1:] + f.node.args.kwonlyargs + [f.node.args.kwarg] if x is not None]
                fa = [self.freeze(s2.store[('L', fr.fid, n)], st) for n in names]
            else:
                fa = [self.freeze(a, st) for a in args]
                for k in sorted(kwargs):
                    fa += [leaf(const(('name', k))), self.freeze(kwargs[k], st)]
            call = canon.mkcall('call', [q] + fa, 'obj:' + q)
            for c in self.raises.get(q, ()):
                self.raise_sink(st, self.exc(c), node, self.raise_atom(c, call), via=('opaque', q))
            self.record_events([q] + fa, st, node, 'obj:' + q)
            return UNDEF if st.dead else call
        o = T('obj', self.new(), q)
        f = self.prog.find_method(ci, '__init__')
        if f is not None:
            self.call_function(f, [leaf(o)] + args, kwargs, st, node)
            if st.dead:
                return UNDEF
        elif args or kwargs:
            if not any(not isinstance(b, ClassInfo) and b != 'object' for b in self.prog.mro(ci)):
                self.implicit(st, 'TypeError', node, TRUE)
        return leaf(o)

    # ------------------------------------------------------ builtin methods
    def call_method(self, recv, name, args, kwargs, st, node):
        from . import builtins_model as bm
        return bm.method(self, recv, name, args, kwargs, st, node)

    def call_ext(self, name, args, kwargs, st, node):
        from . import builtins_model as bm
        return bm.external(self, name, args, kwargs, st, node)

    # ------------------------------------------------------------------- roots
    def run(self, fn, params, st=None, spec=False, yields=None, consume=False):
        """analyse function fn with the given parameter values (dict name->V).
        Returns Result."""
        st = st or St()
        sinks = []
        saved = (self.handlers, self.loops, self.clauses, self.events, self.loopstack, self.loopctl, self.frames)
        self.handlers, self.loops, self.clauses, self.events = [sinks], [], [], []
        self.loopstack, self.loopctl, self.frames = [], [], []
        esc, self.escapes, cop, self.copies, noa, self.noattr = self.escapes, [], self.copies, [], self.noattr, []
        self.spec_mode += 1 if spec else 0
        res = Result()
        try:
            fr = Frame(self.new(), fn, fn.module, fn.cls)
            res.fid = fr.fid
            if yields is None and fn.is_gen:
                yields = self.yield_event
            if yields is not None:
                fr.on_yield = yields
            args = dict(params)
            self.frames.append(fr)
            ok = self.bind_args(fr, fn, [], args, st, fn.node)
            if not ok:
                raise AnalysisBroken('cannot bind parameters of %s' % fn.qual)
            self.frames.pop()
            for x, ty in ((fn.node.args.vararg, 'tuple'), (fn.node.args.kwarg, 'dict')):
                if x is not None and x.arg not in params:
                    st.store[('L', fr.fid, x.arg)] = leaf(T('var', x.arg, ty))
            # keep individual return sinks
            self.frames.append(fr)
            try:
                if isinstance(fn.node, ast.Lambda):
                    v = self.eval(fn.node.body, st)
                    if not st.dead:
                        fr.returns.append((St(st.cond, st.store), v))
                else:
                    self.exec_block(fn.node.body, st)
                    if not st.dead:
                        fr.returns.append((St(st.cond, st.store), NONE))
                    if consume and fr.returns and all(v.leaf and v.hi.op == 'gen' for s, v in fr.returns):
                        # a function that hands out a generator made by another
                        outs, fr.returns = fr.returns, []
                        for s, v in outs:
                            self.run_gen(v.hi.args[0], s, self.yield_event)
                            if not s.dead:
                                fr.returns.append((s, NONE))
            finally:
                self.frames.pop()
            res.returns = [(s, v) for s, v in fr.returns if not s.dead]
            res.raises = sinks
            res.loops = self.loops
            res.clauses = self.clauses
            res.events = self.events
            res.escapes, res.copies, res.noattr = self.escapes, self.copies, self.noattr
            K = ('R', 'root')
            for s, v in res.returns:
                s.store[K] = v
            m = merge([s for s, v in res.returns])
            res.value = m.store.pop(K, UNDEF)
            for s, v in res.returns:
                s.store.pop(K, None)
            res.final = m
        finally:
            self.spec_mode -= 1 if spec else 0
            self.escapes, self.copies, self.noattr = esc, cop, noa
            (self.handlers, self.loops, self.clauses, self.events, self.loopstack, self.loopctl,
             self.frames) = saved
        res.interp = self
        return res

    intrinsics = {}

    def i_violates(self, e, st):
        c = self.cond(e.args[0], st)
        cls = []
        for a in e.args[1:]:
            r = self.prog.resolve_static(self.cur().module, a)
            if isinstance(r, ClassInfo):
                cls.append(r.qual)
            elif isinstance(r, str):
                cls.append(norm_ext(r))
            else:
                raise AnalysisBroken('rule names unknown error %s' % ast.dump(a))
        props = None
        for k in e.keywords:
            if k.arg == 'p':
                props = tuple(cval_const(k.value).split())
        self.clauses.append(Clause(self.loopstack[-1] if self.loopstack else None, AND(st.cond, c), tuple(cls), e,
                                   'violates', props, st))
        return NONE


def cval_const(n):
    return n.value


def i_also(self, e, st):
    """evaluate a call whose refusals are independent of the other rules"""
    c0 = st.cond
    v = self.eval(e.args[0], st)
    if not st.dead:
        st.cond = c0
    return v


def i_record(self, e, st):
    cls = e.args[0].value
    fl = []
    for k in sorted(e.keywords, key=lambda k: k.arg):
        fl += [k.arg, box(self.freeze(self.eval(k.value, st), st))]
    return leaf(T('struct', cls, *fl))


Interp.intrinsics = {'record': i_record, 'violates': lambda self, e, st: self.i_violates(e, st), 'also': i_also}


class Result(object):
    pass


def eqlen(x, n):
    return lift(lambda l: eq(l, const(n)), mklen(x))


def join_types(tys):
    tys = list(dict.fromkeys(tys))
    if not tys:
        return None
    if None in tys:
        return None
    nul = any(t == 'none' or t.startswith('?') for t in tys)
    bs = set(base_type(t) for t in tys if t != 'none')
    if len(bs) == 1:
        b = bs.pop()
        return '?' + b if nul else b
    if not bs:
        return None
    return None


def norm_ext(name):
    if name.startswith('builtins.'):
        name = name[9:]
    return EXTNORM.get(name, name)


EXT_RAISES = {
    'jws.decode': ('jwt.exceptions.DecodeError',),
    'pubkey.verify': ('cryptography.exceptions.InvalidSignature',),
}
