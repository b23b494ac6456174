"""Compares the gated value graph of a repository function with the one of its
rule (a specification function evaluated by the same interpreter).

Levels are the function body and every loop body.  Carried variables of matched
loops are put into correspondence by optimistic partition refinement (the usual
global value numbering fixpoint).  Then, per level:

 A  nothing the rule forbids reaches the accepting continuation,
 B  every error raised is one the rule raises in that situation,
 C  results, carried state and final observable state agree on acceptance,
 D  early exits happen exactly where the rule has them.
"""
import ast
import os

from . import canon
from .canon import Subst, vterms, eq, sat, subterms, typ, isconst, prune
from .dd import (T, V, Term, const, leaf, TRUE, FALSE, NONE, UNDEF, ite, NOT, AND, OR, atomv, lift, box, unbox,
                 leaves, restrict, Blowup, showv, show, atoms, where)


# constructs that are certainly not synonyms of anything a rule uses
DISTINCT = set(['floordiv', 'ceildiv', '.hexdigest', '.digest', ('strm', 'lower'), ('strm', 'upper'), ('strm', 'strip'), ('strm', 'lstrip'),
                ('strm', 'rstrip'), ('strm', 'title'), ('strm', 'casefold'), ('strm', 'swapcase'), 'hashlib.sha1',
                'hashlib.md5', 'hashlib.sha512', 'hashlib.sha384', 'hashlib.sha224', 'hash', 'abs', 'id', 'len', 'sum',
                'raises', 'math.floor', 'math.ceil', '.lower', '.upper', '.strip'])
DISTINCT_PREFIX = ('cryptography.hazmat.primitives.hashes.', 'cryptography.hazmat.primitives.ciphers.modes.',
                   'cryptography.hazmat.primitives.ciphers.algorithms.', 'cryptography.hazmat.primitives.asymmetric.')
HEADED = ('call',)


def heads(ts):
    out = set()
    for t in ts:
        if t.op == 'call':
            out.add(t.args[0] if isinstance(t.args[0], str) else 'callv')
        elif t.op == 'strm':
            out.add(('strm', t.args[0]))
        elif t.op == 'struct':
            out.add(('struct', t.args[0]))
        elif t.op in ('floordiv', 'ceildiv'):
            out.add(t.op)
    return out


class Finding(object):
    def __init__(self, kind, props, where, text, cond=None, undetermined=None):
        self.kind, self.props, self.where, self.text, self.cond = kind, props, where, text, cond
        self.undetermined = undetermined
        self.live = None
        self.orig = cond

    def __str__(self):
        return '[%s] %s: %s' % (self.kind, self.where, self.text)


class Clause(object):
    def __init__(self, loop, cond, classes, node, props, auto, fn=None):
        self.loop, self.cond, self.classes, self.node, self.props, self.auto = loop, cond, classes, node, props, auto
        self.fn = fn
        self.scond = None


def loc(fn, node):
    path = fn.module.path if fn is not None else '?'
    if '/repo' in path:
        path = path[path.index('/repo') + 6:]
    return '%s:%s%s' % (path, getattr(node, 'lineno', '?'), ' in ' + fn.qual if fn is not None else '')


def neqv(a, b):
    """condition under which two values differ"""
    if a is b:
        return FALSE

    def f(x, y):
        if x is y:
            return FALSE
        if x.op == y.op and x.op in ('dupd', 'todict') and len(x.args) == len(y.args):
            return OR(*[neqv(leaf(p), leaf(q)) for p, q in zip(x.args, y.args) if p is not q])
        if x.op == y.op and x.op in ('tuple', 'list') and len(x.args) == len(y.args):
            return OR(*[neqv(unbox(p), unbox(q)) for p, q in zip(x.args, y.args)])
        if x.op == y.op == 'dict' and all(isconst(k) for k in x.args[::2] + y.args[::2]):
            dx, dy = dict(zip(x.args[::2], x.args[1::2])), dict(zip(y.args[::2], y.args[1::2]))
            if set(dx) != set(dy):
                return TRUE
            return OR(*[neqv(unbox(dx[k]), unbox(dy[k])) for k in dx])
        if x.op == y.op and x.op in ('dset', 'sadd') and x.args[0] is y.args[0]:
            return OR(*[neqv(unbox(p), unbox(q)) for p, q in zip(x.args[1:], y.args[1:])])
        if x.op == y.op == 'cat' and len(x.args) == len(y.args) and all(
                p is q or p.op == q.op == 'list' and len(p.args) == len(q.args) for p, q in zip(x.args, y.args)):
            return OR(*[neqv(leaf(p), leaf(q)) for p, q in zip(x.args, y.args) if p is not q])
        if x.op == y.op == 'map' and x.args[0] is y.args[0]:
            return neqv(unbox(x.args[1]), unbox(y.args[1]))
        if x.op == y.op == 'struct':
            if x.args[0] != y.args[0]:
                return TRUE
            fx = dict(zip(x.args[1::2], x.args[2::2]))
            out = FALSE
            for n, q in zip(y.args[1::2], y.args[2::2]):
                if n not in fx:
                    return TRUE
                out = OR(out, neqv(unbox(fx[n]), unbox(q)))
            return out
        return NOT(eq(x, y))
    return lift(f, a, b)


def bag(v):
    def f(t):
        if t.op == 'cat':
            return leaf(T('cat', *sorted(t.args, key=lambda x: x.id if hasattr(x, 'id') else str(x))))
        return leaf(t)
    return lift(f, v)


class Joint(object):
    """several exits of a loop that together stand for one of the rule"""

    def __init__(self, rel, res, xs):
        self.cond = OR(*[x.cond for x in xs])
        self.kind = xs[0].kind if len(set(x.kind for x in xs)) == 1 else None
        self.where, self.node = xs[0].where, xs[0].node
        r = None
        for x in reversed(xs):
            v = rel.frozen(res, x.st, x.val)
            r = v if r is None else ite(x.cond, v, r)
        self.frozen = r


class Relation(object):
    def __init__(self, prog, fn, impl, spec, specfn, state=(), classprops=None, default=(), values=True, keyprops=None,
                 quiet_raises=(), soft=(), derive=True, onlyclasses=None, events=(), eventprops=None,
                 excstate=(), late=None):
        self.late = late                      # effects that must not come before a refusal
        self.excstate = tuple(excstate)       # exceptions after which the object is used on
        self.prog, self.fn, self.impl, self.spec, self.specfn = prog, fn, impl, spec, specfn
        self.state = list(state)              # observable final keys: functions key->props
        self.classprops = dict(classprops or {})
        self.default = tuple(default)
        self.values = values
        self.keyprops = keyprops or {}
        self.findings = []
        self.map = {}
        self.pairs = []
        self.obligations = 0
        self.discharged = 0
        self.nreps = 0
        self.unmatched_impl = set()
        self.notes = []
        self.repinfo = {}
        # a bare Exception marks an assertion; C15 decides that none can fire on input
        self.quiet_raises = set(quiet_raises) | {'Exception', 'AssertionError'}
        self.forced = {}
        self.onlyclasses = onlyclasses
        self.events = list(events)
        self.eventprops = eventprops
        self.log = []
        self.lost = False
        self.seqdiff = []
        self.idents, self.upident = {}, {}
        self.ident = {}

    # ------------------------------------------------------------------
    def escaping(self, res):
        esc = set()
        for s in res.raises:
            x = s
            while isinstance(x.via, tuple) and x.via[0] == 'inloop':
                x = x.via[1]
                esc.add(id(x))
        return esc

    def collect(self):
        sp = self.spec
        cl = []
        for c in sp.clauses:
            cl.append(Clause(c.loop, c.cond, c.classes, c.node, c.extra or self.props_of(c.classes), False))
        esc = self.escaping(sp)
        for s in sp.raises:
            if isinstance(s.via, tuple) and s.via[0] == 'inloop':
                continue
            cl.append(self.auto(s, None))
        for l in sp.loops:
            for x in l.exits:
                if x.kind == 'raise':
                    if isinstance(x.via, tuple) and x.via[0] == 'inloop':
                        continue
                    cl.append(self.auto(x, l))
        self.clauses = cl
        for c in cl:
            if not c.auto:
                for k in c.classes:
                    self.classprops.setdefault(k, [])
                    for q in c.props:
                        if q not in self.classprops[k]:
                            self.classprops[k] = list(self.classprops[k]) + [q]

    def auto(self, s, loop):
        cls = tuple(sorted(set(self.exc_class(t) or '?' for t in leaves(s.val))))
        return Clause(loop, s.cond, cls, s.node, self.props_of(cls), True, s.where)

    def exc_class(self, t):
        return self.impl.interp.exc_class(t)

    def props_of(self, classes):
        p = []
        for c in classes:
            for q in self.classprops.get(c, ()):
                if q not in p:
                    p.append(q)
        return tuple(p) or self.default

    # ---------------------------------------------------------------- main
    def vocabulary(self):
        sp = self.spec
        vs = [sp.interp.freeze(v, s) for s, v in sp.returns] + [v for s, v in sp.returns] + [s.cond for s, v in sp.returns] + [c.cond for c in sp.clauses] + \
            [s.cond for s in sp.raises] + [x for s, v in sp.returns for x in s.store.values()] + \
            list(sp.final.store.values())
        for l in sp.loops:
            vs += [l.cont] + [x for i, (k, a, b, t) in l.vars.items() for x in (a, b)]
            vs += [x.cond for x in l.exits] + list(l.end.store.values()) + list(l.pre.store.values())
            vs += [x.val for x in l.exits if x.val is not None]
            for x in l.exits:
                vs += list(x.st.store.values())
        ts = set()
        for v in vs:
            if isinstance(v, V):
                ts |= vterms(v)
        for c, call, n, lo, w in sp.events:
            ts |= subterms(call)
        self.vocab = heads(ts) | set(q for q in self.prog_quals()) | set(self.events)
        for n in ast.walk(self.specfn.node):
            if isinstance(n, (ast.Attribute, ast.Name)):
                ci = self.prog.resolve_static(self.specfn.module, n)
                if type(ci).__name__ == 'ClassInfo':
                    self.vocab.add(('struct', ci.qual))

    def prog_quals(self):
        for c in self.impl.interp.opaque:
            yield c
        for c in self.impl.interp.contracts:
            yield c

    def run(self):
        self.collect()
        self.vocabulary()
        self.impl_esc = self.escaping(self.impl)
        self.il = {None: [l for l in self.impl.loops if l.parent is None]}
        self.sl = {None: [l for l in self.spec.loops if l.parent is None]}
        for l in self.impl.loops:
            self.il[l.id] = [m for m in self.impl.loops if m.parent is not None and m.parent.id == l.id]
        for l in self.spec.loops:
            self.sl[l.id] = [m for m in self.spec.loops if m.parent is not None and m.parent.id == l.id]
        for l in self.impl.loops:
            self.inevitable(l)
        self.match(None, None)
        self.level(None, None)
        for a, b in self.pairs:
            self.level(a, b)
        self.prune_findings()
        return self

    def inevitable(self, l):
        """a loop that is left only to raise an error behind it raises that error"""
        while True:
            xs = [x for x in l.exits if x.kind != 'raise']
            if not xs:
                return
            n = len(xs) - 1
            a = T('exits', l.id, n)
            p = l.parent
            if p is None:
                go, sinks = [st.cond for st, v in self.impl.returns], self.impl.raises
            else:
                go, sinks = [p.cont] + [x.cond for x in p.exits if x.kind != 'raise'], [x for x in p.exits if x.kind == 'raise']
            if any(sat(AND(self.s(c), atomv(a))) is not False for c in go):
                return
            hit = [s for s in sinks if sat(AND(self.s(s.cond), atomv(a))) is not False]
            if not hit or any(s.via is not None for s in hit) or \
                    len(set(self.exc_class(t) for s in hit for t in leaves(s.val))) != 1:
                return
            x = xs[n]
            l.exits.remove(x)
            l.exits.append(type(x)(x.st, hit[0].val, hit[0].node, x.loop, 'raise', None, hit[0].where))
            self.map[a] = FALSE

    def sub(self):
        return Subst(self.map)

    def s(self, v):
        return self.sub().value(v)

    # ------------------------------------------------------ loop matching
    def match(self, a, b):
        la = list(self.il[a.id if a else None])
        lb = list(self.sl[b.id if b else None])
        la.sort(key=lambda l: l.id)
        lb.sort(key=lambda l: l.id)
        used = set()
        light = {x.id for x in la if self.bare(self.impl, self.il, x)}
        slight = {x.id for x in lb if self.bare(self.spec, self.sl, x)}
        for l in la:
            sq = self.sub().term(l.seq) if l.seq is not None else None
            best = None
            # a loop that only collects values leaves the loops that do more to each other
            later = [x for x in la if x.id > l.id and x.id not in light and x.seq is l.seq] if l.id in light else ()
            for m in lb:
                if m.id in used:
                    continue
                if later and m.id not in slight and len([x for x in lb if x.id not in used and x.id not in slight
                                                         and x.seq is m.seq]) <= len(later):
                    continue
                mq = self.sub().term(m.seq) if m.seq is not None else None
                if (sq is None) != (mq is None):
                    continue
                if self.searches(l) != self.searches(m) and (self.bare(self.impl, self.il, l) or self.bare(self.spec, self.sl, m)):
                    continue
                if l.id in light and isinstance(l.node, (ast.GeneratorExp, ast.ListComp, ast.SetComp)) and any(c.loop is m for c in self.clauses) \
                        and not any(e.kind == 'raise' for e in l.exits):
                    # a test over a whole sequence is not the loop that refuses single elements
                    continue
                if sq is None or sq is mq or sq.leaf and mq.leaf and canon.setbase(sq.hi) is not None and \
                        canon.setbase(sq.hi) is canon.setbase(mq.hi):
                    best = m
                    break
            if best is None and sq is not None and sq.leaf and self.callhead(l.seq) is not None:
                # the only remaining loops over a result of the same function
                h = self.callhead(l.seq)
                c1 = [x for x in la if x.seq is not None and self.callhead(x.seq) == h]
                c2 = [x for x in lb if x.seq is not None and self.callhead(x.seq) == h]
                if len(c1) == len(c2):
                    x = c2[c1.index(l)]
                    if x.id not in used:
                        best = x
                        self.seqdiff.append((l, x))
            if best is None:
                self.unmatched(l)
                continue
            used.add(best.id)
            l.unmatched = best.unmatched = False
            self.unify(l, best)
            self.pairs.append((l, best))
            self.match(l, best)
        for m in lb:
            if m.id not in used:
                self.notes.append('rule loop over %s has no counterpart' % (show(m.seq) if m.seq else 'while'))
                m.unmatched = True
                for i in m.vars:
                    self.unmatched_impl.add((m.id, i))
                self.domain(a, b, m)
                self.never(m)
                self.silent(m)

    def callhead(self, seq):
        v = self.sub().term(seq)
        if v.leaf and v.hi.op == 'range':
            return 'range'
        return v.hi.args[0] if v.leaf and v.hi.op == 'call' and isinstance(v.hi.args[0], str) else None

    def never(self, m):
        """a rule loop without counterpart refuses something: does the code refuse it anywhere?"""
        have = set()
        for s in self.impl.raises + [x for l in self.impl.loops for x in l.exits if x.kind == 'raise']:
            for t in leaves(s.val):
                have.add(self.exc_class(t))
        inner, todo = set(), [m]
        while todo:
            x = todo.pop()
            inner.add(x.id)
            todo += self.sl[x.id]
        if None in have or '?' in have:
            return
        for c in self.clauses:
            if c.loop is not None and c.loop.id in inner and not c.auto and not any(
                    k in have or any(h and self.prog.issub(h, k) for h in have) for k in c.classes):
                self.obligations += 1
                self.findings.append(Finding('A', c.props, loc(self.fn, self.fn.node),
                                             'never refuses with %s' % '/'.join(x.split('.')[-1] for x in c.classes)))

    def silent(self, m):
        """a rule loop without counterpart has effects: does the code have them anywhere?"""
        have = set(t.args[0] for c, t, n, lo, w in self.impl.events)
        inner, todo = set(), [m]
        while todo:
            x = todo.pop()
            inner.add(x.id)
            todo += self.sl[x.id]
        if self.impl.interp.notes - {'yield result'}:
            return
        for h in self.events:
            for c, t, n, lo, w in self.spec.events:
                if t.args[0] == h and h not in have and lo is not None and lo.id in inner and sat(self.s(AND(c, m.pre.cond))):
                    self.obligations += 1
                    self.findings.append(Finding('E', self.eventprops or self.default, loc(self.fn, self.fn.node),
                                                 'effect %s of the rule never happens' % h.lstrip('.')))
                    break

    def events_in(self, res, inner, l):
        ids, todo = set(), [l]
        while todo:
            x = todo.pop()
            ids.add(x.id)
            todo += inner[x.id]
        return set(t.args[0] for c, t, n, lo, w in res.events if lo is not None and lo.id in ids and t.args[0] in self.events)

    def domain(self, a, b, m):
        """a rule loop without counterpart: does the code walk a part of it?"""
        if m.seq is None:
            return
        mq = self.sub().term(m.seq)
        if not mq.leaf:
            return
        mq = mq.hi
        for l in self.il[a.id if a else None]:
            if getattr(l, 'unmatched', False) and l.seq is not None:
                q = self.sub().term(l.seq)
                if not q.leaf:
                    continue
                q = q.hi
                if q.op == mq.op and q.op in ('item', 'attr') and len(q.args) == len(mq.args) and q.args[0] is mq.args[0] and \
                        q.args[1] != mq.args[1] and (q.op == 'attr' or canon.isconst(q.args[1]) and canon.isconst(mq.args[1])) and \
                        self.events_in(self.impl, self.il, l) & self.events_in(self.spec, self.sl, m):
                    self.findings.append(Finding('D', tuple(dict.fromkeys(self.loop_props(m) + tuple(self.default))), loc(l.fn.fn if l.fn else None, l.node),
                                                 'walks %s where the rule walks %s' % (show(q), show(mq))))
                if q.op in ('slice', 'fmap') and q.args[0] is mq or \
                        q.op in ('rev', 'sorted', 'toset') and q.args[0] is mq and canon.btyp(mq) != 'set':
                    self.findings.append(Finding('D', tuple(dict.fromkeys(self.loop_props(m) + tuple(self.default))), loc(l.fn.fn if l.fn else None, l.node),
                                                 'walks %s where the rule walks %s' % (show(q), show(mq))))

    def loop_props(self, m):
        ps = []
        for c in self.clauses:
            if c.loop is m:
                for q in c.props:
                    if q not in ps:
                        ps.append(q)
        return tuple(ps) or self.default

    def unmatched(self, l):
        self.notes.append('loop at %s has no counterpart in the rule' % loc(l.fn.fn if l.fn else None, l.node))
        for i, (k, init, step, ty) in l.vars.items():
            self.unmatched_impl.add((l.id, i))
        l.unmatched = True
        for m in self.il[l.id]:
            self.unmatched(m)

    def frozen(self, res, st, v):
        if v is None:
            return UNDEF
        return res.interp.freeze(v, st) if st is not None else v

    def trial(self, l, m, mp):
        """the map that results for the loops inside l and m when mp holds outside"""
        if not self.il[l.id] or not self.sl[m.id]:
            return mp
        keep = (self.map, set(self.unmatched_impl), list(self.pairs), list(self.notes), list(self.findings),
                self.obligations, self.discharged, list(self.log))
        self.map = dict(mp)
        sd = list(self.seqdiff)
        self.match(l, m)
        out = self.map
        self.seqdiff = sd
        (self.map, self.unmatched_impl, self.pairs, self.notes, self.findings,
         self.obligations, self.discharged, self.log) = keep
        return out

    def unify(self, l, m):
        """partition refinement over the carried variables of l and m"""
        vs = []
        for side, lp, res in (('i', l, self.impl), ('s', m, self.spec)):
            for i, (k, init, step, ty) in sorted(lp.vars.items()):
                init = self.s(self.frozen(res, lp.pre, init))
                step = self.frozen(res, lp.end, step) if not lp.end.dead else UNDEF
                vs.append([side, lp, i, k, init, step, ty])
        # initial partition
        cls = {}
        part = []
        for n, v in enumerate(vs):
            key = v[4].id
            cls.setdefault(key, []).append(n)
        groups = list(cls.values())
        cont_i, cont_s = l.cont, m.cont
        while True:
            mp = dict(self.map)
            reps = {}
            for g, grp in enumerate(groups):
                tys = [vs[n][6] for n in grp if vs[n][6]]
                ty = None
                if tys:
                    ty = tys[0]
                    for t in tys:
                        if not t.startswith('?'):
                            ty = ty
                rep = (m.id, g)
                for n in grp:
                    side, lp, i, k, init, step, t = vs[n]
                    mp[T('mu', lp.id, i, t)] = leaf(T('mu', 'P%d' % m.id, g, ty))
                    mp[T('out', lp.id, i, t)] = leaf(T('out', 'P%d' % m.id, g, ty))
            sb = Subst(self.trial(l, m, mp))
            bad = OR(*[sb.value(c.cond) for c in self.clauses if c.loop is m])
            acc = prune(AND(sb.value(cont_i), sb.value(cont_s), NOT(bad)))
            newg = []
            split = False
            for grp in groups:
                subs = []
                for n in grp:
                    st = restrict(sb.value(vs[n][5]), acc) if acc is not FALSE else sb.value(vs[n][5])
                    for sg in subs:
                        if st is sg[0] or sat(AND(acc, neqv(st, sg[0]))) is False:
                            sg[1].append(n)
                            break
                    else:
                        subs.append((st, [n]))
                if len(subs) > 1:
                    split = True
                newg += [x[1] for x in subs]
            groups = newg
            if not split:
                break
        # variables that are functions of matched ones
        derived = set()
        both = [g for g, grp in enumerate(groups) if len(set(vs[n][0] for n in grp)) == 2]
        for g, grp in enumerate(groups):
            if g in both:
                continue
            x = vs[grp[0]]
            for h in both + [k for k in range(len(groups)) if k not in both]:
                if h == g or h in derived:
                    continue
                y = vs[groups[h][0]]
                y0 = y[4]
                if not y0.leaf or isconst(y0.hi) or y0.hi.op == 'undef':
                    continue
                if not any(t is y0.hi for t in vterms(x[4])):
                    continue
                ry = None
                for k, v in mp.items():
                    if k.op == 'mu' and k.args[0] == y[1].id and k.args[1] == y[2]:
                        ry = v
                ro = None
                for k, v in mp.items():
                    if k.op == 'out' and k.args[0] == y[1].id and k.args[1] == y[2]:
                        ro = v
                expr = Subst({y0.hi: ry}).value(x[4])
                gm = dict(mp)
                for n in grp:
                    gm[T('mu', vs[n][1].id, vs[n][2], vs[n][6])] = expr
                    gm[T('out', vs[n][1].id, vs[n][2], vs[n][6])] = Subst({ry.hi: ro}).value(expr)
                sb2 = Subst(gm)
                bad2 = OR(*[sb2.value(c.cond) for c in self.clauses if c.loop is m])
                acc2 = prune(AND(sb2.value(cont_i), sb2.value(cont_s), NOT(bad2)))
                d = neqv(sb2.value(x[5]), Subst({ry.hi: sb2.value(y[5])}).value(expr))
                if sat(AND(acc2, d)) is False:
                    mp = gm
                    derived.add(g)
                    break
        # a value known in closed form on one side is known for its whole class
        sbc = Subst(mp)
        for g, grp in enumerate(groups):
            for n in grp:
                lp, k = vs[n][1], vs[n][3]
                if k in lp.closed:
                    cf = sbc.value(self.frozen(self.impl if vs[n][0] == 'i' else self.spec, lp.pre, lp.closed[k]))
                    for q in grp:
                        mp[T('out', vs[q][1].id, vs[q][2], vs[q][6])] = cf
                    break
            cores = {}
            for n in grp:
                c = vs[n][1].core.get(vs[n][3])
                if c is not None:
                    cores.setdefault(vs[n][0], c)
            if len(cores) == 2 and cores['i'][0] == cores['s'][0] and cores['i'][1] is not cores['s'][1]:
                r = sbc.term(cores['s'][1])
                if cores['i'][1].op not in ('elem', 'var', 'attr') and cores['i'][1] is not l.seq:
                    mp[cores['i'][1]] = r
        # commit
        self.map = mp
        l.reps, m.reps = {}, {}
        un_i, un_s = [], []
        for g, grp in enumerate(groups):
            sides = set(vs[n][0] for n in grp)
            for n in grp:
                side, lp, i, k, init, step, t = vs[n]
                lp.reps[i] = g
                if len(sides) == 1 and g not in derived:
                    (un_i if side == 'i' else un_s).append(vs[n])
        l.mate, m.mate = m, l
        l.un, m.un = un_i, un_s
        for v in un_i:
            self.unmatched_impl.add(('P%d' % m.id, l.reps[v[2]]))
        for v in un_s:
            self.unmatched_impl.add(('P%d' % m.id, m.reps[v[2]]))
        m.unmatched_reps = set(m.reps[v[2]] for v in un_s)
        self.log.append('loop %s ~ rule loop: %d carried variables, %d classes' % (
            loc(l.fn.fn if l.fn else None, l.node), len(vs), len(groups)))
        # exits
        self.exits(l, m)

    def exits(self, l, m):
        xi = [(n, x) for n, x in enumerate([x for x in l.exits if x.kind != 'raise'])]
        xs = [(n, x) for n, x in enumerate([x for x in m.exits if x.kind != 'raise'])]
        bad = OR(*[self.s(c.cond) for c in self.clauses if c.loop is m])
        left = list(xi)
        l.exitpairs = []
        m.exitleft = []
        if len(xi) == 1 and len(xs) > 1:
            # one exit standing for several of the rule
            xc = AND(self.s(xi[0][1].cond), NOT(bad))
            ys = [(n, y) for n, y in xs if sat(AND(AND(self.s(y.cond), NOT(bad)), NOT(xc))) is False]
            if len(ys) > 1:
                reps = []
                for n, y in ys:
                    reps.append(atomv(T('exits', 'P%d' % m.id, n)))
                    self.map[T('exits', m.id, n)] = reps[-1]
                self.map[T('exits', l.id, xi[0][0])] = OR(*reps)
                l.exitpairs.append((xi[0][1], Joint(self, self.spec, [y for _, y in ys])))
                left = []
                xs = [y for y in xs if y not in ys]
        for n, y in xs:
            yc = AND(self.s(y.cond), NOT(bad))
            hit = None
            for p in left:
                xc = AND(self.s(p[1].cond), NOT(bad))
                if sat(OR(AND(xc, NOT(yc)), AND(yc, NOT(xc)))) is False:
                    hit = p
                    break
            if hit is None and len(xi) == len(xs):
                hit = left[0] if left else None
            if hit:
                left.remove(hit)
                rep = atomv(T('exits', 'P%d' % m.id, n))
                self.map[T('exits', l.id, hit[0])] = rep
                self.map[T('exits', m.id, n)] = rep
                l.exitpairs.append((hit[1], y))
            else:
                # several impl exits standing for one
                grp = []
                for p in list(left):
                    xc = AND(self.s(p[1].cond), NOT(bad))
                    if sat(AND(xc, NOT(yc))) is False:
                        grp.append(p)
                        left.remove(p)
                if not grp:
                    m.exitleft.append(y)
                if grp:
                    reps = []
                    for q, p in enumerate(grp):
                        rep = atomv(T('exits', 'P%d' % m.id, n, q))
                        self.map[T('exits', l.id, p[0])] = rep
                        reps.append(rep)
                    self.map[T('exits', m.id, n)] = OR(*reps)
                    l.exitpairs.append((Joint(self, self.impl, [p[1] for p in grp]), y))
        l.exitleft = left
        # exceptions handled outside of the loop; that both raise them in the same
        # situations is decided inside of it
        ri, rs = {}, {}
        for lp, d in ((l, ri), (m, rs)):
            for n, x in enumerate([x for x in lp.exits if x.kind == 'raise']):
                k = tuple(sorted(set(str(self.exc_class(t)) for t in leaves(x.val))))
                d.setdefault(k, []).append(T('exits', lp.id, ('r', n)))
        for k in rs:
            a, b = ri.get(k, []), rs[k]
            if not a:
                continue
            n = min(len(a), len(b))
            reps = [atomv(T('exits', 'P%d' % m.id, ('r', k, q))) for q in range(max(len(a), len(b)))]
            for ts in (a, b):
                for q, t in enumerate(ts):
                    self.map[t] = reps[q] if q < n - 1 or len(ts) > n else OR(*reps[n - 1:])

    # ---------------------------------------------------------- obligations
    def undet(self, c, w):
        """reason why a failing obligation says nothing, or None"""
        if self.lost:
            return 'a loop without counterpart'
        ts = set()
        for a in w:
            ts |= set(subterms(a))
            if any(t.op == 'star' for t in subterms(a)) and not (
                    a.op == 'eq' and all(any(t.op == 'star' for t in subterms(x)) for x in a.args)):
                return 'argument list of unknown length'
        for h in heads(ts):
            if h not in self.vocab and h not in DISTINCT and not (isinstance(h, str) and h.startswith(DISTINCT_PREFIX)):
                return 'construct the rule does not use: %s' % (h,)
        for t in ts:
            if t.op == 'top':
                return 'not modelled: %s' % (t.args[0],)
            if t.op in ('mu', 'out') and (t.args[0], t.args[1]) in self.unmatched_impl and \
                    not (t.op == 'mu' and (t.args[0], t.args[1]) in self.agreed) and \
                    not (t.op == 'out' and (t.args[0], t.args[1]) in self.agreed_out):
                return 'carried variable without counterpart'
        return None

    # ------------------------------------------- first rounds of the loops
    def carried_in(self, *vs):
        out = set()
        for v in vs:
            for t in vterms(v):
                if t.op in ('mu', 'out') and isinstance(t.args[0], str):
                    out.add((t.args[0], t.args[1]))
        return out

    def rounds(self, a, b, n, pre=()):
        """[(substitution of the carried values, what it supposes)] after n rounds of the pair a, b"""
        seq = self.s(leaf(b.seq)) if b.seq is not None else None
        vs = []
        for lp, res in ((b, self.spec), (a, self.impl)):
            for i, (k, init, step, ty) in lp.vars.items():
                mu = self.map.get(T('mu', lp.id, i, ty))
                out = self.map.get(T('out', lp.id, i, ty))
                if mu is None or not mu.leaf or mu.hi.op != 'mu' or any(x[0] is mu.hi for x in vs):
                    continue
                st = self.frozen(res, lp.end, step) if not lp.end.dead else UNDEF
                vs.append((mu.hi, out.hi if out is not None and out.leaf and out.hi.op == 'out' else None,
                           self.s(self.frozen(res, lp.pre, init)), self.s(st)))
        cont = AND(self.s(a.cont), self.s(b.cont), *[NOT(self.s(c.cond)) for c in self.clauses if c.loop is b])
        if n == 0:
            c = NOT(lift(canon.nonempty, seq)) if seq is not None else TRUE
            return [({mu: init for mu, out, init, st in vs}, {out: init for mu, out, init, st in vs if out is not None}, c)]
        res = []
        for mm, oo, c in self.rounds(a, b, n - 1):
            if n == 1:
                c = lift(canon.nonempty, seq) if seq is not None else TRUE
            inner = self.bounded([p for p in self.pairs if p[0].parent is a and p[1].parent is b])
            ren = {}
            if seq is not None and seq.leaf:
                e = canon.elem(seq.hi)
                if e.leaf and e.hi.op == 'elem':
                    ren[e.hi] = leaf(T('elem', T('var', '$round%d' % n, 'list')))
                ren[T('idx', seq.hi)] = leaf(const(n - 1))
            for im, ic in inner:
                f = Subst(im)
                g = Subst(mm)
                h = Subst(ren)
                nm = {mu: h.value(g.value(f.value(st))) for mu, out, init, st in vs}
                no = {out: nm[mu] for mu, out, init, st in vs if out is not None}
                nc = AND(c, h.value(g.value(f.value(AND(cont, ic)))))
                if seq is not None and seq.leaf and canon.setbase(seq.hi) is not None:
                    # the elements of a set are distinct
                    mine = T('elem', T('var', '$round%d' % n, 'list'))
                    nc = AND(nc, *[NOT(canon.eq(x, mine)) for x in
                                   [e.hi] + [T('elem', T('var', '$round%d' % i, 'list')) for i in range(1, n)]])
                if sat(nc) is not False:
                    res.append((nm, no, nc))
                if len(res) > 12:
                    break
        return res

    def bounded(self, pairs):
        out = [({}, TRUE)]
        for a, b in pairs:
            nxt = []
            seq = self.s(leaf(b.seq)) if b.seq is not None else None
            for n in (0, 1, 2):
                whole = {}
                if seq is not None and seq.leaf and seq.hi.op not in ('list', 'tuple', 'const') and canon.setbase(seq.hi) is None \
                        and canon.elem(seq.hi).leaf and canon.elem(seq.hi).hi.op == 'elem':
                    whole[seq.hi] = leaf(T('list', *[T('elem', T('var', '$round%d' % i, 'list')) for i in range(1, n + 1)]))
                for mm, oo, c in self.rounds(a, b, n):
                    c = Subst(whole).value(c)
                    if sat(c) is False:
                        continue
                    for m0, c0 in out:
                        d = dict(m0)
                        d.update(oo)
                        d.update(whole)
                        nxt.append((d, AND(c0, c)))
            out = nxt[:24]
        return out

    def early(self, cond, l, m):
        """does cond hold in one of the first rounds?"""
        try:
            for om, oc in self.bounded([p for p in self.pairs if p[0].parent is l and p[1].parent is m]):
                c = Subst(om).value(AND(cond, oc))
                if l is None:
                    if sat(c):
                        return True
                    continue
                for n in (0, 1, 2):
                    for mm, oo, mc in self.rounds(l, m, n):
                        if n == 0:
                            mc = TRUE
                        if sat(AND(Subst(mm).value(c), mc)):
                            return True
        except (Blowup, RecursionError):
            return True
        return False

    def confirmed(self, kind, cond, l, m):
        """cond with the carried values of the first rounds in place, if it holds then and says something"""
        inner = [p for p in self.pairs if p[0].parent is l and p[1].parent is m]
        if kind in 'AB' and any(x.kind != 'raise' for p in inner for lp in p for x in lp.exits):
            return None     # what follows such a loop is not described by its complete rounds
        # complete rounds only: no early way out of the loops
        tags = ['P%d' % b.id for a, b in inner]
        cond = Subst({t: FALSE for t in vterms(cond) if t.op == 'exits' and t.args[0] in tags}).value(cond)
        try:
            for om, oc in self.bounded(inner):
                c = Subst(om).value(AND(cond, oc))
                for n in (0, 1, 2) if l is not None else (None,):
                    for mm, oo, mc in self.rounds(l, m, n) if n is not None else [({}, {}, TRUE)]:
                        d = AND(Subst(mm).value(c), TRUE if n == 0 else mc)
                        r = canon.closed(d)
                        if r and self.undet(*r) is None:
                            return r
        except (Blowup, RecursionError):
            pass
        return None

    def related(self, k, classes):
        return k in (None, '?') or any(k == c or c == '*' or self.prog.issub(k, c) or self.prog.issub(c, k) for c in classes)

    def within(self, inner, ls):
        ids, todo = set(), list(ls)
        while todo:
            x = todo.pop()
            ids.add(x.id)
            todo += inner[x.id]
        return ids

    def lost_about(self, kind, classes):
        """may the loops without counterpart decide about errors of these classes?"""
        if kind == 'A':
            ids = self.within(self.il, [x for x in self.impl.loops if getattr(x, 'unmatched', False)])
            return any(self.related(self.exc_class(t), classes) for x in self.impl.loops if x.id in ids
                       for e in x.exits if e.kind == 'raise' for t in leaves(e.val))
        ids = self.within(self.sl, [x for x in self.spec.loops if getattr(x, 'unmatched', False)])
        return any(any(self.related(k, classes) for k in c.classes) for c in self.clauses if c.loop is not None and c.loop.id in ids)

    def left_early(self, cond):
        """does cond depend on how a loop without counterpart is left (other than by an error)?"""
        ids = set()
        for res, inner in ((self.impl, self.il), (self.spec, self.sl)):
            mine = self.within(inner, [x for x in res.loops if getattr(x, 'unmatched', False)])
            ids |= {x.id for x in res.loops if x.id in mine and any(e.kind != 'raise' for e in x.exits)}
        # ... or on a test over a whole sequence, which may be such a loop in another form
        return any(t.op == 'some' or t.op == 'exits' and t.args[0] in ids for t in vterms(cond))

    def calm(self, cond, h):
        """cond when no loop without counterpart raises, or None when such a loop matters for effect h"""
        ids = set()
        for res, inner in ((self.impl, self.il), (self.spec, self.sl)):
            mine = self.within(inner, [x for x in res.loops if getattr(x, 'unmatched', False)])
            if any(lo is not None and lo.id in mine and t.args[0] == h for c, t, n, lo, w in res.events) or \
                    any(e.kind != 'raise' for x in res.loops if x.id in mine for e in x.exits):
                return None
            ids |= mine
        return Subst({t: FALSE for t in vterms(cond) if t.op == 'exits' and t.args[0] in ids}).value(cond)

    def check(self, kind, cond, props, where, text, focus=None, guards=None, at=None, classes=None, effect=None):
        if effect is not None and self.lost:
            c = self.calm(cond, effect)
            if c is not None and sat(c):
                keep, self.lost = self.lost, False
                try:
                    return self.decide(kind, c, props, where, text, focus, guards, at)
                finally:
                    self.lost = keep
        if classes is None or not self.lost:
            return self.decide(kind, cond, props, where, text, focus, guards, at)
        keep, self.lost = self.lost, self.lost_about(kind, classes) or self.left_early(cond)
        try:
            return self.decide(kind, cond, props, where, text, focus, guards, at)
        finally:
            self.lost = keep

    def decide(self, kind, cond, props, where, text, focus=None, guards=None, at=None):
        self.obligations += 1
        orig = cond
        s = sat(cond)
        if s is False:
            self.discharged += 1
            return True
        if s is None:
            self.findings.append(Finding(kind, props, where, text, cond, 'budget'))
            return False
        w = canon.witness(cond) or {}
        u = self.undet(cond, w)
        if u and self.ident and not self.lost:
            # first deviating round: same-named state still agrees before it
            c2 = Subst(self.ident).value(cond)
            if sat(c2):
                w2 = canon.witness(c2) or {}
                u2 = self.undet(c2, w2)
                if u2 is None:
                    cond, w, u = c2, w2, None
            elif sat(c2) is False:
                u = 'holds while the states agree'
        if u is None and guards is not None and at is not None and self.carried_in(guards[0]) - self.carried_in(guards[1]):
            if not self.early(cond, *at):
                u = 'decided by another carried variable than in the rule'
        if u == 'carried variable without counterpart' and kind in 'ABCE' and at is not None:
            r = self.confirmed(kind, orig, *at)
            if r is not None:
                cond, w, u = r[0], r[1], None
        elif u is None:
            r = canon.closed(cond)
            if r is None:
                self.discharged += 1
                return True
            if r:
                cond, w = r
                u = self.undet(cond, w)
        f = Finding(kind, props, where, text + self.explain(w), cond, u)
        f.orig = orig
        self.findings.append(f)
        return False

    def explain(self, w):
        parts = []
        for a, v in list(w.items())[-6:]:
            parts.append(('' if v else 'not ') + show(a))
        return ' when ' + ' and '.join(parts) if parts else ''

    def impl_sinks(self, l):
        if l is None:
            return [s for s in self.impl.raises if not (isinstance(s.via, tuple) and s.via[0] == 'inloop')]
        return [x for x in l.exits if x.kind == 'raise' and not (isinstance(x.via, tuple) and x.via[0] == 'inloop')
                and id(x) is not None]

    def level(self, l, m):
        self.lost_impl = [x for x in self.il[l.id if l else None] if getattr(x, 'unmatched', False) and not self.bare(self.impl, self.il, x)]
        self.lost_spec = [x for x in self.sl[m.id if m else None] if getattr(x, 'unmatched', False) and not self.bare(self.spec, self.sl, x)]
        self.lost = bool(self.lost_impl or self.lost_spec)
        self.ident, self.idpairs, self.agreed, self.agreed_out = {}, [], set(), set()
        if l is not None:
            self.identify(l, m)
        cl = [c for c in self.clauses if c.loop is m]
        for c in cl:
            c.scond = self.s(c.cond)
        refused = self.refused(m)
        if l is None:
            cont = OR(*[s.cond for s, v in self.impl.returns])
            scont = OR(*[s.cond for s, v in self.spec.returns])
            where0 = loc(self.fn, self.fn.node)
        else:
            cont = OR(l.cont, *[x.cond for x in l.exits if x.kind != 'raise'])
            scont = OR(m.cont, *[x.cond for x in m.exits if x.kind != 'raise'])
            where0 = loc(l.fn.fn if l.fn else None, l.node)
        cont, scont = AND(self.s(cont), NOT(refused)), AND(self.s(scont), NOT(refused))
        # A
        for c in cl:
            t = 'accepts input that must be refused with %s' % '/'.join(x.split('.')[-1] for x in c.classes)
            self.check('A', AND(cont, c.scond), c.props, where0, t, guards=(cont, OR(c.scond, scont)), at=(l, m), classes=c.classes)
        # B
        for s in self.impl_sinks(l):
            for t in leaves(s.val):
                cls = self.exc_class(t)
                if s.via == 'implicit' and cls not in self.excstate:
                    continue
                w = where(s.val, t)
                cond = AND(self.s(AND(s.cond, w)), NOT(refused))
                if cls in self.quiet_raises and not any(cls in c.classes for c in cl) or isinstance(s.via, tuple) and s.via[0] == 'opaque' and s.via[1] in self.quiet_raises:
                    continue
                if self.onlyclasses is not None and cls not in self.onlyclasses:
                    continue
                allow = OR(*[c.scond for c in cl if cls in c.classes or '*' in c.classes or
                             cls is not None and any(self.prog.issub(cls, k) for k in c.classes if k.startswith('~') is False and k in self.soft)])
                self.check('B', AND(cond, NOT(allow)), self.props_of((cls,)), loc(s.where.fn if s.where else None, s.node),
                           'raises %s where the rule does not' % str(cls).split('.')[-1],
                           guards=(cond, OR(allow, scont)), at=(l, m), classes=(cls,))
        for c in self.excstate:
            self.left_by(c, l, m, where0, refused)
        bad = OR(refused, *[c.scond for c in cl])
        acc = prune(AND(cont, scont, NOT(bad)))
        if not self.lost and sat(acc) is False and sat(prune(AND(scont, NOT(bad)))):
            self.obligations += 1
            self.findings.append(Finding('B', self.default, where0, 'never succeeds where the rule does'))
        if l is None:
            # over-rejection is B; here results
            if self.values:
                iv = self.merged(self.impl)
                sv = self.merged(self.spec)
                d = AND(acc, neqv(self.s(iv), self.s(sv)))
                self.check('C', d, self.default, where0, 'result differs from the rule', at=(None, None))
            for match, props in self.state:
                self.final(match, props, acc, where0)
        else:
            # D: exits
            for x, y in l.exitpairs:
                xc, yc = self.s(x.cond), self.s(y.cond)
                self.check('D', AND(OR(AND(xc, NOT(yc), scont), AND(yc, NOT(xc), cont)), NOT(bad)), self.default,
                           loc(x.where.fn if x.where else None, x.node),
                           'early exit happens under another condition than in the rule')
                if x.kind == y.kind:
                    xv = self.s(x.frozen if isinstance(x, Joint) else self.frozen(self.impl, x.st, x.val))
                    yv = self.s(y.frozen if isinstance(y, Joint) else self.frozen(self.spec, y.st, y.val))
                    self.check('D', AND(xc, yc, NOT(bad), neqv(xv, yv)), self.default,
                               loc(x.where.fn if x.where else None, x.node), 'early result differs from the rule')
            for n, x in l.exitleft:
                # exit the rule does not have
                self.check('D', AND(self.s(x.cond), NOT(bad)), self.default, loc(x.where.fn if x.where else None, x.node),
                           'leaves the loop where the rule continues')
            for y in m.exitleft:
                # exit the rule has and the code does not
                if l.exitleft or l.un or l.testv is not None and l.testv is not TRUE:
                    break
                out = OR(*[self.s(x.cond) for x in l.exits])
                self.check('D', AND(self.s(y.cond), NOT(bad), self.s(l.cont), NOT(out)), self.default, where0,
                           'continues where the rule leaves the loop')
            # carried observable state
            self.carried(l, m, acc, where0)
        for h in self.events:
            self.effects(h, l, m, acc, where0)
        for x, y in self.seqdiff:
            if x.parent is l and y.parent is m:
                self.check('D', AND(acc, self.s(x.pre.cond), neqv(self.sub().term(x.seq), self.sub().term(y.seq))),
                           tuple(dict.fromkeys(self.loop_props(y) + tuple(self.default))),
                           loc(x.fn.fn if x.fn else None, x.node), 'walks something else than the rule')

    soft = ()

    @staticmethod
    def searches(x):
        return any(e.kind != 'raise' for e in x.exits)

    def bare(self, res, inner, x):
        """a loop that only computes an expression (a comprehension)"""
        return all(a is UNDEF or k in x.closed for k, a, b, t in x.vars.values()) and all(e.kind == 'raise' and e.via == 'implicit' for e in x.exits) and not any(lo is x and t.args[0] in self.events for c, t, n, lo, w in res.events) and \
            not any(c.loop is x for c in self.clauses) and all(self.bare(res, inner, y) for y in inner[x.id])

    def effects(self, h, l, m, acc, where0):
        """calls with effects outside: same calls, same arguments, same situations"""
        ei = [(self.s(c), self.s(leaf(t)), n, w) for c, t, n, lo, w in self.impl.events if lo is l and t.args[0] == h]
        es = [(self.s(c), self.s(leaf(t)), n, w) for c, t, n, lo, w in self.spec.events if lo is m and t.args[0] == h]
        if not ei and not es:
            return
        props = self.eventprops or self.default

        if self.late is not None and any(self.late(h, t) for evs in (ei, es) for a in evs for t in leaves(a[1])):
            acc = NOT(self.s(OR(*[s.cond for s in self.impl_sinks(l) if s.via == 'implicit'])))

        def differ(a, b):
            return AND(acc, OR(AND(a[0], NOT(b[0])), AND(b[0], NOT(a[0])), AND(a[0], b[0], neqv(a[1], b[1]))))

        def fold(evs):
            r = NONE
            for c, t, n, w in reversed(evs):
                r = ite(c, t, r)
            return r
        name = h.lstrip('.')
        if len(ei) == len(es):
            if all(sat(differ(a, b)) is False for a, b in zip(ei, es)):
                self.obligations += len(ei)
                self.discharged += len(ei)
                return
        if h in ('stdout', 'stderr', '.write') and len(ei) + len(es) > 2:
            same = set(t.args[1] for evs in (ei, es) for a in evs for t in leaves(a[1])) if h == '.write' else ()

            def total(evs):
                r = leaf(const(''))
                for c, t, n, w in evs:
                    r = lift(canon.scat, r, ite(c, lift(lambda x: unbox(x.args[-1]), t), leaf(const(''))))
                return r
            if len(same) <= 1:
                d = AND(acc, neqv(total(ei), total(es)))
                if len(ei) != len(es):
                    self.check('E', d, props, where0, 'effect %s differs from the rule' % name, effect=h)
                    return
                if sat(d) is False:
                    self.obligations += len(ei)
                    self.discharged += len(ei)
                    return
        excl = all(sat(AND(acc, a[0], b[0])) is False for evs in (ei, es) for i, a in enumerate(evs) for b in evs[:i])
        if excl or not ei or not es:
            d = AND(acc, neqv(fold(ei), fold(es)))
            w = where0 if not ei else loc(ei[0][3].fn if ei[0][3] else None, ei[0][2])
            self.check('E', d, props, w, 'effect %s differs from the rule' % name, at=(l, m),
                       guards=(OR(*[x[0] for x in ei]), OR(*[x[0] for x in es])), effect=h)
            return
        if len(ei) == len(es):
            for a, b in zip(ei, es):
                self.check('E', differ(a, b), props, loc(a[3].fn if a[3] else None, a[2]), 'effect %s differs from the rule' % name,
                           guards=(a[0], b[0]), at=(l, m), effect=h)
            return
        def count(evs):
            r = leaf(const(0))
            for c, t, n, w in evs:
                r = lift(canon.add, r, ite(c, leaf(const(1)), leaf(const(0))))
            return r
        d = AND(acc, neqv(count(ei), count(es)))
        if sat(d) is not False:
            self.check('E', d, props, where0, 'effect %s happens another number of times than in the rule' % name, effect=h)
            return
        self.obligations += 1
        f = Finding('E', props, where0, 'effects %s are arranged differently from the rule' % name)
        f.undetermined = 'other arrangement of effects'
        self.findings.append(f)

    def refused(self, m):
        """situations the rule has already refused outside this loop"""
        if m is None:
            return FALSE
        up, x = [None], m.parent
        while x is not None:
            up.append(x)
            x = x.parent
        tag = 'P%d' % m.id
        out = FALSE
        for c in self.clauses:
            if any(c.loop is u for u in up):
                v = self.s(c.cond)
                if not any(t.op in ('out', 'exits') and t.args[0] in (tag, m.id) for t in vterms(v)):
                    out = OR(out, v)
        return out

    def same_init(self, u, v):
        if u[4] is v[4]:
            return True
        return bool(self.upident) and Subst(self.upident).value(u[4]) is Subst(self.upident).value(v[4])

    def pair_up(self, l, m):
        """same-named carried variables whose classes differ"""
        out = []
        left = list(l.un)
        for v in m.un:
            hit = None
            for u in left:
                if u[3] == v[3] or u[3][0] == 'L' == v[3][0] and u[3][-1] == v[3][-1]:
                    hit = u
                    break
            if hit is not None:
                left.remove(hit)
                out.append((hit, v))
        rest = [v for v in m.un if not any(v is y for x, y in out)]
        if len(rest) == 1 and len(left) == 1 and self.same_init(left[0], rest[0]):
            out.append((left[0], rest[0]))
            return out
        for v in rest:
            if v[4].leaf and v[4].hi.op == 'undef':
                continue
            hit = [u for u in left if self.same_init(u, v)]
            if len(hit) == 2 and sorted(u[3][0] for u in hit) == ['I', 'L'] and v[3][0] == 'I':
                # a container that the code rebinds where the rule changes it in place
                hit = [u for u in hit if u[3][0] == 'L']
            if len(hit) == 1 and len([w for w in rest if self.same_init(w, v)]) == 1:
                left.remove(hit[0])
                out.append((hit[0], v))
        return out

    def rep_mu(self, lp, x):
        return self.map[T('mu', lp.id, x[2], x[6])]

    def identify(self, l, m):
        up, ua = self.idents.get(l.parent.id if l.parent is not None else None, ({}, set()))
        self.upident = dict(up)
        self.ident = dict(up)
        self.idpairs = self.pair_up(l, m)
        for u, v in self.idpairs:
            a, b = self.rep_mu(l, u), self.rep_mu(m, v)
            if a is not b and a.leaf:
                self.ident[a.hi] = b
        self.agreed = set(ua)
        for u, v in self.idpairs:
            self.agreed.add(('P%d' % m.id, m.reps[v[2]]))
        self.idents[l.id] = (dict(self.ident), set(self.agreed))
        self.agreed_out = set()
        self.inner_agree(l, m)

    def inner_agree(self, l, m):
        """variables of nested loops that agree whenever the variables of this loop do"""
        for a, b in self.pairs:
            if a.parent is not l or b.parent is not m:
                continue
            keep = self.upident
            self.upident = self.ident
            cand = [(u, v) for u, v in self.pair_up(a, b) if self.same_init(u, v)]
            self.upident = keep
            while cand:
                mp = dict(self.ident)
                for u, v in cand:
                    x = self.rep_mu(a, u)
                    if x.leaf and x is not self.rep_mu(b, v):
                        mp[x.hi] = self.rep_mu(b, v)
                sb = Subst(mp)
                acc = prune(AND(sb.value(self.s(a.cont)), sb.value(self.s(b.cont)),
                                *[NOT(sb.value(self.s(c.cond))) for c in self.clauses if c.loop is b]))
                good = [(u, v) for u, v in cand
                        if sat(AND(acc, neqv(sb.value(self.s(self.frozen(self.impl, a.end, u[5]))),
                                             sb.value(self.s(self.frozen(self.spec, b.end, v[5])))))) is False]
                if len(good) == len(cand):
                    break
                cand = good
            for u, v in cand:
                x, y = self.map[T('out', a.id, u[2], u[6])], self.map[T('out', b.id, v[2], v[6])]
                if x.leaf and x is not y:
                    self.ident[x.hi] = y
                self.agreed_out |= {('P%d' % b.id, a.reps[u[2]]), ('P%d' % b.id, b.reps[v[2]])}
            keep = self.ident
            self.ident = dict(keep)
            for u, v in cand:
                x = self.rep_mu(a, u)
                if x.leaf and x is not self.rep_mu(b, v):
                    self.ident[x.hi] = self.rep_mu(b, v)
            self.inner_agree(a, b)
            self.ident = keep

    def carried(self, l, m, acc, where0):
        """state variables that lost their counterpart"""
        used = self.used_reps(m)
        for u, v in self.idpairs:
            if m.reps[v[2]] not in used and not self.observable(v[3]):
                continue
            sb = Subst(self.ident)
            d = sb.value(AND(acc, neqv(self.s(u[5]), self.s(v[5]))))
            n = len(self.findings)
            self.check('C', d, self.key_props(v[3], m, v[2]), where0,
                       'carried state %s is updated differently from the rule' % self.keyname(u[3]))
            if len(self.findings) > n and sat(sb.value(AND(acc, neqv(bag(self.s(u[5])), bag(self.s(v[5])))))) is False:
                self.findings[n].undetermined = 'same elements in another order'
            for f in self.findings[n:]:
                f.live = (('P%d' % m.id, l.reps[u[2]]), ('P%d' % m.id, m.reps[v[2]]))
        # state the code leaves alone although the rule updates it
        have = set(k for i, (k, a, b, t) in l.vars.items())
        for v in m.un:
            if any(v is y for x, y in self.idpairs) or v[3] in have:
                continue
            if not self.observable(v[3]) and (m.reps[v[2]] not in used or v[4].leaf and v[4].hi.op == 'undef'):
                continue
            if any(u[4] is v[4] for u in l.un):
                continue
            rep = self.rep_mu(m, v)
            if not rep.leaf:
                continue
            mp = dict(self.ident)
            mp[rep.hi] = v[4]
            sb = Subst(mp)
            d = sb.value(AND(acc, neqv(v[4], self.s(v[5]))))
            n = len(self.findings)
            self.agreed.add(('P%d' % m.id, m.reps[v[2]]))
            self.check('C', d, self.key_props(v[3], m, v[2]), where0,
                       'carried state %s is not updated as the rule requires' % self.keyname(v[3]))
            up = [k for i, (k, a, b, t) in l.parent.vars.items()] if l.parent is not None else \
                [k for k in self.impl.final.store]
            for f in self.findings[n:]:
                f.live = (('P%d' % m.id, m.reps[v[2]]),)
                if v[3] in up:
                    f.undetermined = 'the code updates it outside this loop'

    def prune_findings(self):
        """a deviating carried variable matters only if something depends on it"""
        keep = []
        for f in self.findings:
            if f.live:
                ok = False
                for g in self.findings:
                    if g is f or g.orig is None:
                        continue
                    for t in vterms(g.orig):
                        if t.op in ('mu', 'out') and (t.args[0], t.args[1]) in f.live:
                            ok = True
                if not ok:
                    self.discharged += 1
                    continue
            keep.append(f)
        self.findings = keep

    def used_reps(self, m):
        r = set()
        P = 'P%d' % m.id
        vs = [c.scond for c in self.clauses if c.loop is m and c.scond is not None]
        for v in vs:
            for t in vterms(v):
                if t.op == 'mu' and t.args[0] == P:
                    r.add(t.args[1])
        if any(x.kind != 'raise' for x in m.exits + (m.mate.exits if getattr(m, 'mate', None) is not None else [])):
            # what a loop that was left early has carried so far is visible as it stands
            vs = [self.s(self.spec.interp.freeze(v, s)) for s, v in self.spec.returns]
            vs += [self.s(self.spec.interp.freeze(v, self.spec.final)) for k, v in self.spec.final.store.items() if self.observable(k)]
            vs += [self.s(leaf(t)) for c, t, n, lo, w in self.spec.events if t.args[0] in self.events and lo is not m]
            for v in vs:
                for t in vterms(v):
                    if t.op == 'mu' and t.args[0] == P:
                        r.add(t.args[1])
            return r
        # results, effects and later conditions that depend on the state after the loop
        vs = [self.s(self.spec.interp.freeze(v, s)) for s, v in self.spec.returns]
        vs += [self.s(c.cond) for c in self.clauses if c.loop is not m]
        for l in self.spec.loops:
            if l is m:
                continue
            for i, (k, a, b, t) in l.vars.items():
                if k[0] != 'L' or l.parent is m:
                    vs += [self.s(a)] if l.parent is m else []
                if l is m.parent:
                    vs.append(self.s(b))
        vs += [self.s(leaf(t)) for c, t, n, lo, w in self.spec.events if t.args[0] in self.events]
        for v in vs:
            for t in vterms(v):
                if t.op == 'out' and t.args[0] == P:
                    r.add(t.args[1])
        steps = [(m.reps[i], self.s(b)) for i, (k, a, b, t) in m.vars.items()]
        grown = True
        while grown:
            grown = False
            for g, b in steps:
                if g in r:
                    for t in vterms(b):
                        if t.op == 'mu' and t.args[0] == P and t.args[1] not in r:
                            r.add(t.args[1])
                            grown = True
        return r

    def observable(self, k):
        return k[0] in ('A', 'I') and any(f(k) for f, p in self.state)

    def key_props(self, k, m, i):
        for f, p in self.state:
            if f(k):
                return p
        for n, p in self.keyprops.items():
            if k[-1] == n:
                return p
        # every property with a clause that depends on it
        ps = []
        P = 'P%d' % m.id
        for c in self.clauses:
            if c.loop is m and c.scond is not None:
                if any(t.op == 'mu' and t.args[0] == P and t.args[1] == m.reps[i] for t in vterms(c.scond)):
                    for q in c.props:
                        if q not in ps:
                            ps.append(q)
        # and those of the state that is made of it
        for kk, v in self.spec.final.store.items():
            for f, p in self.state:
                if f(kk) and any(t.op in ('mu', 'out') and t.args[0] == P and t.args[1] == m.reps[i]
                                 for t in vterms(self.s(self.spec.interp.freeze(v, self.spec.final)))):
                    ps += [q for q in p if q not in ps]
        return tuple(ps) or self.default

    def keyname(self, k):
        if k[0] == 'A':
            return '%s.%s' % (show(k[1]), k[2])
        if k[0] == 'I':
            return 'content of %s' % show(k[1])
        return str(k[-1])

    def merged(self, res):
        r = None
        for s, v in res.returns:
            v = res.interp.freeze(v, s)
            r = v if r is None else ite(s.cond, v, r)
        return r if r is not None else UNDEF

    def left_by(self, cls, l, m, where0, refused):
        """what an exception leaves behind in the object that goes on being used"""
        from .interp import default_of

        def at(res, sinks):
            out = []
            for s in sinks:
                c = OR(*[AND(s.cond, where(s.val, t)) for t in leaves(s.val) if res.interp.exc_class(t) == cls])
                if c is not FALSE:
                    out.append((c, s.st, res))
            return out
        a = at(self.impl, self.impl_sinks(l))
        b = at(self.spec, [s for s in self.spec.raises if not (isinstance(s.via, tuple) and s.via[0] == 'inloop')]
               if m is None else [x for x in m.exits if x.kind == 'raise' and not (isinstance(x.via, tuple) and x.via[0] == 'inloop')])
        if not a or not b:
            return
        keys = set(k for _, st, _ in a + b for k in st.store if k[0] in ('A', 'I') and k[1].op not in ('ref', 'obj'))

        def val(ks, k):
            r = None
            for c, st, res in ks:
                v = st.store.get(k)
                ex = frozenset([k[1]]) if k[0] == 'I' else frozenset()
                v = default_of(k) if v is None else res.interp.freeze(v, st, excl=ex)
                r = v if r is None else ite(c, v, r)
            return self.s(r)
        ca, cb = (self.s(OR(*[c for c, _, _ in x])) for x in (a, b))
        for match, props in self.state:
            for k in sorted((k for k in keys if match(k)), key=str):
                d = AND(ca, cb, NOT(refused), neqv(val(a, k), val(b, k)))
                self.check('C', d, props, where0, '%s is left with another value than in the rule after %s' % (
                    self.keyname(k), cls.split('.')[-1]), at=(l, m))

    def final(self, match, props, acc, where0):
        from .interp import default_of
        keys = set(k for k in list(self.impl.final.store) + list(self.spec.final.store)
                   if k[0] in ('A', 'I') and k[1].op not in ('ref', 'obj') and match(k))
        for k in sorted(keys, key=str):
            a = self.impl.final.store.get(k)
            b = self.spec.final.store.get(k)
            ex = frozenset([k[1]]) if k[0] == 'I' else frozenset()
            a = default_of(k) if a is None else self.impl.interp.freeze(a, self.impl.final, excl=ex)
            b = default_of(k) if b is None else self.spec.interp.freeze(b, self.spec.final, excl=ex)
            d = AND(acc, neqv(self.s(a), self.s(b)))
            self.check('C', d, props, where0, 'final value of %s differs from the rule' % self.keyname(k), at=(None, None))
