"""Aliasing facts about one analysed function: objects changed after they were
handed out, shallow copies of objects that are changed in place, changes to
objects that were passed in."""
import ast

from . import canon
from .canon import eq
from .dd import AND, NOT, T, Term, leaf, lift
from .interp import default_of
from .program import ClassInfo

MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'add', 'discard', 'update', 'setdefault',
            'popitem', 'appendleft', 'popleft', 'difference_update', 'intersection_update', 'symmetric_difference_update'}
# attributes whose objects are known only by their role
ROLES = {'usedReceiptIds': 'verification_state.UsedReceiptIdsBackend', '_usedRecIds': None}


def inplace(node):
    """expressions whose object is changed in place below node: [(expr, node)]"""
    out = []
    for n in ast.walk(node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            out.append((n.func.value, n))
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.append((n.value, n))
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, (ast.Name, ast.Attribute)):
            out.append((n.target, n))
    # names that stand for an attribute
    alias = {}
    for n in ast.walk(node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    alias.setdefault(t.id, []).append(n.value)
    if alias:
        out += [(a, n) for e, n in out if isinstance(e, ast.Name) for a in alias.get(e.id, ())
                if not isinstance(n, ast.AugAssign)]
    return out


def self_name(fn):
    a = fn.node.args.args
    return a[0].arg if a and not fn.static else None


def containers(prog, ci):
    """attributes of objects of ci that hold containers which its methods change in place"""
    out = {}
    for c in prog.mro(ci):
        if not isinstance(c, ClassInfo):
            continue
        for f in c.methods.values():
            s = self_name(f)
            for e, n in inplace(f.node):
                if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == s:
                    if isinstance(n, ast.AugAssign) and not container_op(n):
                        continue
                    out.setdefault(e.attr, (f, n))
    return out


def container_op(n):
    return isinstance(n.op, (ast.BitOr, ast.BitAnd)) or isinstance(n.value, (ast.List, ast.ListComp, ast.Set, ast.SetComp, ast.Dict))


def mutable_class(prog, ci):
    """some method other than __init__ changes the object"""
    for c in [ci] + [x for x in prog.classes.values() if ci in prog.mro(x)]:
        if containers(prog, c):
            return True
        for b in prog.mro(c):
            if isinstance(b, ClassInfo):
                for f in b.methods.values():
                    s = self_name(f)
                    if f.node.name == '__init__' or f.classm:
                        continue
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and \
                                isinstance(n.value, ast.Name) and n.value.id == s:
                            return True
    return False


def root(t):
    while t.op in ('attr', 'item', 'elem', 'cat', 'fmap') and t.args and isinstance(t.args[0], Term):
        t = t.args[0]
    return t


def place(fr, node):
    fn = fr.fn if fr is not None else None
    return '%s:%s in %s' % (fn.module.path if fn else '?', getattr(node, 'lineno', '?'), fn.qual if fn else '?'), \
        (fn.qual if fn else '?')


def same_ref(t):
    return t.args[0] if t.op == 'ref' else None


def escapes(ctx, res, props):
    """an object that was yielded is changed afterwards"""
    seen = set()
    for t, content, cond, node, loops, fr in res.escapes:
        k = ('I', t)
        where, q = place(fr, node)
        ctx.ok()
        changed = False
        for lp in loops:
            outer = t.op != 'ref' or t.args[0] < lp.id
            if outer and k in lp.keys and not lp.end.dead and not canon.mentions(content, lp.id) if False else \
                    outer and k in lp.keys:
                # carried: is it the same object in the next round?
                changed = True
        if not changed:
            ends = [l.end for l in loops[-1:]] or [s for s, v in res.returns]
            for s in ends:
                if s.dead:
                    continue
                c2 = s.store.get(k)
                if c2 is None or c2 is content:
                    continue
                try:
                    d = AND(cond, s.cond, NOT(lift(eq, content, c2)))
                except Exception:
                    continue
                if canon.closed(d):
                    changed = True
        if changed and (where, str(t)) not in seen:
            seen.add((where, str(t)))
            ctx.bad(where, '%s|yield' % q, 'an object is changed after it was handed out here; the receiver sees the change', props)


def copies(ctx, res, props):
    for t, node, cond, fr in res.copies:
        where, q = place(fr, node)
        ci = None
        ty = t.args[1] if t.op == 'obj' else (canon.typ(t) or '')[canon_off(t):]
        if ty in ctx.prog.classes:
            ci = ctx.prog.classes[ty]
        elif t.op == 'attr' and ROLES.get(t.args[1]) in ctx.prog.classes:
            ci = ctx.prog.classes[ROLES[t.args[1]]]
        ctx.ok()
        if ci is None:
            continue
        for c in [ci] + [x for x in ctx.prog.classes.values() if ci in ctx.prog.mro(x) and x is not ci]:
            m = containers(ctx.prog, c)
            if m:
                a = sorted(m)[0]
                ctx.bad(where, '%s|copy' % q, 'a shallow copy of a %s shares %s, which %s changes in place' % (
                    c.qual, a, m[a][0].qual), props)
                break


def canon_off(t):
    ty = canon.typ(t) or ''
    ty = ty[1:] if ty.startswith('?') else ty
    return len(canon.typ(t) or '') - len(ty) + (4 if ty.startswith('obj:') else 0)


def frames(ctx, r, props):
    """contents of arguments that the function changes and its rule does not"""
    names = set(a.arg for a in r.fn.node.args.args + r.fn.node.args.kwonlyargs)
    own = self_name(r.fn) if r.fn.cls is not None else None
    sp = r.spec.final
    for s, v in r.impl.returns[:0] + [(r.impl.final, None)]:
        if s.dead:
            continue
        for k, x in list(s.store.items()):
            if k[0] not in ('A', 'I') or k[1].op in ('ref', 'obj', 'gen', 'class', 'module'):
                continue
            b = root(k[1])
            if b.op != 'var' or b.args[0] not in names:
                continue
            if b.args[0] == own or frameless(ctx.prog, k):
                continue
            ctx.ok()
            if sp.store.get(k) is not None:
                continue
            old = k[1] if k[0] == 'I' else T('attr', k[1], k[2])
            try:
                d = AND(s.cond, NOT(lift(eq, x, leaf(old))))
                w = canon.closed(d)
            except Exception:
                w = False
            if w is None:
                continue
            where = '%s:%s in %s' % (r.fn.module.path, r.fn.node.lineno, r.fn.qual)
            if w is False:
                ctx.unknown(where, 'change of %s' % (k[1],))
                continue
            ctx.bad(where, '%s|frame|%s' % (r.fn.qual, k[1]), 'the argument %s is changed (%s); the rule leaves it alone' % (
                k[1], k[2] if k[0] == 'A' else 'contents'), props)


def frameless(prog, k):
    """locations whose change nobody else observes"""
    if k[0] == 'A' and str(k[2]).startswith('_'):
        return True
    ty = canon.typ(k[1]) or ''
    ty = ty.lstrip('?')
    return k[0] == 'I' and ty.startswith(('iter', 'gen', 'file', 'stream'))
