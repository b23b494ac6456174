"""State shared between objects, calls or runs: mutable defaults, class and
module level containers, function attributes, cached results, one object
placed several times."""
import ast

from ..core import rule
from ..program import ClassInfo, FuncInfo, walk_scope
from ..sharing import MUTATORS, containers, inplace, mutable_class, self_name, container_op
from . import r_names
from .r_names import FN, find, info, qual_of

CTORS = {'list', 'dict', 'set', 'bytearray', 'collections.OrderedDict', 'collections.defaultdict', 'collections.deque',
         'collections.Counter', 'itertools.count', 'itertools.cycle', 'OrderedDict', 'defaultdict', 'deque', 'Counter', 'count'}


def fresh(mi, scope, e):
    """e builds a new object that can be changed: its kind or None"""
    if isinstance(e, (ast.List, ast.ListComp, ast.Set, ast.SetComp, ast.Dict, ast.DictComp)):
        return 'container'
    if isinstance(e, ast.Call):
        v = mi.static(scope, e.func)
        if v is None or v is r_names.MISSING:
            return None
        if v[0] in ('builtin', 'ext') and str(v[1]) in CTORS:
            return 'container'
        if v[0] == 'class' and mutable_class(mi.prog, v[1]):
            return v[1].qual
        if v[0] not in ('class', 'func', 'method', 'mod') and isinstance(e.func, (ast.Name, ast.Attribute)):
            n = e.func.id if isinstance(e.func, ast.Name) else e.func.attr
            if n in ('OrderedDict', 'defaultdict', 'deque', 'Counter', 'count', 'cycle'):
                return 'container'
    return None


def chain(e):
    """(root Name, [attribute names or None for a subscript])"""
    path = []
    while isinstance(e, (ast.Attribute, ast.Subscript)):
        path.insert(0, e.attr if isinstance(e, ast.Attribute) else None)
        e = e.value
    return (e, path) if isinstance(e, ast.Name) else (None, path)


class Fn(object):
    """one function of the module with its scope"""
    def __init__(self, mi, scope):
        self.mi, self.scope, self.node = mi, scope, scope.node
        self.params = [a.arg for a in self.node.args.posonlyargs + self.node.args.args + self.node.args.kwonlyargs]

    def own(self):
        return list(walk_scope(self.node))

    def rebinds(self, name):
        for n in self.own():
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
                if not any(isinstance(a, ast.AugAssign) and a.target is n for a in self.own()):
                    return True
        return False

    def deps(self, e, depth=0):
        """parameters and own attributes a value depends on"""
        out = set()
        if e is None or depth > 6:
            return out
        for n in ast.walk(e):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ('self', 'cls'):
                out.add(n.value.id + '.' + n.attr)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                if n.id in self.params:
                    if n.id not in ('self', 'cls'):
                        out.add(n.id)
                else:
                    for a in self.own():
                        if isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.id for x in a.targets
                                                             for t in ast.walk(x)):
                            out |= self.deps(a.value, depth + 1)
                        elif isinstance(a, (ast.For, ast.AugAssign)) and any(
                                isinstance(t, ast.Name) and t.id == n.id for t in ast.walk(a.target)):
                            out |= self.deps(a.iter if isinstance(a, ast.For) else a.value, depth + 1)
        return out


def functions(mi):
    for s in r_names.scopes(mi):
        if s.kind == 'function' and isinstance(s.node, FN):
            yield Fn(mi, s)


def own_inplace(fn):
    """changes in the body of fn, nested functions apart"""
    out = []
    for n in fn.own():
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            out.append((n.func.value, n))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'next' and n.args:
            out.append((n.args[0], n))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and n.args:
            out.append((n.args[0], n))
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.append((n.value, n))
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute):
            out.append((n.target, n))
    return out


def memo(fn, node):
    """a table entry that depends on nothing but its key"""
    key = val = None
    if isinstance(node, ast.Subscript):
        for a in fn.own():
            if isinstance(a, ast.Assign) and node in a.targets:
                key, val = node.slice, a.value
    elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == 'setdefault' and len(node.args) == 2:
        key, val = node.args
    elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ('clear', 'pop', 'popitem'):
        return True       # forgetting entries
    if val is None:
        return False
    v, seen = val, 0
    while isinstance(v, ast.Name) and seen < 5:
        seen += 1
        d = [a.value for a in fn.own() if isinstance(a, ast.Assign) and len(a.targets) == 1 and
             isinstance(a.targets[0], ast.Name) and a.targets[0].id == v.id]
        if len(d) != 1:
            break
        v = d[0]
    if fresh(fn.mi, fn.scope, v):
        return False
    return fn.deps(val) <= fn.deps(key)


def lazy_const(fn, val):
    return not fn.deps(val)


def check(ctx, prog, m):
    mi = info(prog, m)
    fns = list(functions(mi))

    def bad(fn, n, key, text):
        ctx.bad('%s:%d in %s' % (m.path, n.lineno, qual_of(mi, fn.scope)), '%s|%s' % (qual_of(mi, fn.scope), key), text)

    for fn in fns:
        # names bound outside of the function and changed by it
        for e, n in own_inplace(fn):
            r, path = chain(e)
            if r is None:
                continue
            ctx.ok()
            w = find(fn.scope, r.id)
            if w is None:
                continue
            if w[0].kind == 'module':
                v = mi.static(fn.scope, r)
                if v is not None and v is not r_names.MISSING and v[0] == 'ext':
                    continue
                if v is not None and v is not r_names.MISSING and v[0] == 'mod' and not path:
                    continue
                if not memo(fn, n):
                    bad(fn, n, 'module|' + '.'.join([r.id] + [p or '[]' for p in path]),
                        'the module level object %s is changed by a call' % '.'.join([r.id] + [p for p in path if p]))
            elif w[0].kind == 'function' and w[0] is not fn.scope and False:
                pass
        # assignments to globals, class attributes, function attributes
        for n in fn.own():
            if isinstance(n, ast.Global):
                for name in n.names:
                    for a in fn.own():
                        if isinstance(a, ast.Name) and a.id == name and isinstance(a.ctx, ast.Store):
                            val = [x.value for x in fn.own() if isinstance(x, ast.Assign) and a in x.targets]
                            ctx.ok()
                            if not (val and lazy_const(fn, val[0])):
                                bad(fn, a, 'global|' + name, 'the module level variable %s is assigned by a call' % name)
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                target = class_target(mi, fn, n.value)
                ctx.ok()
                if target is None:
                    continue
                val = [x.value for x in fn.own() if isinstance(x, ast.Assign) and n in x.targets]
                if val and lazy_const(fn, val[0]) and not isinstance(n.ctx, ast.Del) and not fresh(mi, fn.scope, val[0]):
                    continue
                bad(fn, n, 'static|%s.%s' % (target, n.attr), '%s.%s, shared by all objects and calls, is assigned by a call' % (
                    target, n.attr))
        defaults(ctx, mi, fn, bad)
        repeated(ctx, mi, fn, bad)
        cached(ctx, mi, fn, bad)
    for ci in m.classes.values():
        class_level(ctx, mi, ci)


def class_target(mi, fn, e):
    """name of the program class, function or module e denotes"""
    if isinstance(e, ast.Attribute) and e.attr == '__class__':
        return ast.unparse(e)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'type' and len(e.args) == 1:
        return ast.unparse(e)
    v = mi.static(fn.scope, e)
    if v is not None and v is not r_names.MISSING and v[0] in ('class', 'func', 'mod'):
        return ast.unparse(e)
    if isinstance(e, ast.Name) and e.id in fn.params[:1]:
        c, fs = r_names.enclosing_class(mi, fn.scope)
        if c is not None and fs is fn.scope:
            fi = c.methods.get(fn.node.name)
            if fi is not None and fi.classm and not fn.rebinds(e.id):
                return e.id
    return None


def mutated_params(prog):
    """{FuncInfo: parameters it changes in place}, through calls"""
    out = {}
    todo = []
    for m in prog.modules.values():
        if m.name.startswith('spec.'):
            continue
        mi = info(prog, m)
        for f in list(m.funcs.values()) + [x for c in m.classes.values() for x in all_methods(c)]:
            sc = [s for s in r_names.scopes(mi) if s.node is f.node]
            if sc:
                todo.append((f, Fn(mi, sc[0])))
    for f, fn in todo:
        s = set()
        for e, n in own_inplace(fn):
            if isinstance(e, ast.Name) and e.id in fn.params and not fn.rebinds(e.id):
                s.add(e.id)
        for n in fn.own():
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id in fn.params and container_op(n) and \
                    not fn.rebinds(n.target.id):
                s.add(n.target.id)
        out[id(f)] = s
    changed = True
    while changed:
        changed = False
        for f, fn in todo:
            for n in fn.own():
                if not isinstance(n, ast.Call):
                    continue
                t, bound, k = r_names.target(fn.mi, fn.scope, n)
                if t is None or not out.get(id(t)):
                    continue
                ps = [a.arg for a in t.node.args.args]
                if bound:
                    ps = ps[1:]
                for p, a in list(zip(ps, n.args)) + [(kw.arg, kw.value) for kw in n.keywords]:
                    if p in out[id(t)] and isinstance(a, ast.Name) and a.id in fn.params and not fn.rebinds(a.id) and \
                            a.id not in out[id(f)]:
                        out[id(f)].add(a.id)
                        changed = True
    return out


def all_methods(ci):
    out = list(ci.methods.values())
    for c in ci.nested.values():
        out += all_methods(c)
    return out


MUT = {}


def defaults(ctx, mi, fn, bad):
    a = fn.node.args
    pos = a.posonlyargs + a.args
    ds = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d]
    for p, d in ds:
        k = fresh(mi, fn.scope.parent, d)
        if not k:
            continue
        ctx.ok()
        n = p.arg
        if fn.rebinds(n):
            continue
        if k != 'container':
            if any(isinstance(x, ast.Name) and x.id == n for x in fn.own()):
                bad(fn, p, 'default|' + n, 'all calls without %s share one %s' % (n, k))
            continue
        aliases = {n}
        for x in fn.own():
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id in aliases:
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        aliases.add(t.id)
        hit = None
        for e, x in own_inplace(fn):
            if isinstance(e, ast.Name) and e.id in aliases:
                hit = x
        for x in fn.own():
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id in aliases:
                hit = x
            if isinstance(x, ast.Call):
                t, bound, kk = r_names.target(mi, fn.scope, x)
                if t is not None:
                    ps = [q.arg for q in t.node.args.args][1 if bound else 0:]
                    for q, v in list(zip(ps, x.args)) + [(kw.arg, kw.value) for kw in x.keywords]:
                        if isinstance(v, ast.Name) and v.id in aliases and q in MUT.get(id(t), ()):
                            hit = x
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id in aliases:
                for t in x.targets:
                    if isinstance(t, ast.Attribute) and attr_changed(mi.prog, t.attr):
                        hit = x
        if hit is not None:
            bad(fn, hit, 'default|' + n, 'the default object of parameter %s, shared by all calls, is changed' % n)


def attr_changed(prog, attr):
    """some code of the library changes the container held in an attribute of that name"""
    k = (id(prog), attr)
    if k not in ATTRS:
        ATTRS[k] = any(isinstance(e, ast.Attribute) and e.attr == attr and not (isinstance(n, ast.AugAssign) and not container_op(n))
                       for m in prog.modules.values() if not m.name.startswith('spec.') for e, n in inplace(m.tree))
    return ATTRS[k]


ATTRS = {}


def mutable_value(mi, fn, e, depth=0):
    """e denotes one object that can be changed; None when that is not known"""
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in fn.params:
        # a class handed in as a parameter
        return 'object of %s' % e.func.id if 'backend' in e.func.id.lower() or e.func.id == 'cls' else None
    k = fresh(mi, fn.scope, e)
    if k:
        return k
    if isinstance(e, ast.Name) and depth < 4:
        vs = [x.value for x in fn.own() if isinstance(x, ast.Assign) and len(x.targets) == 1 and
              isinstance(x.targets[0], ast.Name) and x.targets[0].id == e.id]
        if len(vs) == 1:
            return mutable_value(mi, fn, vs[0], depth + 1)
    return None


def repeated(ctx, mi, fn, bad):
    for n in ast.walk(fn.node):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult):
            for s in (n.left, n.right):
                if isinstance(s, (ast.List, ast.Tuple)):
                    for el in s.elts:
                        ctx.ok()
                        k = mutable_value(mi, fn, el)
                        if k:
                            bad(fn, n, 'repeat', 'every element of the repeated list is the same %s' % k)
        elif isinstance(n, ast.Call):
            f = n.func
            name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
            if name == 'repeat' and n.args or name == 'fromkeys' and len(n.args) == 2:
                ctx.ok()
                k = mutable_value(mi, fn, n.args[0 if name == 'repeat' else 1])
                if k:
                    bad(fn, n, 'repeat', 'every element is the same %s' % k)
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            els = [n.value] if isinstance(n, ast.DictComp) else n.elt.elts if isinstance(n.elt, ast.Tuple) else [n.elt]
            loc = {t.id for g in n.generators for t in ast.walk(g.target) if isinstance(t, ast.Name)}
            for el in els:
                ctx.ok()
                if isinstance(el, ast.Name) and el.id not in loc:
                    k = mutable_value(mi, fn, el)
                    if k and k != 'container':
                        bad(fn, n, 'repeat', 'every element is the same %s' % k)


def cached(ctx, mi, fn, bad):
    for d in fn.node.decorator_list:
        f = d.func if isinstance(d, ast.Call) else d
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
        if name not in ('lru_cache', 'cache', 'cached_property', 'memoize'):
            continue
        ctx.ok()
        for r in fn.own():
            if isinstance(r, ast.Return) and r.value is not None and mutable_value(mi, fn, r.value):
                bad(fn, r, 'cached', 'every call with equal arguments gets the same object')
        c, fs = r_names.enclosing_class(mi, fn.scope)
        if c is not None and fs is fn.scope and fn.params and mutable_class(mi.prog, c):
            if any(isinstance(x, ast.Name) and x.id == fn.params[0] for x in fn.own()):
                bad(fn, fn.node, 'cached', 'the result is kept although the object it was computed from changes')


def class_level(ctx, mi, ci):
    prog = mi.prog
    for c in ci.nested.values():
        class_level(ctx, mi, c)
    top = mi.b.top
    for st in ci.node.body:
        if not isinstance(st, (ast.Assign, ast.AnnAssign)) or st.value is None:
            continue
        k = fresh(mi, top, st.value)
        if not k:
            continue
        for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
            if not isinstance(t, ast.Name):
                continue
            ctx.ok()
            fam = [x for x in prog.classes.values() if ci in prog.mro(x)]
            for x in fam:
                if any(assigns_self(f, t.id) for b in prog.mro(x) if isinstance(b, ClassInfo)
                       for f in b.methods.values() if f.node.name == '__init__'):
                    continue
                for b in prog.mro(x):
                    if not isinstance(b, ClassInfo):
                        continue
                    for f in b.methods.values():
                        s = self_name(f)
                        sc = [z for z in r_names.scopes(info(prog, f.module)) if z.node is f.node]
                        fn = Fn(info(prog, f.module), sc[0]) if sc else None
                        for e, n in inplace(f.node):
                            r, path = chain(e)
                            if r is None or r.id != s or not path or path[0] != t.id:
                                continue
                            if fn is not None and memo(fn, n):
                                continue
                            ctx.bad('%s:%d in %s' % (f.module.path, n.lineno, f.qual), '%s|class|%s' % (f.qual, t.id),
                                    '%s of class %s is one object for all instances and is changed' % (t.id, ci.qual))
                        if k != 'container' and any(isinstance(y, ast.Attribute) and y.attr == t.id and isinstance(y.value, ast.Name)
                                                    and y.value.id == s for y in ast.walk(f.node)):
                            ctx.bad('%s:%d in %s' % (mi.m.path, st.lineno, ci.qual), '%s|class|%s' % (ci.qual, t.id),
                                    '%s of class %s is one %s for all instances' % (t.id, ci.qual, k))


def assigns_self(f, attr):
    s = self_name(f)
    return any(isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store) and
               isinstance(n.value, ast.Name) and n.value.id == s for n in ast.walk(f.node))


STORE_CALLS = {'append', 'add', 'insert', 'extend', 'setdefault', 'appendleft', 'put'}


def parents(root):
    return {c: p for p in ast.walk(root) for c in ast.iter_child_nodes(p)}


def handed_out(e, up):
    """the object e denotes (not a copy of it) is returned, kept or put into something"""
    p = up.get(e)
    while isinstance(p, (ast.IfExp, ast.BoolOp, ast.Starred, ast.List, ast.Tuple, ast.Dict, ast.Set, ast.ListComp, ast.keyword)):
        if isinstance(p, ast.Starred):
            return False
        if isinstance(p, ast.IfExp) and p.test is e or isinstance(p, ast.Dict) and (None in p.keys and p.values[p.keys.index(None)] is e):
            return False
        if isinstance(p, ast.ListComp) and p.elt is not e:
            return False
        e, p = p, up.get(p)
    if isinstance(p, (ast.Return, ast.Yield)):
        return True
    if isinstance(p, (ast.Assign, ast.AnnAssign)) and p.value is e:
        ts = p.targets if isinstance(p, ast.Assign) else [p.target]
        return any(isinstance(x, (ast.Attribute, ast.Subscript)) for x in ts)
    return isinstance(p, ast.Call) and e in p.args and isinstance(p.func, ast.Attribute) and p.func.attr in STORE_CALLS


def handouts(ctx, prog, m):
    up = parents(m.tree)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Attribute) and n.attr == '__dict__' and isinstance(n.ctx, ast.Load):
            ctx.ok()
            if handed_out(n, up):
                q = m.name
                ctx.bad('%s:%d in %s' % (m.path, n.lineno, q), '%s|dict|%s' % (q, ast.dump(n.value)[:40]),
                        'the attribute dictionary of a live object is handed out; whoever changes it changes the object')
    for ci in prog.classes.values():
        if ci.module is not m:
            continue
        own = containers(prog, ci)
        for name in ('__copy__', '__deepcopy__', 'copy', 'clone'):
            f = ci.methods.get(name)
            if f is None:
                continue
            s = self_name(f)
            u2 = parents(f.node)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and n.attr in own and isinstance(n.ctx, ast.Load) and \
                        isinstance(n.value, ast.Name) and n.value.id == s:
                    ctx.ok()
                    if handed_out(n, u2):
                        ctx.bad('%s:%d in %s' % (m.path, n.lineno, f.qual), '%s|copy|%s' % (f.qual, n.attr),
                                'the copy shares %s, which %s changes in place' % (n.attr, own[n.attr][0].qual))


@rule('shared-state', 'C16', 'every function and class of the library: no default argument, class, module or function level object '
      'that calls change, no changing object placed several times, no changing result cached')
def _(ctx):
    prog = ctx.prog
    r_names.MODS.clear()
    r_names.PARENTS.clear()
    ATTRS.clear()
    MUT.clear()
    MUT.update(mutated_params(prog))
    for m in sorted(prog.modules.values(), key=lambda m: m.name):
        if not m.name.startswith('librksv.') or m.name.endswith('run_test'):
            continue
        ctx.saw(m.name)
        check(ctx, prog, m)
        handouts(ctx, prog, m)
