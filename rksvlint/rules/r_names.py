"""Names, members and calls: every name a path refers to exists, every call of
library code supplies what its target takes."""
import ast
import builtins
import importlib
import string
import sys

from ..core import rule
from ..program import ClassInfo, FuncInfo, ModuleInfo, is_main_guard

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__builtins__', '__package__', '__spec__', '__loader__', '__path__'}
PY2 = {'unicode', 'basestring', 'long', 'xrange', 'raw_input', 'unichr', 'reduce', 'file', 'cmp', 'execfile', 'reload'}
SKIP = ('script.run_test', 'script.test_verify')       # drivers of the test suite
FN = (ast.FunctionDef, ast.AsyncFunctionDef)
COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


class Scope(object):
    def __init__(self, kind, node, parent):
        self.kind, self.node, self.parent = kind, node, parent
        self.names, self.globals, self.nonlocals = {}, set(), set()
        self.star = False

    def bind(self, name, node):
        if name in self.globals:
            s = self
            while s.kind != 'module':
                s = s.parent
            s.names.setdefault(name, []).append(node)
        else:
            self.names.setdefault(name, []).append(node)


class Binder(ast.NodeVisitor):
    """scopes of a module; uses: [(scope, Name node)]"""
    def __init__(self, tree):
        self.top = self.scope = Scope('module', tree, None)
        self.uses = []
        self.attrs, self.calls, self.unpacks = [], [], []
        self.defer = []
        self.handler = []
        for s in tree.body:
            self.visit(s)
        while self.defer:
            sc, f = self.defer.pop(0)
            self.scope = sc
            f()

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            self.uses.append((self.scope, n))
        else:
            self.scope.bind(n.id, n)

    def inner(self, kind, node):
        s = Scope(kind, node, self.scope)
        return s

    def function(self, n, body):
        a = n.args
        for d in list(a.defaults) + [x for x in a.kw_defaults if x is not None]:
            self.visit(d)
        sc = self.inner('function', n)

        def later():
            for x in ast.walk(ast.Module(body, [])):
                if isinstance(x, ast.Global):
                    sc.globals.update(x.names)
                elif isinstance(x, ast.Nonlocal):
                    sc.nonlocals.update(x.names)
            for x in list(getattr(a, 'posonlyargs', [])) + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                sc.bind(x.arg, x)
            for s in body:
                self.visit(s)
        self.defer.append((sc, later))

    def visit_FunctionDef(self, n):
        for d in n.decorator_list:
            self.visit(d)
        self.scope.bind(n.name, n)
        self.function(n, n.body)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, n):
        self.function(n, [ast.Expr(n.body)])

    def visit_ClassDef(self, n):
        for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
            self.visit(d)
        self.scope.bind(n.name, n)
        old, self.scope = self.scope, self.inner('class', n)
        for s in n.body:
            self.visit(s)
        self.scope = old

    def comp(self, n):
        self.visit(n.generators[0].iter)
        old, self.scope = self.scope, self.inner('comp', n)
        for i, g in enumerate(n.generators):
            if i:
                self.visit(g.iter)
            self.visit(g.target)
            for c in g.ifs:
                self.visit(c)
        if isinstance(n, ast.DictComp):
            self.visit(n.key)
            self.visit(n.value)
        else:
            self.visit(n.elt)
        self.scope = old

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp

    def visit_NamedExpr(self, n):
        self.visit(n.value)
        s = self.scope
        while s.kind == 'comp':
            s = s.parent
        s.bind(n.target.id, n.target)

    def visit_Import(self, n):
        for a in n.names:
            self.scope.bind(a.asname or a.name.split('.')[0], (n, a))

    def visit_ImportFrom(self, n):
        for a in n.names:
            if a.name == '*':
                self.scope.star = True
            else:
                self.scope.bind(a.asname or a.name, (n, a))

    def visit_Global(self, n):
        self.scope.globals.update(n.names)

    def visit_ExceptHandler(self, n):
        if n.type:
            self.visit(n.type)
        if n.name:
            self.scope.bind(n.name, n)
        for s in n.body:
            self.visit(s)

    def visit_MatchAs(self, n):
        if n.name:
            self.scope.bind(n.name, n)
        self.generic_visit(n)

    visit_MatchStar = visit_MatchAs

    def visit_Attribute(self, n):
        self.attrs.append((self.scope, n))
        self.generic_visit(n)

    def visit_Call(self, n):
        self.calls.append((self.scope, n))
        self.generic_visit(n)

    def visit_Assign(self, n):
        self.visit(n.value)
        for t in n.targets:
            self.visit(t)
        self.unpacks.append((self.scope, n))

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            self.uses.append((self.scope, n.target))
        self.generic_visit(n)


def find(scope, name):
    """(scope, binding nodes) of a name, or None"""
    s, first = scope, True
    while s is not None:
        if (s.kind != 'class' or first) and name in s.names and name not in s.globals:
            return s, s.names[name]
        if s.kind != 'comp':
            first = False
        s = s.parent
    return None


class Module(object):
    def __init__(self, prog, m):
        self.prog, self.m = prog, m
        self.b = Binder(m.tree)
        self.installs_gettext = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'install'
                                    for n in ast.walk(m.tree))

    # ---- static values: ('mod', ModuleInfo) ('ext', dotted) ('class', ClassInfo) ('func', FuncInfo)
    def static(self, scope, e):
        if isinstance(e, ast.Name):
            r = find(scope, e.id)
            if r is None:
                return ('builtin', e.id) if e.id in BUILTINS else None
            s, bs = r
            if len(bs) != 1:
                # all bindings have to agree
                vs = [self.binding(s, b, e.id) for b in bs]
                return vs[0] if all(v is not None and v == vs[0] for v in vs) else None
            return self.binding(s, bs[0], e.id)
        if isinstance(e, ast.Attribute):
            b = self.static(scope, e.value)
            if b is None:
                return None
            return member(self.prog, b, e.attr)
        return None

    def binding(self, s, b, name):
        if isinstance(b, tuple):
            n, a = b
            if isinstance(n, ast.Import):
                return modval(self.prog, a.name if a.asname else a.name.split('.')[0])
            base = n.module or ''
            if n.level:
                pk = self.m.name.split('.')[:-n.level] if not self.m.path.endswith('__init__.py') else \
                    self.m.name.split('.')[:len(self.m.name.split('.')) - n.level + 1]
                base = '.'.join(pk + ([n.module] if n.module else []))
            sub = self.prog.modules.get(base + '.' + a.name)
            if sub is not None:
                return ('mod', sub)
            return member(self.prog, modval(self.prog, base), a.name)
        if s.kind == 'module' and isinstance(b, ast.ClassDef):
            ci = self.m.classes.get(name)
            return ('class', ci) if ci is not None and ci.node is b else None
        if s.kind == 'module' and isinstance(b, FN):
            f = self.m.funcs.get(name)
            return ('func', f) if f is not None and f.node is b else None
        return None


MODS = {}


def modval(prog, name):
    m = prog.modules.get(name)
    if m is not None:
        return ('mod', m)
    # a tool importing another one
    m = prog.modules.get('script.' + name)
    if m is not None:
        return ('mod', m)
    return ('ext', name)


def info(prog, m):
    k = id(m)
    if k not in MODS:
        MODS[k] = (Module(prog, m), m)
    return MODS[k][0]


def stdlib(name):
    top = name.split('.')[0]
    if top not in sys.stdlib_module_names or top in ('antigravity', 'this', 'idlelib', 'turtledemo'):
        return None
    try:
        return importlib.import_module(name)
    except Exception:
        return None


MISSING = ('missing',)


def member(prog, b, name):
    if b is None or b is MISSING:
        return None
    k, v = b
    if k == 'mod':
        mi = info(prog, v)
        sub = prog.modules.get(v.name + '.' + name)
        if name in mi.b.top.names:
            bs = mi.b.top.names[name]
            vs = [mi.binding(mi.b.top, x, name) for x in bs]
            if all(x is not None and x == vs[0] for x in vs):
                return vs[0]
            return None
        if sub is not None:
            return ('mod', sub)
        if mi.b.top.star or name in BUILTINS or name == '__dict__' or '__getattr__' in mi.b.top.names:
            return None
        return MISSING
    if k == 'ext':
        o = stdlib(v)
        if o is None:
            return ('ext', v + '.' + name) if v.split('.')[0] not in sys.stdlib_module_names else None
        if not hasattr(o, name):
            try:
                importlib.import_module(v + '.' + name)
                return ('ext', v + '.' + name)
            except Exception:
                return MISSING
        return ('ext', v + '.' + name) if stdlib(v + '.' + name) is not None else None
    if k == 'class':
        f = prog.find_method(v, name)
        if f is not None:
            return ('method', f) if f.static or f.classm else ('func', f)
        n = prog.find_nested(v, name)
        if n is not None:
            return ('class', n)
        if prog.find_attr(v, name) is not None or not known(prog, v) or name.startswith('__'):
            return None
        if name in family_attrs(prog, v):
            return None
        return MISSING
    return None


def known(prog, ci):
    """all bases are analysed"""
    return all(isinstance(c, ClassInfo) or c in ('object', 'Exception', 'BaseException', 'ValueError') for c in prog.mro(ci))


def dynamic(ci):
    for n in ast.walk(ci.node):
        if isinstance(n, ast.Attribute) and n.attr == '__dict__' or isinstance(n, ast.Name) and n.id == 'setattr' or \
                isinstance(n, FN) and n.name in ('__getattr__', '__getattribute__') or isinstance(n, ast.Call) and \
                isinstance(n.func, ast.Name) and n.func.id in ('namedtuple',):
            if isinstance(n, ast.Attribute) and not writes_dict(ci.node):
                continue
            return True
    return False


def writes_dict(node):
    for n in ast.walk(node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Attribute) \
                and n.func.value.attr == '__dict__':
            return True
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Attribute) \
                and n.value.attr == '__dict__':
            return True
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == '__dict__' for t in n.targets):
            return True
    return False


def family_attrs(prog, ci):
    """every attribute some object of ci or of a class below it may have"""
    out = set(dir(Exception)) if prog.is_exception(ci.qual) else set(dir(object))
    out |= {'__dict__'}
    cs = [c for c in prog.classes.values() if c is ci or ci in prog.mro(c)]
    seen = set()
    for c in cs:
        for b in prog.mro(c):
            if not isinstance(b, ClassInfo) or b.qual in seen:
                continue
            seen.add(b.qual)
            out |= set(b.methods) | set(b.nested) | set(b.attrs)
            for n in ast.walk(b.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    out.add(n.attr)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    pass
            for s in b.node.body:
                for n in ast.walk(s) if not isinstance(s, FN) else ():
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        out.add(n.id)
    return out


def arity_problem(fn, args, keywords, bound):
    """None, or why the call cannot be bound"""
    if any(isinstance(a, ast.Starred) for a in args) or any(k.arg is None for k in keywords):
        return None
    a = fn.node.args
    names = [x.arg for x in list(getattr(a, 'posonlyargs', [])) + a.args]
    nd = len(a.defaults)
    given = set()
    pos = len(args) + (1 if bound else 0)
    if pos > len(names) and a.vararg is None:
        return 'takes at most %d positional arguments, gets %d' % (len(names), pos)
    given.update(names[:pos])
    kwo = [x.arg for x in a.kwonlyargs]
    for k in keywords:
        if k.arg in given:
            return 'gets %s twice' % k.arg
        if k.arg not in names and k.arg not in kwo and a.kwarg is None:
            return 'has no parameter %s' % k.arg
        given.add(k.arg)
    for n in names[:len(names) - nd]:
        if n not in given:
            return 'needs %s' % n
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is None and x.arg not in given:
            return 'needs %s' % x.arg
    return None


def enclosing_class(mi, scope):
    """(ClassInfo, function scope) whose method the scope lies in"""
    s = scope
    while s is not None and s.parent is not None:
        if s.kind == 'function' and s.parent.kind == 'class':
            for ci in mi.prog.classes.values():
                if ci.node is s.parent.node:
                    return ci, s
            return None, None
        s = s.parent
    return None, None


def fixed_return(prog, fn, depth=0):
    """length of the tuple every return of fn yields, or None"""
    if fn.is_gen or isinstance(fn.node, ast.Lambda):
        return None
    from ..program import walk_scope
    ls = set()
    for n in walk_scope(fn.node):
        if isinstance(n, ast.Return):
            if isinstance(n.value, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in n.value.elts):
                ls.add(len(n.value.elts))
            else:
                return None
    if len(ls) != 1:
        return None
    return ls.pop()


def object_type(mi, scope, e, depth=0):
    """program class of which e certainly is an instance"""
    prog = mi.prog
    if depth > 4:
        return None
    if isinstance(e, ast.Call):
        f = mi.static(scope, e.func)
        if f is None or f is MISSING:
            return None
        if f[0] == 'class':
            return f[1]
        if f[0] == 'method' and f[1].classm and isinstance(e.func, ast.Attribute):
            c = mi.static(scope, e.func.value)
            if c is not None and c[0] == 'class' and makes_own(f[1]):
                return c[1]
        return None
    if isinstance(e, ast.Name):
        r = find(scope, e.id)
        if r is None or r[0].kind not in ('function', 'comp') and not (r[0].kind == 'module'):
            return None
        ts = set()
        for b in r[1]:
            v = assigned_value(r[0].node, b)
            t = object_type(mi, r[0], v, depth + 1) if v is not None else None
            ts.add(t)
        if len(ts) == 1:
            return ts.pop()
    return None


def makes_own(fn):
    """classmethod all of whose returns build an object with cls(...)"""
    from ..program import walk_scope
    if not fn.node.args.args:
        return False
    c = fn.node.args.args[0].arg
    loc = {}
    rets = []
    for n in walk_scope(fn.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            loc.setdefault(n.targets[0].id, []).append(n.value)
        elif isinstance(n, ast.Return):
            rets.append(n.value)

    def own(v):
        return isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == c
    for v in rets:
        if own(v):
            continue
        if isinstance(v, ast.Name) and loc.get(v.id) and all(own(x) for x in loc[v.id]):
            continue
        return False
    return bool(rets)


PARENTS = {}


def assigned_value(root, node):
    """value of the plain assignment whose single target is the Name node"""
    k = id(root)
    if k not in PARENTS:
        d = {}
        for n in ast.walk(root):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        d[id(t)] = n.value
        PARENTS[k] = (d, root)
    return PARENTS[k][0].get(id(node))


def handler_only(scope, name, bs):
    """bound only by except clauses, whose end removes it"""
    return scope.kind in ('function', 'module') and all(isinstance(b, ast.ExceptHandler) for b in bs)


def format_problem(call):
    """"...".format(...) or _("...").format(...) with a field nobody supplies"""
    f = call.func
    if not isinstance(f, ast.Attribute) or f.attr != 'format':
        return None
    v = f.value
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == '_' and len(v.args) == 1:
        v = v.args[0]
    if not (isinstance(v, ast.Constant) and isinstance(v.value, str)):
        return None
    star = any(isinstance(a, ast.Starred) for a in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    auto = 0
    try:
        fields = list(string.Formatter().parse(v.value))
    except ValueError as e:
        return str(e)
    todo = [x for x in fields]
    for lit, name, spec, conv in todo:
        if name is None:
            continue
        if spec and '{' in spec:
            return None
        key = name.split('.')[0].split('[')[0]
        if key == '':
            key = str(auto)
            auto += 1
        if key.isdigit():
            if int(key) >= len(call.args) and not star:
                return 'field {%s}, %d arguments' % (key, len(call.args))
        elif not dstar and key not in [k.arg for k in call.keywords]:
            return 'field {%s} is not supplied' % key
    return None


def percent_problem(e):
    v = e.left
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == '_' and len(v.args) == 1:
        v = v.args[0]
    if not (isinstance(v, ast.Constant) and isinstance(v.value, str)):
        return None
    import re
    specs = re.findall(r'%(?:\((\w+)\))?[#0\- +]*(\*|\d+)?(?:\.(?:\*|\d+))?[hlL]?([a-zA-Z%])', v.value)
    if any(s[1] == '*' for s in specs) or any(s[0] for s in specs):
        return None
    n = sum(1 for s in specs if s[2] != '%')
    if isinstance(e.right, ast.Tuple):
        if any(isinstance(x, ast.Starred) for x in e.right.elts):
            return None
        if len(e.right.elts) != n:
            return '%d fields, %d values' % (n, len(e.right.elts))
    elif isinstance(e.right, (ast.Constant, ast.JoinedStr, ast.BinOp)) and n != 1:
        return '%d fields, one value' % n
    return None


def guarded_names(tree):
    """uses under a handler for NameError, AttributeError or ImportError, or in a branch for one Python version or platform"""
    out = set()

    def mark(body):
        for s in body:
            for n in ast.walk(s):
                out.add(id(n))
    for n in ast.walk(tree):
        if isinstance(n, ast.Try):
            for h in n.handlers:
                d = ast.dump(h.type) if h.type is not None else 'NameError'
                if any(x in d for x in ('NameError', 'AttributeError', 'ImportError', 'ModuleNotFoundError')):
                    mark(n.body)
        elif isinstance(n, ast.If):
            d = ast.dump(n.test)
            if 'PY2' in d or 'PY3' in d or 'version_info' in d or "id='platform'" in d or "attr='platform'" in d:
                mark(n.body)
                mark(n.orelse)
        elif isinstance(n, ast.IfExp):
            d = ast.dump(n.test)
            if 'PY2' in d or 'PY3' in d or 'version_info' in d:
                out.update(id(x) for x in ast.walk(n))
    return out


def qual_of(mi, scope):
    parts = []
    s = scope
    while s is not None and s.kind != 'module':
        if s.kind in ('function', 'class'):
            parts.insert(0, getattr(s.node, 'name', 'lambda'))
        s = s.parent
    return '.'.join([mi.m.short] + parts)


def check_module(ctx, prog, m, stores):
    mi = info(prog, m)
    guarded = guarded_names(m.tree)

    def where(n, scope):
        return '%s:%d in %s' % (m.path, getattr(n, 'lineno', 0), qual_of(mi, scope))

    def bad(n, scope, key, text):
        ctx.bad(where(n, scope), '%s|%s' % (qual_of(mi, scope), key), text)

    star = mi.b.top.star
    # names
    for scope, n in mi.b.uses:
        ctx.ok()
        r = find(scope, n.id)
        if r is None:
            if n.id in BUILTINS or star or id(n) in guarded or (n.id == '_' and mi.installs_gettext):
                continue
            ctx.discharged -= 1
            ctx.obligations -= 1
            bad(n, scope, 'name ' + n.id, 'name %s is not bound anywhere' % n.id)
        elif handler_only(r[0], n.id, r[1]) and r[0] is scope:
            if not any(h.lineno <= n.lineno and any(x is n for s in h.body for x in ast.walk(s)) for h in r[1]):
                bad(n, scope, 'name ' + n.id, 'name %s is used outside of the except clause that binds it' % n.id)
    ctx.count('name uses', len(mi.b.uses))
    # imports and members of modules and classes
    for scope in scopes(mi):
        for name, bs in scope.names.items():
            for b in bs:
                if isinstance(b, tuple):
                    ctx.ok()
                    if id(b[0]) not in guarded and mi.binding(scope, b, name) is MISSING:
                        bad(b[0], scope, 'import ' + b[1].name, '%s has no member %s' % (b[0].module, b[1].name))
    for scope, n in mi.b.attrs:
        if id(n) in guarded or not isinstance(n.ctx, ast.Load):
            continue
        b = mi.static(scope, n.value)
        if b is not None and b is not MISSING and b[0] in ('mod', 'ext', 'class'):
            ctx.ok()
            if member(prog, b, n.attr) is MISSING and not (b[0] != 'ext' and n.attr in stores):
                bad(n, scope, 'member ' + n.attr, '%s has no member %s' % (ast.unparse(n.value), n.attr))
            continue
        ci = None
        if isinstance(n.value, ast.Name):
            c, fs = enclosing_class(mi, scope)
            if c is not None:
                fi = c.methods.get(fs.node.name)
                if fi is not None and not fi.static and not fi.classm and fs.node.args.args and \
                        fs.node.args.args[0].arg == n.value.id and len(fs.names.get(n.value.id, ())) == 1:
                    ci = c
        if ci is None and isinstance(n.value, (ast.Name, ast.Call)):
            ci = object_type(mi, scope, n.value)
        if ci is not None and known(prog, ci):
            fam = [c for c in prog.classes.values() if c is ci or ci in prog.mro(c)] + \
                [c for c in prog.mro(ci) if isinstance(c, ClassInfo)]
            if any(dynamic(c) for c in fam):
                continue
            ctx.ok()
            if n.attr not in family_attrs(prog, ci) and n.attr not in stores:
                bad(n, scope, 'attribute ' + n.attr, 'no object of class %s has an attribute %s' % (ci.qual, n.attr))
    # calls
    for scope, n in mi.b.calls:
        p = format_problem(n)
        if p:
            bad(n, scope, 'format', 'string formatting fails: ' + p)
        fn, bound, what = target(mi, scope, n)
        if fn is None:
            continue
        ctx.ok()
        ctx.count('calls of library code')
        p = arity_problem(fn, n.args, n.keywords, bound)
        if p:
            bad(n, scope, 'call ' + fn.qual, 'call of %s: it %s' % (fn.qual, p))
    for scope, n in mi.b.unpacks:
        if not isinstance(n.value, ast.Call):
            continue
        fn, bound, what = target(mi, scope, n.value)
        if fn is None or what == 'class':
            continue
        k = fixed_return(prog, fn)
        for t in n.targets:
            if isinstance(t, (ast.Tuple, ast.List)) and k is not None and not any(isinstance(e, ast.Starred) for e in t.elts):
                ctx.ok()
                if len(t.elts) != k:
                    bad(n, scope, 'unpack ' + fn.qual, '%s returns %d values, %d are expected' % (fn.qual, k, len(t.elts)))
    for n in ast.walk(m.tree):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
            p = percent_problem(n)
            if p:
                bad(n, mi.b.top, 'format', 'string formatting fails: ' + p)


def scopes(mi):
    seen = {id(mi.b.top): mi.b.top}
    for s, n in mi.b.uses + mi.b.attrs + mi.b.calls:
        while s is not None:
            seen[id(s)] = s
            s = s.parent
    return list(seen.values())


def target(mi, scope, n):
    """(FuncInfo, is the first parameter bound already, kind)"""
    prog = mi.prog
    f = n.func
    v = mi.static(scope, f)
    if v is MISSING:
        return None, False, None
    if v is not None:
        if v[0] == 'class':
            ci = v[1]
            if not known(prog, ci) or '__new__' in ci.methods:
                return None, False, None
            i = prog.find_method(ci, '__init__')
            return (i, True, 'class') if i is not None else (None, False, None)
        if v[0] == 'method':
            return v[1], v[1].classm, 'func'
        if v[0] == 'func':
            if decorated(v[1]):
                return None, False, None
            return v[1], False, 'func'
        return None, False, None
    if isinstance(f, ast.Attribute):
        # super().m(...) and super(C, self).m(...)
        if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
            ci, fs = enclosing_class(mi, scope)
            if ci is None:
                return None, False, None
            mro = prog.mro(ci)
            for c in mro[1:]:
                if not isinstance(c, ClassInfo):
                    break
                if f.attr in c.methods:
                    fi = c.methods[f.attr]
                    return (fi, not fi.static, 'func') if not decorated(fi) else (None, False, None)
            return None, False, None
        ci = None
        exact = False
        if isinstance(f.value, ast.Name):
            c, fs = enclosing_class(mi, scope)
            if c is not None:
                fi = c.methods.get(fs.node.name)
                if fi is not None and not fi.static and fs.node.args.args and fs.node.args.args[0].arg == f.value.id \
                        and len(fs.names.get(f.value.id, ())) == 1:
                    ci = c
                    if fi.classm and f.attr not in ('__init__',):
                        t = prog.find_method(c, f.attr)
                        if t is None or not (t.static or t.classm):
                            return None, False, None
        if ci is None:
            ci = object_type(mi, scope, f.value) if isinstance(f.value, (ast.Name, ast.Call)) else None
            exact = True
        if ci is not None:
            t = prog.find_method(ci, f.attr)
            if t is None or decorated(t) or t.prop:
                return None, False, None
            # attribute of the object with the same name hides the method
            return t, not t.static, 'func'
    return None, False, None


def decorated(f):
    return bool([d for d in f.node.decorator_list if not (isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod'))])


@rule('names-bound', 'C22', 'every name, module or class member and call of library code in the library and the tools: the name is '
      'bound, the member exists, the arguments fit the parameters')
def _(ctx):
    prog = ctx.prog
    MODS.clear()
    PARENTS.clear()
    stores = prog.outside_stores()
    for m in sorted(prog.modules.values(), key=lambda m: m.name):
        if m.name.startswith('spec.') or m.name in SKIP:
            continue
        ctx.saw(m.name)
        check_module(ctx, prog, m, stores)
