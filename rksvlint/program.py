"""Source model of the repository: modules, classes, MRO, name resolution."""
import ast
import builtins
import os

from . import canon

LIB = 'librksv'


class AnalysisBroken(Exception):
    """an anchor vanished or a source could not be analysed: neither pass nor fail"""


class FuncInfo(object):
    def __init__(self, node, module, cls, qual):
        self.node, self.module, self.cls, self.qual = node, module, cls, qual
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_scope(node))
        decs = [d.id if isinstance(d, ast.Name) else getattr(d, 'attr', None) for d in getattr(node, 'decorator_list', [])]
        self.static = 'staticmethod' in decs
        self.classm = 'classmethod' in decs
        self.prop = 'property' in decs
        self.has_nested = any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in ast.walk(node) if n is not node)
        self.globals = set()
        for n in walk_scope(node):
            if isinstance(n, ast.Global):
                self.globals.update(n.names)


def walk_scope(node):
    """walk without descending into nested functions/classes"""
    body = node.body if isinstance(node.body, list) else [node.body]
    st = list(body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        st.extend(ast.iter_child_nodes(n))


class ClassInfo(object):
    def __init__(self, node, module, qual):
        self.node, self.module, self.qual = node, module, qual
        self.methods = {}
        self.attrs = {}
        self.nested = {}
        self.bases = []      # filled by Program.link

    def __repr__(self):
        return '<class %s>' % self.qual


class ModuleInfo(object):
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.funcs, self.classes, self.imports, self.assigns = {}, {}, {}, {}
        self.rebound = set()                  # names the tool itself gives a new value
        self.stmts = []

    @property
    def short(self):
        return self.name[len(LIB) + 1:] if self.name.startswith(LIB + '.') else self.name


EXT_BASES = {
    'binascii.Error': 'ValueError',
    'UnicodeDecodeError': 'UnicodeError', 'UnicodeEncodeError': 'UnicodeError', 'UnicodeError': 'ValueError',
    'jwt.exceptions.DecodeError': 'jwt.exceptions.InvalidTokenError',
    'jwt.exceptions.InvalidSignatureError': 'jwt.exceptions.DecodeError',
    'jwt.exceptions.InvalidTokenError': 'jwt.exceptions.PyJWTError',
    'jwt.exceptions.InvalidAlgorithmError': 'jwt.exceptions.InvalidTokenError',
    'jwt.exceptions.InvalidKeyError': 'jwt.exceptions.PyJWTError',
    'jwt.exceptions.PyJWTError': 'Exception',
    'cryptography.exceptions.InvalidSignature': 'Exception',
    'configparser.Error': 'Exception',
    'ijson.JSONError': 'Exception',
    'ijson.common.JSONError': 'Exception',
    'json.JSONDecodeError': 'ValueError',
    'enum.Enum': 'object',
}


def is_main_guard(st):
    if not isinstance(st, ast.If) or st.orelse or not isinstance(st.test, ast.Compare) or len(st.test.ops) != 1 \
            or not isinstance(st.test.ops[0], ast.Eq):
        return False
    a = [st.test.left, st.test.comparators[0]]
    return any(isinstance(x, ast.Name) and x.id == '__name__' for x in a) and \
        any(isinstance(x, ast.Constant) and x.value == '__main__' for x in a)


class Plain(ast.NodeTransformer):
    """statements that abbreviate a loop, written out"""

    def visit_Expr(self, n):
        self.generic_visit(n)
        c = n.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'writelines' and len(c.args) == 1 \
                and not c.keywords and not isinstance(c.args[0], ast.Starred):
            v = '_part_%d' % c.lineno
            call = ast.Call(ast.Attribute(c.func.value, 'write', ast.Load()), [ast.Name(v, ast.Load())], [])
            return ast.fix_missing_locations(ast.copy_location(
                ast.For(ast.Name(v, ast.Store()), c.args[0], [ast.Expr(call)], [], lineno=n.lineno), n))
        return n


class Program(object):
    def __init__(self, root, scripts=True, extra=()):
        self.root = root
        self.modules = {}
        self.classes = {}
        self.own_attrs = {}
        self.files = []
        lib = os.path.join(root, LIB)
        for fn in sorted(os.listdir(lib)):
            if fn.endswith('.py'):
                name = LIB if fn == '__init__.py' else LIB + '.' + fn[:-3]
                self.load(name, os.path.join(lib, fn))
        if scripts:
            for fn in sorted(os.listdir(root)):
                p = os.path.join(root, fn)
                if fn.endswith('.py') and not os.path.islink(p):
                    self.load('script.' + fn[:-3], p)
        for name, path in extra:
            self.load(name, path)
        for m in self.modules.values():
            self.link(m)
        canon.CLASSES = self

    def load(self, name, path):
        with open(path, encoding='utf-8') as f:
            src = f.read()
        try:
            tree = ast.parse(src, path)
        except SyntaxError as e:
            raise AnalysisBroken('%s: %s' % (path, e))
        tree = Plain().visit(tree)
        m = ModuleInfo(name, path, tree, src)
        self.modules[name] = m
        self.files.append(path)
        self.collect(m, tree.body)

    def collect(self, m, body):
        for st in body:
            if isinstance(st, ast.FunctionDef):
                m.funcs[st.name] = FuncInfo(st, m, None, m.short + '.' + st.name)
            elif isinstance(st, ast.ClassDef):
                ci = ClassInfo(st, m, m.short + '.' + st.name)
                m.classes[st.name] = ci
                self.classes[ci.qual] = ci
                self.collect_class(m, ci)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.imports[a.asname] = ('mod', a.name)
                    else:
                        m.imports[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ''
                if st.level:
                    pk = m.name.split('.')
                    pk = pk[:len(pk) - st.level]
                    base = '.'.join(pk + ([st.module] if st.module else []))
                for a in st.names:
                    m.imports[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.assigns[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                m.assigns[st.target.id] = st.value
            elif is_main_guard(st):
                # the tool itself: its names are locals of a function of their own
                f = ast.FunctionDef('__main__', ast.arguments([], [], None, [], [], None, []), st.body, [], None)
                ast.copy_location(f, st)
                ast.fix_missing_locations(f)
                m.funcs['__main__'] = FuncInfo(f, m, None, m.short + '.__main__')
                m.rebound |= set(n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store))
            elif isinstance(st, (ast.If, ast.Try)):
                self.collect(m, st.body)
                for h in getattr(st, 'handlers', []):
                    self.collect(m, h.body)
                if isinstance(st, ast.If):
                    self.collect(m, st.orelse)
                m.stmts.append(st)
            else:
                m.stmts.append(st)

    def collect_class(self, m, ci):
        for s in ci.node.body:
            if isinstance(s, ast.FunctionDef):
                ci.methods[s.name] = FuncInfo(s, m, ci, ci.qual + '.' + s.name)
            elif isinstance(s, ast.ClassDef):
                n = ClassInfo(s, m, ci.qual + '.' + s.name)
                ci.nested[s.name] = n
                self.classes[n.qual] = n
                self.collect_class(m, n)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                ci.attrs[s.targets[0].id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                ci.attrs[s.target.id] = s.value

    def link(self, m):
        todo = list(m.classes.values())
        while todo:
            ci = todo.pop()
            ci.bases = [self.resolve_base(m, b) for b in ci.node.bases]
            todo += ci.nested.values()

    def find_nested(self, ci, name):
        for c in self.mro(ci):
            if isinstance(c, ClassInfo) and name in c.nested:
                return c.nested[name]
        return None

    def resolve_base(self, m, node):
        """ClassInfo or external dotted name"""
        r = self.resolve_static(m, node)
        return r if r is not None else ast.dump(node)

    def resolve_static(self, m, node):
        """statically resolve Name/Attribute chains to ClassInfo/FuncInfo/ModuleInfo/ext string"""
        if isinstance(node, ast.Name):
            return self.lookup(m, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_static(m, node.value)
            if isinstance(b, ModuleInfo):
                return self.lookup(b, node.attr)
            if isinstance(b, ClassInfo):
                return self.find_method(b, node.attr) or self.find_nested(b, node.attr)
            if isinstance(b, str):
                return b + '.' + node.attr
        return None

    def lookup(self, m, name):
        if name in m.funcs:
            return m.funcs[name]
        if name in m.classes:
            return m.classes[name]
        if name in m.imports:
            imp = m.imports[name]
            if imp[0] == 'mod':
                return self.modules.get(imp[1]) or imp[1]
            base, nm = imp[1], imp[2]
            sub = self.modules.get((base + '.' + nm) if base else nm)
            if sub is not None:
                return sub
            bm = self.modules.get(base)
            if bm is not None:
                r = self.lookup(bm, nm)
                return r if r is not None else base + '.' + nm
            return (base + '.' + nm) if base else nm
        if name in m.assigns:
            return ('assign', m, name)
        if hasattr(builtins, name):
            return name
        return None

    def mro(self, ci):
        out, seen = [], set()

        def go(c):
            if isinstance(c, ClassInfo):
                if c.qual in seen:
                    return
                seen.add(c.qual)
                out.append(c)
                for b in c.bases:
                    go(b)
            elif isinstance(c, str):
                if c not in seen:
                    seen.add(c)
                    out.append(c)
                    b = EXT_BASES.get(c)
                    if b is None:
                        t = getattr(builtins, c, None)
                        if isinstance(t, type):
                            for k in t.__mro__[1:]:
                                if k.__name__ not in seen:
                                    seen.add(k.__name__)
                                    out.append(k.__name__)
                            return
                        return
                    go(b)
        go(ci)
        return out

    def mro_names(self, q):
        ci = self.classes.get(q, q)
        return [c.qual if isinstance(c, ClassInfo) else c for c in self.mro(ci)]

    def issub(self, a, b):
        if a == b:
            return True
        if b in ('Exception', 'BaseException', 'object'):
            b_names = True
        return b in self.mro_names(a)

    def is_exception(self, q):
        ns = self.mro_names(q)
        if any(n in ('Exception', 'BaseException') for n in ns):
            return True
        t = getattr(builtins, q, None) if isinstance(q, str) else None
        return isinstance(t, type) and issubclass(t, BaseException) or q in EXT_BASES and q != 'enum.Enum'

    def find_method(self, ci, name):
        for c in self.mro(ci):
            if isinstance(c, ClassInfo) and name in c.methods:
                return c.methods[name]
        return None

    def instance_attrs(self, ci):
        """names assigned as self.<name> in the class and its bases"""
        out = set()
        for c in self.mro(ci):
            if isinstance(c, ClassInfo):
                for f in c.methods.values():
                    a = f.node.args.args
                    if f.static or f.classm or not a:
                        continue
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                                isinstance(n.value, ast.Name) and n.value.id == a[0].arg:
                            out.add(n.attr)
        return out

    def assigned_attr(self, ci, name):
        """whether an object of the class, or of one derived from it, may have a value of its own"""
        k = (ci.qual, name)
        r = self.own_attrs.get(k)
        if r is None:
            r = self.own_attrs[k] = name in self.instance_attrs(ci) or any(
                name in self.instance_attrs(c) for c in self.classes.values() if c is not ci and ci in self.mro(c))
        return r

    def outside_stores(self):
        """attribute names that functions which are no methods, or other objects' methods, assign"""
        out = self.own_attrs.get('*')
        if out is not None:
            return out
        out, own = set(), set()
        for m in self.modules.values():
            if m.name.startswith('spec.'):
                continue
            for c in ast.walk(m.tree):
                if isinstance(c, ast.ClassDef):
                    for f in c.body:
                        if isinstance(f, ast.FunctionDef) and f.args.args and f.args.args[0].arg == 'self':
                            own |= set(id(n) for n in ast.walk(f) if isinstance(n, ast.Attribute) and
                                       isinstance(n.value, ast.Name) and n.value.id == 'self')
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and id(n) not in own:
                    out.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1 \
                        and isinstance(n.args[1], ast.Constant):
                    out.add(n.args[1].value)
        self.own_attrs['*'] = out
        return out

    def may_have(self, ci, name):
        """whether an object of the class, or of one derived from it, can have the attribute"""
        k = (ci.qual, name, 'any')
        r = self.own_attrs.get(k)
        if r is not None:
            return r
        r = name.startswith('__') or name in self.outside_stores() or self.assigned_attr(ci, name)
        if not r:
            for c in [ci] + [c for c in self.classes.values() if c is not ci and ci in self.mro(c)]:
                for b in self.mro(c):
                    if not isinstance(b, ClassInfo):
                        r = r or b != 'object'
                    elif name in b.methods or name in b.attrs or name in getattr(b, 'nested', ()) or '__getattr__' in b.methods or \
                            '__getattribute__' in b.methods or '__slots__' in b.attrs:
                        r = True
                    elif b in self.mro(ci):
                        r = r or any(isinstance(n, ast.Attribute) and n.attr == '__dict__' or isinstance(n, ast.Name) and n.id == 'setattr'
                                     for f in b.methods.values() for n in ast.walk(f.node))
        self.own_attrs[k] = r
        return r

    def find_attr(self, ci, name):
        for c in self.mro(ci):
            if isinstance(c, ClassInfo) and name in c.attrs:
                return c, c.attrs[name]
        return None

    def func(self, qual):
        """'verify.verifyGroup' / 'receipt.Receipt.isNull' -> FuncInfo"""
        parts = qual.split('.')
        for i in range(len(parts) - 1, 0, -1):
            mn = '.'.join(parts[:i])
            m = self.modules.get(LIB + '.' + mn) or self.modules.get(mn)
            if m is None:
                continue
            rest = parts[i:]
            if len(rest) == 1:
                r = self.lookup(m, rest[0])
                if isinstance(r, FuncInfo):
                    return r
            elif len(rest) >= 2:
                c = self.lookup(m, rest[0])
                for n in rest[1:-1]:
                    c = self.find_nested(c, n) if isinstance(c, ClassInfo) else None
                rest = [rest[0], rest[-1]]
                if isinstance(c, ClassInfo):
                    f = self.find_method(c, rest[1])
                    if f:
                        return f
        raise AnalysisBroken('anchor function %s not found' % qual)

    def cls(self, qual):
        c = self.classes.get(qual)
        if c is None:
            raise AnalysisBroken('anchor class %s not found' % qual)
        return c
