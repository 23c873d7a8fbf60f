"""Mechanical extraction of /repo source into the verified dialect, redone on every run.

The text verified is the text of the files in the tree under check, parsed and changed ONLY so:
  * f-strings, '%' and str.format/join/replace/startswith/endswith, dict.get, list.index, .astype are
    routed through hooks that behave as the original on ordinary values and build structured
    text / fork on symbolic ones;
  * `x in c`, `o[k]` (non-literal k) likewise;
  * a bare `except:` becomes `except Exception:` (so it cannot swallow the engine's own signals);
  * `for` statements and single-generator list comprehensions get a second version used when the iterable
    is a sequence of unknown length (cut at an invariant); on ordinary iterables the original runs;
  * builtins float/int/str/bool/len/isinstance/type/range/round/min/max/... are the
    symbolic-aware versions of shadow.py; `numpy` and `math` are the models of npmodel.py/shadow.py;
    print does nothing.
Nothing is dropped.  Imports of impactutils modules are extracted the same way.
"""
import ast, os, sys, types, importlib, hashlib
from . import shadow, core, loops
from .npmodel import NP

REPO = os.environ.get('PYVC_REPO', '/repo')
HOOKED = {'format', 'join', 'replace', 'get', 'index', 'startswith', 'endswith', 'astype'}


def nm(i, ctx=None):
    return ast.Name(i, ctx or ast.Load())


def call(f, *a):
    return ast.Call(nm(f), list(a), [])


class Assigned(ast.NodeVisitor):
    """names assigned (stored) in a block, not descending into nested functions/comprehensions"""
    def __init__(self):
        self.names = []

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Store) and n.id not in self.names:
            self.names.append(n.id)

    def visit_FunctionDef(self, n): pass
    def visit_Lambda(self, n): pass
    def visit_ListComp(self, n): pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp


class Mutated(ast.NodeVisitor):
    """names whose object may be mutated in a block: x[..] = , x.m(..) , x.attr = """
    def __init__(self):
        self.names = []

    def add(self, n):
        while isinstance(n, ast.Subscript):
            n = n.value
        path = []
        while isinstance(n, ast.Attribute):
            path.append(n.attr)
            n = n.value
        if isinstance(n, ast.Name):
            p = '.'.join([n.id] + path[::-1])
            if p not in self.names:
                self.names.append(p)

    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Store):
            self.add(n)
        self.generic_visit(n)

    def visit_Attribute(self, n):
        if isinstance(n.ctx, ast.Store):
            self.add(n.value)
        self.generic_visit(n)

    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend', 'insert', 'update', 'add', 'pop', 'sort', 'remove', 'write'):
            self.add(n.func.value)
        self.generic_visit(n)


class T(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.fn = []
        self.nloop = {}

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        self.generic_visit(n)
        self.fn.pop()
        return n

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        self.generic_visit(n)
        self.fn.pop()
        return n

    def visit_AnnAssign(self, n):
        self.generic_visit(n)
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if self.fn and isinstance(n.ctx, ast.Load) and not n.elts:
            return call('_pv_list')
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                spec = self.visit_JoinedStr(spec) if spec is not None else ast.Constant('')
                conv = {-1: None, 115: 's', 114: 'r', 97: 'a'}[v.conversion]
                parts.append(ast.Tuple([self.visit(v.value), spec, ast.Constant(conv)], ast.Load()))
        return call('_pv_fstr', *parts)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return call('_pv_mod', n.left, n.right)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if self.fn and isinstance(n.func, ast.Name) and n.func.id in ('any', 'all') and len(n.args) == 1 and \
                isinstance(n.args[0], ast.GeneratorExp) and len(n.args[0].generators) == 1 and not n.args[0].generators[0].is_async:
            x = n.args[0]
            g = x.generators[0]
            gen = ast.Lambda(ast.arguments([], [ast.arg('_pv_it')], None, [], [], None, []),
                             ast.GeneratorExp(x.elt, [ast.comprehension(g.target, nm('_pv_it'), g.ifs, 0)]))
            return call('_pv_quant', n.func, ast.Constant(n.func.id), g.iter, gen, ast.Constant(bool(g.ifs)))
        if isinstance(n.func, ast.Attribute) and n.func.attr in HOOKED:
            return ast.Call(nm('_pv_call'), [n.func.value, ast.Constant(n.func.attr)] + n.args, n.keywords)
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            return n
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            r = call('_pv_in', n.left, n.comparators[0])
            return r if isinstance(n.ops[0], ast.In) else call('_pv_not', r)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not isinstance(n.slice, ast.Constant):
            s = n.slice
            if isinstance(s, ast.Slice):
                if all(x is None or isinstance(x, ast.Constant) or
                       (isinstance(x, ast.UnaryOp) and isinstance(x.operand, ast.Constant)) for x in (s.lower, s.upper, s.step)):
                    return n
                s = call('_pv_slice', *[x or ast.Constant(None) for x in (s.lower, s.upper, s.step)])
            elif isinstance(s, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred)) for e in s.elts):
                s = ast.Tuple([call('_pv_slice', *[x or ast.Constant(None) for x in (e.lower, e.upper, e.step)])
                               if isinstance(e, ast.Slice) else e for e in s.elts], ast.Load())
            return call('_pv_getitem', n.value, s)
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None:
            n.type = nm('Exception')
        return n

    def visit_ListComp(self, n):
        self.generic_visit(n)
        if self.fn and len(n.generators) == 1 and not n.generators[0].is_async:
            g = n.generators[0]
            one = lambda x: ast.arguments([], [ast.arg(x)], None, [], [], None, [])
            orig = ast.Lambda(one('_pv_it'), ast.ListComp(n.elt, [ast.comprehension(g.target, nm('_pv_it'), g.ifs, 0)]))
            # elementwise version: evaluate the comprehension on the one-element list [x]
            return call('_pv_comp', g.iter, orig, ast.Constant(bool(g.ifs)))
        return n

    def visit_For(self, n):
        key = f"{self.mod}:{'.'.join(self.fn)}"
        self.nloop[key] = self.nloop.get(key, 0) + 1
        lid = f'{key}#{self.nloop[key]}'
        self.generic_visit(n)
        if not self.fn:
            return n
        import copy
        self.nl = getattr(self, 'nl', 0) + 1
        L = f"_pv_L{self.nl}"
        av = Assigned()
        for s in [ast.Assign([n.target], ast.Constant(None))] + n.body:
            av.visit(s)
        mv = Mutated()
        for s in n.body:
            mv.visit(s)
        names = [x for x in av.names if not x.startswith('_pv')]
        mut = [x for x in mv.names if x not in names]
        b2 = [copy.deepcopy(s) for s in n.body]
        allv = names
        rebind = []
        if allv:
            tgt = ast.Tuple([nm(x, ast.Store()) for x in allv], ast.Store())
            rebind = lambda m: [ast.Assign([tgt], ast.Call(ast.Attribute(nm(L), m, ast.Load()), [], []))] + \
                []
        else:
            rebind = lambda m: [ast.Expr(ast.Call(ast.Attribute(nm(L), m, ast.Load()), [], []))]
        mc = lambda m, *a: ast.Call(ast.Attribute(nm(L), m, ast.Load()), list(a), [])
        once = ast.For(nm('_pv_once', ast.Store()), ast.Tuple([ast.Constant(0)], ast.Load()),
                       [ast.Assign([copy.deepcopy(n.target)], mc('elem'))] + b2,
                       [ast.Expr(mc('preserve', ast.Call(nm('locals'), [], [])))])
        once.body[-len(b2):] = b2
        symb = [ast.Expr(mc('entry', ast.Call(nm('locals'), [], []))),
                ast.If(mc('iterate'), rebind('havoc') + [once], rebind('exit') + [copy.deepcopy(s) for s in n.orelse] )]
        if not symb[1].orelse:
            symb[1].orelse = [ast.Pass()]
        orig = ast.For(n.target, ast.Attribute(nm(L), 'it', ast.Load()), n.body, n.orelse)
        return [ast.Assign([nm(L, ast.Store())], call('_pv_loop', ast.Constant(lid), n.iter,
                                                      ast.Tuple([ast.Constant(x) for x in names], ast.Load()),
                                                      ast.Tuple([ast.Constant(x) for x in mut], ast.Load()))),
                ast.If(ast.Attribute(nm(L), 'sym', ast.Load()), symb, [orig])]


class Extractor:
    """One instance per contract run: a private copy of the extracted modules."""

    def __init__(self, models=None):
        self.mods = {}
        self.models = dict(models or {})
        self.files = {}

    def path_of(self, name):
        p = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.py'):
            return p + '.py', False
        # extracted third-party sources (explicitly requested)
        return None, False

    def imp(self, modname, pkg):
        def __import__(name, globals=None, locals=None, fromlist=(), level=0):
            if level:
                base = pkg.split('.')
                base = base[:len(base) - (level - 1)]
                full = '.'.join(base + ([name] if name else []))
            else:
                full = name
            m = self.get(full)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f) and not self.is_ours(full + '.' + f) and isinstance(m, types.ModuleType) \
                            and hasattr(m, '__path__'):
                        try:
                            importlib.import_module(full + '.' + f)
                        except ImportError:
                            pass
                    if not hasattr(m, f) and self.is_ours(full + '.' + f):
                        try:
                            setattr(m, f, self.get(full + '.' + f))
                        except ImportError:
                            pass
                return m
            if '.' in name and not level:
                top = self.get(name.split('.')[0])
                return top
            return m
        return __import__

    def is_ours(self, full):
        if full in self.models:
            return True
        return full.split('.')[0] == 'impactutils' and self.path_of(full)[0] is not None

    def get(self, full):
        if full in self.mods:
            return self.mods[full]
        if full in self.models:
            m = self.models[full]
            if callable(m) and not isinstance(m, types.ModuleType):
                m = m(self)
            self.mods[full] = m
            return m
        if full == 'numpy':
            return NP
        if full == 'math':
            return shadow.MATH
        if full == 'copy':
            return COPY
        if full.split('.')[0] == 'impactutils':
            return self.extract(full)
        # a real package some of whose submodules are modelled: proxy
        subs = [k for k in self.models if k.startswith(full + '.')]
        real = importlib.import_module(full)
        if subs:
            p = types.ModuleType(full)
            p.__dict__.update(real.__dict__)
            self.mods[full] = p
            for k in subs:
                rest = k[len(full) + 1:]
                setattr(p, rest.split('.')[0], self.get(full + '.' + rest.split('.')[0]))
            return p
        return real

    def extract(self, full):
        path, ispkg = self.path_of(full)
        if path is None:
            raise ImportError(f'No module named {full}')
        src = open(path).read() if os.path.exists(path) else ''
        self.files[full] = hashlib.sha256(src.encode()).hexdigest()[:16]
        tree = ast.parse(src, path)
        if full == 'impactutils':
            tree.body = []
        tree = T(full).visit(tree)
        ast.fix_missing_locations(tree)
        m = types.ModuleType(full)
        m.__file__ = path
        pkg = full if ispkg else full.rsplit('.', 1)[0]
        b = dict(shadow.BUILTINS)
        b['__import__'] = self.imp(full, pkg)
        m.__dict__.update({
            '__builtins__': b, '__package__': pkg, '_pv_fstr': shadow.fstr, '_pv_mod': shadow.mod,
            '_pv_call': shadow.call_method, '_pv_in': shadow.contains, '_pv_not': shadow.notc,
            '_pv_getitem': shadow.getitem, '_pv_slice': slice, '_pv_loop': loops.Loop.make, '_pv_quant': loops.quant,
            '_pv_issym': loops.is_symseq, '_pv_comp': loops.comp, '_pv_UNBOUND': loops.UNBOUND, '_pv_list': loops.PList})
        self.mods[full] = m
        par = full.rpartition('.')[0]
        try:
            exec(compile(tree, path, 'exec'), m.__dict__)
        except BaseException:
            self.mods.pop(full, None)
            raise
        if par and par in self.mods:
            setattr(self.mods[par], full.rpartition('.')[2], m)
        elif par:
            setattr(self.get(par), full.rpartition('.')[2], m)
        return m


import copy as _copy
COPY = types.ModuleType('copy')
COPY.copy = _copy.copy
COPY.deepcopy = _copy.deepcopy
