"""
The interpreter of Python: executes the real functions of /repo, from their
syntax trees, on symbolic values.

What is dropped, and so assumed: the arguments of `raise` statements aren't
evaluated (formatting an error message is assumed not to fail); neither are
calls to loggers, warnings.warn() and print(). Generators run to the end
when they're made. Floats are real numbers.
"""
import ast
import builtins
import functools
import inspect
import math
import os
import sys
import types
import z3

from .core import *
from . import strings as S
from . import seqs as Q
from .seqs import Elem, Seg, Bag, Hole, BreakLoop, ContinueLoop, ReturnEx

REPO = os.environ.get('VF_REPO', '/repo')
MAX_DEPTH = 60


########################################################################
# finding the code

_asts = {}


def file_ast(filename):
    if filename not in _asts:
        with open(filename, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src)
        index = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                line = node.lineno
                if isinstance(node, ast.FunctionDef):
                    if node.decorator_list:
                        line = node.decorator_list[0].lineno
                    name = node.name
                else:
                    name = '<lambda>'
                index.setdefault((name, line), []).append(node)
        _asts[filename] = index
    return _asts[filename]


def fn_ast(fn):
    co = fn.__code__
    nodes = file_ast(co.co_filename).get((co.co_name, co.co_firstlineno), [])
    if len(nodes) != 1:
        raise Unsupported(f'cannot find the source of {fn.__qualname__}')
    return nodes[0]


_locals = {}


def local_names(node):
    """names assigned in a function (not in functions inside it)"""
    if node in _locals:
        return _locals[node]
    names = set()
    outer = set()
    gen = [False]

    def visit(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and not top:
            names.add(n.name)
            return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            outer.update(n.names)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            visit(c)
    visit(node, True)
    _locals[node] = (names - outer, gen[0])
    return _locals[node]


class Frame:
    def __init__(self, name, globals_, parent=None, cls=None, first=None, locals_=frozenset()):
        self.name = name
        self.globals = globals_
        self.parent = parent
        self.cls = cls            # for super()
        self.first = first
        self.locals = locals_
        self.vars = {}
        self.yields = None
        self.line = 0
        self.file = ''


########################################################################
# records

class ListRec(Rec):
    def __init__(self, chunks=(), kind='list'):
        self._chunks = tuple(chunks)
        self.kind = kind          # list, iter, set, values

    def chunks(self):
        return self._chunks

    def set_chunks(self, c):
        self._chunks = tuple(c)

    def blank(self):
        return ListRec(self._chunks, self.kind)

    def fields(self):
        return {'chunks': self._chunks}

    def subst(self, f):
        return ListRec([f(c) for c in self._chunks], self.kind)


class DictRec(Rec):
    """items: chunks of (key, value) pairs; the keys are all different"""
    def __init__(self, chunks=(), frozen=False):
        self._chunks = tuple(chunks)
        self.frozen = frozen

    def chunks(self):
        return self._chunks

    def set_chunks(self, c):
        self._chunks = tuple(c)

    def blank(self):
        return DictRec(self._chunks, self.frozen)

    def fields(self):
        return {'chunks': self._chunks}

    def subst(self, f):
        return DictRec([f(c) for c in self._chunks], self.frozen)

    def check_append(self, cx, seg):
        if not cx.interp.distinct_keys(tuple(self._chunks) + (seg,)):
            raise Unsupported('a loop which may put the same key twice')


class SLen(Sym):
    """the length of a sequence, not yet worked out"""
    def __init__(self, chunks, ref=None):
        self.chunks = chunks
        self.ref = ref


class Super:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class Slice:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Opaque(Sym):
    """a Python object about which nothing is known but its class, and its identity"""
    def __init__(self, cls, name, ident=None):
        self.cls = cls
        self.name = name
        self.ident = ident

    def __repr__(self):
        return f'Opaque({self.cls.__name__} {self.name})'


NUMERIC = (int, float, bool, SInt, SReal, SBool)

SKIP_CALLS = {('logger', 'debug'), ('logger', 'info'), ('logger', 'warning'), ('warnings', 'warn'),
              ('logging', 'debug'), ('logging', 'info'), ('logging', 'warning'), ('logger', 'error')}


class Interp:
    contracts = {}        # qualname -> fn(cx, args, kwargs), set per goal

    def __init__(self, cx):
        self.cx = cx
        self.depth = 0
        self.contracts = {}
        from . import models
        self.models = models
        from . import soup
        self.soup = soup

    def where(self):
        fr = [f for f in self.cx.frames if f.file]
        if not fr:
            return ''
        f = fr[-1]
        return f'(at {os.path.relpath(f.file, REPO) if f.file.startswith(REPO) else f.file}:{f.line} in {f.name})'

    ####################################################################
    # calling

    def call(self, fn, args=(), kwargs=None):
        cx = self.cx
        kwargs = kwargs or {}
        args = list(args)
        if isinstance(fn, Bound):
            return self.call(fn.fn, [fn.self] + args, kwargs)
        if isinstance(fn, PyModel):
            cx.run.models_used.add(fn.name)
            return fn.fn(cx, args, kwargs)
        if isinstance(fn, FnVal):
            return self.call_fnval(fn, args, kwargs)
        if isinstance(fn, functools.partial):
            return self.call(fn.func, list(fn.args) + args, {**fn.keywords, **kwargs})
        if isinstance(fn, types.MethodType):
            return self.call(fn.__func__, [fn.__self__] + args, kwargs)
        if isinstance(fn, types.FunctionType):
            return self.call_function(fn, args, kwargs)
        m = self.models.find(fn)
        if m is not None:
            cx.run.models_used.add(getattr(fn, '__qualname__', None) or getattr(fn, '__name__', str(fn)))
            return m(cx, args, kwargs)
        if isinstance(fn, type):
            return self.instantiate(fn, args, kwargs)
        if isinstance(fn, (Ref,)):
            rec = cx.rec(fn)
            if isinstance(rec, InstRec):
                return self.call(self.type_attr_bound(fn, '__call__'), args, kwargs)
            if isinstance(rec, self.soup.NodeRec):
                return self.soup.find_all(cx, [fn] + args, kwargs)
        if self.is_host_instance(fn):
            c = type(fn).__dict__.get('__call__')
            if isinstance(c, types.FunctionType):
                return self.call(c, [fn] + args, kwargs)
        if isinstance(fn, Opaque):
            h = getattr(fn, 'call', None)
            if h:
                return h(cx, args, kwargs)
        if fn is None or isinstance(fn, (str, int, float, tuple, SStr, SReal, SInt)):
            raise PyRaise(TypeError, ('not callable',))
        raise Unsupported(f'calling {fn!r}')

    def qualname(self, fn):
        return f'{fn.__module__}.{fn.__qualname__}'

    def call_function(self, fn, args, kwargs):
        cx = self.cx
        q = self.qualname(fn)
        c = self.contracts.get(q)
        if c is not None:
            r = c(cx, args, kwargs)
            if r is not NotImplemented:      # (the contract doesn't say: the function itself, then)
                cx.run.contracts_used.add(q)
                return r
        m = self.models.find(fn)
        if m is not None:
            cx.run.models_used.add(q)
            return m(cx, args, kwargs)
        filename = fn.__code__.co_filename
        if not filename.startswith(REPO + '/') and not filename.endswith('functools.py'):
            raise Unsupported(f'calling {q} (not in the repository)')
        node = fn_ast(fn)
        if filename.startswith(REPO + '/'):
            cx.run.functions.add(q)
        cls = None
        freevars = {}
        if fn.__closure__:
            for name, cell in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    freevars[name] = cell.cell_contents
                except ValueError:
                    pass
            cls = freevars.get('__class__')
        parent = None
        if freevars:
            parent = Frame('closure', fn.__globals__)
            parent.vars = freevars
        defaults = list(fn.__defaults__ or ())
        kwdefaults = dict(fn.__kwdefaults__ or {})
        return self.run_function(node, fn.__qualname__, fn.__globals__, parent, cls, defaults, kwdefaults, args, kwargs, filename)

    def call_fnval(self, fn, args, kwargs):
        f = fn.frame
        return self.run_function(fn.node, fn.name, f.globals, f, f.cls, fn.defaults, fn.kwdefaults, args, kwargs, f.file)

    def run_function(self, node, name, globals_, parent, cls, defaults, kwdefaults, args, kwargs, filename):
        cx = self.cx
        if self.depth > MAX_DEPTH:
            raise Unsupported(f'recursion in {name}')
        names, is_gen = local_names(node)
        fr = Frame(name, globals_, parent, cls, None, names)
        fr.file = filename
        fr.line = node.lineno
        self.bind(fr, node.args, defaults, kwdefaults, args, kwargs, name)
        if node.args.args or node.args.posonlyargs:
            first = (node.args.posonlyargs + node.args.args)[0].arg
            fr.first = fr.vars.get(first)
        if cls is None and parent is not None:
            fr.cls = parent.cls
        if isinstance(node, ast.Lambda):
            is_gen = False
        if is_gen:
            fr.yields = cx.new(ListRec((), 'iter'))
        cx.frames.append(fr)
        self.depth += 1
        n = len(cx.frames)
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body)
            try:
                self.block(node.body)
            except ReturnEx as e:
                if is_gen:
                    return fr.yields
                return e.value
            if is_gen:
                return fr.yields
            return None
        finally:
            self.depth -= 1
            del cx.frames[n-1:]

    def bind(self, fr, a, defaults, kwdefaults, args, kwargs, name):
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        args = list(args)
        for i, p in enumerate(pos):
            if i < len(args):
                if p in kwargs:
                    raise PyRaise(TypeError, (f'{name}() got multiple values for argument {p!r}',))
                fr.vars[p] = args[i]
            elif p in kwargs:
                fr.vars[p] = kwargs.pop(p)
            else:
                k = i - (len(pos) - len(defaults))
                if k < 0:
                    raise PyRaise(TypeError, (f'{name}() missing argument {p!r}',))
                fr.vars[p] = defaults[k]
        rest = args[len(pos):]
        if a.vararg:
            fr.vars[a.vararg.arg] = tuple(rest)
        elif rest:
            raise PyRaise(TypeError, (f'{name}() takes {len(pos)} positional arguments',))
        for k in a.kwonlyargs:
            if k.arg in kwargs:
                fr.vars[k.arg] = kwargs.pop(k.arg)
            elif k.arg in kwdefaults:
                fr.vars[k.arg] = kwdefaults[k.arg]
            else:
                raise PyRaise(TypeError, (f'{name}() missing keyword argument {k.arg!r}',))
        if a.kwarg:
            more = kwargs.pop('**', None)
            chunks = [Elem((k, v)) for k, v in kwargs.items()]
            if more is not None:
                chunks.extend(more)
            fr.vars[a.kwarg.arg] = self.cx.new(DictRec(chunks))
        elif kwargs:
            raise PyRaise(TypeError, (f'{name}() got an unexpected keyword argument {list(kwargs)[0]!r}',))

    def instantiate(self, cls, args, kwargs):
        cx = self.cx
        if issubclass(cls, BaseException):
            return ExcVal(cls, tuple(args))
        if not self.is_repo_class(cls):
            raise Unsupported(f'instantiating {cls!r}')
        ref = cx.new(InstRec(cls))
        init = self.lookup(cls, '__init__')
        if isinstance(init, types.FunctionType):
            self.call(init, [ref] + list(args), kwargs)
        elif args or kwargs:
            raise PyRaise(TypeError, (f'{cls.__name__}() takes no arguments',))
        return ref

    def is_repo_class(self, cls):
        f = getattr(sys.modules.get(cls.__module__), '__file__', '') or ''
        return f.startswith(REPO + '/') or cls.__module__.startswith('vf.')

    ####################################################################
    # attributes

    def lookup(self, cls, name):
        """finds a class attribute; (with changes made during this run)"""
        for c in cls.__mro__:
            if (id(c), name) in self.cx.overlay:
                return self.cx.overlay[(id(c), name)]
            if name in c.__dict__:
                return c.__dict__[name]
        return _MISSING

    def is_host_instance(self, v):
        if isinstance(v, (Sym, type, FnVal, Bound, PyModel, Frame, Super, ExcVal)):
            return False
        c = type(v)
        return self.is_repo_class(c)

    def classes_of(self, rec):
        return rec.cls

    def narrow(self, ref, name, resolve):
        """
        For an instance of one of several classes: narrow it to those which
        agree on resolve(cls).
        """
        cx = self.cx
        rec = cx.rec(ref)
        if not isinstance(rec.cls, AnyOf):
            return resolve(rec.cls)
        groups = []
        for c in rec.cls.classes:
            r = resolve(c)
            for g in groups:
                if g[0] is r or (type(g[0]) is type(r) and isinstance(r, (str, int, float, bool, tuple)) and g[0] == r):
                    g[1].append(c)
                    break
            else:
                groups.append((r, [c]))
        if len(groups) == 1:
            return groups[0][0]
        base, conds = rec.cls.base, rec.cls.conds
        if conds is None:
            r, cs = groups[cx.choose(len(groups), f'class of an instance, for {name}')]
        else:
            of = {c: z for c, z in zip(rec.cls.classes, conds)}
            for r, cs in groups[:-1]:
                if cx.branch(z3.Or(*[of[c] for c in cs])):
                    break
            else:
                r, cs = groups[-1]
                cx.assume(z3.Or(*[of[c] for c in cs]))
            conds = [of[c] for c in cs]
        rec = cx.rec(ref)
        rec.cls = cs[0] if len(cs) == 1 else AnyOf(base, cs, conds)
        return r

    def type_attr(self, ref, name):
        return self.narrow(ref, name, lambda c: self.lookup(c, name))

    def type_attr_bound(self, ref, name):
        a = self.type_attr(ref, name)
        if a is _MISSING:
            raise PyRaise(AttributeError, (name,))
        if isinstance(a, types.FunctionType):
            return Bound(a, ref)
        return a

    def getattr(self, obj, name, default=None):
        try:
            return self.getattr_(obj, name)
        except PyRaise as e:
            if default is not None and issubclass(e.cls, AttributeError):
                return default[0]
            raise

    def getattr_(self, obj, name):
        cx = self.cx
        if isinstance(obj, Poison):
            raise Unsupported(f'{obj.why} after a loop which changes it')
        if isinstance(obj, Ref):
            rec = cx.rec(obj)
            if isinstance(rec, InstRec):
                return self.inst_getattr(obj, rec, name)
            if isinstance(rec, self.soup.NodeRec):
                return self.soup.getattr_(cx, obj, name)
            return self.models.rec_getattr(cx, obj, rec, name)
        if isinstance(obj, Super):
            return self.super_getattr(obj, name)
        if isinstance(obj, type):
            return self.class_getattr(obj, name)
        if isinstance(obj, types.ModuleType):
            if (id(obj), name) in cx.overlay:
                return cx.overlay[(id(obj), name)]
            try:
                return getattr(obj, name)
            except AttributeError:
                raise PyRaise(AttributeError, (name,))
        if isinstance(obj, ExcVal):
            if name == 'args':
                return obj.args_
            if name == '__class__':
                return obj.cls
        if self.is_host_instance(obj):
            return self.host_getattr(obj, name)
        if isinstance(obj, AnyOf):
            if name == '__name__':
                return S.opaque(cx, 'classname')
            vals = [self.class_getattr(c, name) for c in obj.classes]
            if all(v is vals[0] for v in vals):
                return vals[0]
            raise Unsupported(f'{name} of one of several classes')
        if isinstance(obj, Opaque):
            h = getattr(obj, 'getattr', None)
            if h:
                r = h(cx, name)
                if r is not NotImplemented:
                    return r
            if name == '__class__':
                return obj.cls
            if obj.cls is object or obj.cls.__module__ != 'builtins' or not hasattr(obj.cls, name):
                raise PyRaise(AttributeError, (name,))
        return self.models.value_getattr(cx, obj, name)

    def bind_descriptor(self, a, ref, cls):
        """what a class attribute gives when it's read through an instance"""
        if isinstance(a, types.FunctionType):
            return Bound(a, ref)
        if isinstance(a, FnVal):
            return Bound(a, ref)
        if isinstance(a, classmethod):
            return Bound(a.__func__, cls)
        if isinstance(a, staticmethod):
            return a.__func__
        if isinstance(a, property):
            if a.fget is None:
                raise PyRaise(AttributeError, ('unreadable',))
            return self.call(a.fget, [ref])
        if isinstance(a, functools.cached_property):
            raise Unsupported('cached_property')
        if self.is_host_instance(a):
            g = self.lookup(type(a), '__get__')
            if isinstance(g, types.FunctionType):
                return self.call(g, [a, ref, cls])
        return a

    def inst_getattr(self, ref, rec, name):
        cx = self.cx
        if name == '__class__':
            return rec.cls
        if name == '__dict__':
            raise Unsupported('__dict__ of an instance')
        a = self.type_attr(ref, name)
        rec = cx.rec(ref)
        if a is not _MISSING and self.is_data_descriptor(a):
            return self.bind_descriptor(a, ref, rec.cls)
        if name in rec.attrs:
            return rec.attrs[name]
        if a is not _MISSING:
            return self.bind_descriptor(a, ref, rec.cls)
        g = self.type_attr(ref, '__getattr__')
        if g is not _MISSING and isinstance(g, types.FunctionType):
            return self.call(g, [ref, name])
        raise PyRaise(AttributeError, (name,))

    def is_data_descriptor(self, a):
        if isinstance(a, property):
            return True
        if self.is_host_instance(a):
            return self.lookup(type(a), '__set__') is not _MISSING
        return False

    def super_getattr(self, sup, name):
        obj = sup.obj
        cx = self.cx
        if isinstance(obj, Ref):
            cls = cx.rec(obj).cls
        elif isinstance(obj, type):
            cls = obj
        else:
            cls = type(obj)

        def resolve(c):
            mro = c.__mro__
            i = mro.index(sup.cls)
            for k in mro[i+1:]:
                if (id(k), name) in cx.overlay:
                    return cx.overlay[(id(k), name)]
                if name in k.__dict__:
                    return k.__dict__[name]
            return _MISSING
        if isinstance(obj, Ref):
            a = self.narrow(obj, 'super', resolve)
            cls = cx.rec(obj).cls
        else:
            a = resolve(cls)
        if a is _MISSING:
            raise PyRaise(AttributeError, (name,))
        if isinstance(obj, type):
            if isinstance(a, classmethod):
                return Bound(a.__func__, obj)
            if isinstance(a, staticmethod):
                return a.__func__
            return a
        if a is object.__init__:
            return PyModel('object.__init__', lambda cx, args, kw: None)
        if a is object.__init_subclass__:
            return PyModel('object.__init_subclass__', lambda cx, args, kw: None)
        if isinstance(a, (types.WrapperDescriptorType, types.MethodDescriptorType)):
            if name in ('__eq__', '__ne__', '__hash__', '__setattr__', '__getattribute__', '__repr__', '__str__'):
                return PyModel('object.'+name, lambda cx, args, kw: self.object_method(name, obj, args))
            raise Unsupported(f'super().{name}')
        return self.bind_descriptor(a, obj, cls)

    def object_method(self, name, obj, args):
        if name == '__eq__':
            return True if obj is args[0] or (isinstance(obj, Ref) and obj == args[0]) else NotImplemented
        if name == '__setattr__':
            return self.inst_setattr(obj, self.cx.rec(obj), args[0], args[1])
        raise Unsupported(f'object.{name}')

    def class_getattr(self, cls, name):
        cx = self.cx
        if name in ('__name__', '__qualname__', '__module__', '__mro__', '__bases__', '__doc__'):
            return getattr(cls, name)
        if name == '__dict__':
            return cls.__dict__
        if name == 'mro':
            return PyModel('mro', lambda cx, a, k: cx.new(ListRec([Elem(c) for c in cls.__mro__])))
        if name == '__class__':
            return type(cls)
        if name == '__new__' and self.is_repo_class(cls):
            n = self.lookup(cls, '__new__')
            if n is object.__new__:
                return PyModel('object.__new__', lambda cx, a, k: cx.new(InstRec(a[0])))
        a = self.lookup(cls, name)
        if a is _MISSING:
            m = getattr(type(cls), name, _MISSING)
            if m is not _MISSING and not self.is_repo_class(cls):
                return getattr(cls, name)
            raise PyRaise(AttributeError, (name,))
        if isinstance(a, classmethod):
            return Bound(a.__func__, cls)
        if isinstance(a, staticmethod):
            return a.__func__
        if self.is_host_instance(a):
            g = self.lookup(type(a), '__get__')
            if isinstance(g, types.FunctionType):
                return self.call(g, [a, None, cls])
        if not self.is_repo_class(cls) and not isinstance(a, (types.FunctionType, property)):
            return getattr(cls, name)
        return a

    def host_getattr(self, obj, name):
        cx = self.cx
        if name == '__class__':
            return type(obj)
        cls = type(obj)
        a = self.lookup(cls, name)
        if a is not _MISSING and isinstance(a, property):
            return self.call(a.fget, [obj])
        if (id(obj), name) in cx.overlay:
            return cx.overlay[(id(obj), name)]
        d = getattr(obj, '__dict__', {})
        if name in d:
            return d[name]
        if a is not _MISSING:
            return self.bind_descriptor(a, obj, cls)
        raise PyRaise(AttributeError, (name,))

    def setattr(self, obj, name, v):
        cx = self.cx
        if isinstance(obj, Ref):
            rec = cx.rec(obj)
            if isinstance(rec, InstRec):
                s = self.type_attr(obj, '__setattr__')
                if isinstance(s, types.FunctionType):
                    self.call(s, [obj, name, v])
                    return
                return self.inst_setattr(obj, cx.rec(obj), name, v)
            if isinstance(rec, self.soup.NodeRec):
                return self.soup.setattr_(cx, obj, name, v)
        if self.is_host_instance(obj):
            a = self.lookup(type(obj), name)
            if isinstance(a, property):
                if a.fset is None:
                    raise PyRaise(AttributeError, (name,))
                return self.call(a.fset, [obj, v])
            cx.overlay[(id(obj), name)] = v
            cx.keep.append(obj)
            return
        if isinstance(obj, type) and self.is_repo_class(obj):
            cx.overlay[(id(obj), name)] = v
            return
        if isinstance(obj, types.ModuleType):
            cx.overlay[(id(obj), name)] = v
            return
        if isinstance(obj, (str, int, float, tuple, SStr, SReal, SInt, SBool)) or obj is None:
            raise PyRaise(AttributeError, (name,))
        raise Unsupported(f'setting .{name} of {obj!r}')

    def inst_setattr(self, ref, rec, name, v):
        a = self.type_attr(ref, name)
        if isinstance(a, property):
            if a.fset is None:
                raise PyRaise(AttributeError, (f'property {name!r} has no setter',))
            self.call(a.fset, [ref, v])
            return
        if a is not _MISSING and self.is_host_instance(a):
            s = self.lookup(type(a), '__set__')
            if isinstance(s, types.FunctionType):
                self.call(s, [a, ref, v])
                return
        self.cx.rec(ref).attrs[name] = v

    def delattr(self, obj, name):
        if isinstance(obj, Ref):
            rec = self.cx.rec(obj)
            if isinstance(rec, InstRec):
                if name not in rec.attrs:
                    raise PyRaise(AttributeError, (name,))
                del rec.attrs[name]
                return
        raise Unsupported('del of an attribute')

    ####################################################################
    # types and truth

    def type_of(self, v):
        cx = self.cx
        if isinstance(v, Ref):
            rec = cx.rec(v)
            if isinstance(rec, InstRec):
                return rec.cls
            if isinstance(rec, self.soup.NodeRec):
                return self.soup.type_of(cx, v)
            if isinstance(rec, DictRec):
                return dict
            if isinstance(rec, ListRec):
                return {'list': list, 'set': set, 'iter': types.GeneratorType, 'values': type({}.values()),
                        'tuple': tuple, 'keys': type({}.keys()), 'items': type({}.items())}[rec.kind]
            if isinstance(rec, self.models.FileRec):
                return rec.cls
            if hasattr(rec, 'pytype'):
                return rec.pytype
        if isinstance(v, SStr):
            return str
        if isinstance(v, (SInt, SLen)):
            return int
        if isinstance(v, SReal):
            return float
        if isinstance(v, SBool):
            return bool
        if isinstance(v, ExcVal):
            return v.cls
        if isinstance(v, (FnVal,)):
            return types.FunctionType
        if isinstance(v, (PyModel,)):
            return types.BuiltinFunctionType
        if isinstance(v, Bound):
            return types.MethodType
        if isinstance(v, Opaque):
            return v.cls
        if isinstance(v, Poison):
            raise Unsupported(f'{v.why} after a loop which changes it')
        return type(v)

    def isinstance(self, v, c):
        if isinstance(c, tuple):
            for d in c:
                r = self.isinstance(v, d)
                if r is True:
                    return True
                if r is not False and self.cx.branch(r):
                    return True
            return False
        if isinstance(c, types.UnionType):
            return self.isinstance(v, c.__args__)
        if isinstance(c, AnyOf):
            # v.__class__ where v may be any of several: by contract they're alike
            raise Unsupported('isinstance of one of several classes')
        if not isinstance(c, type):
            if isinstance(c, Ref):
                raise PyRaise(TypeError, ('isinstance() arg 2 must be a type',))
            raise Unsupported(f'isinstance(…, {c!r})')
        if isinstance(v, Ref) and isinstance(self.cx.rec(v), self.soup.NodeRec):
            return self.soup.isinstance_(self.cx, v, c)
        if isinstance(v, Ref) and isinstance(self.cx.rec(v), InstRec) and isinstance(self.cx.rec(v).cls, AnyOf):
            return self.narrow(v, f'isinstance {c.__name__}', lambda k: issubclass(k, c))
        t = self.type_of(v)
        if isinstance(t, AnyOf):
            raise Unsupported('AnyOf')
        if t in (types.GeneratorType,) and c is list:
            return False
        return issubclass(t, c)

    def truth(self, v):
        """bool(v): a bool, or branches"""
        cx = self.cx
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, SBool):
            return cx.branch(v)
        if isinstance(v, (int, float, str, tuple, bytes)):
            return bool(v)
        if isinstance(v, SInt):
            return cx.branch(v.z != 0)
        if isinstance(v, SReal):
            return cx.branch(v.z != 0)
        if isinstance(v, SStr):
            t = S.truth(cx, v)
            return t if isinstance(t, bool) else cx.branch(t)
        if isinstance(v, SLen):
            return not self.is_empty(v)
        if isinstance(v, Ref):
            rec = cx.rec(v)
            if isinstance(rec, (ListRec, DictRec)):
                if isinstance(rec, ListRec) and rec.kind == 'iter':
                    return True
                e, c = Q.empty(cx, rec.chunks())
                rec.set_chunks(c)
                return not e
            if isinstance(rec, self.soup.NodeRec):
                return self.soup.truth(cx, v)
            if isinstance(rec, InstRec):
                b = self.type_attr(v, '__bool__')
                if b is not _MISSING:
                    return self.truth(self.call(b, [v]))
                l = self.type_attr(v, '__len__')
                if l is not _MISSING:
                    return self.truth(self.call(l, [v]))
                return True
            return True
        if isinstance(v, (FnVal, Bound, PyModel, type, ExcVal)) or v is NotImplemented:
            return True
        if isinstance(v, (dict, list, set, frozenset)):
            return bool(v)
        if isinstance(v, Poison):
            raise Unsupported(f'{v.why} after a loop which changes it')
        if isinstance(v, Opaque):
            h = getattr(v, 'truth', None)
            if h:
                return h(cx)
            return True
        if self.is_host_instance(v):
            return True
        if isinstance(v, types.ModuleType) or callable(v):
            return True
        raise Unsupported(f'truth of {v!r}')

    def is_empty(self, l):
        e, c = Q.empty(self.cx, l.chunks)
        l.chunks = c
        if l.ref is not None:
            self.cx.rec(l.ref).set_chunks(c)
        return e

    ####################################################################
    # sequences

    def chunks(self, v):
        """the values of anything which can be iterated"""
        cx = self.cx
        if isinstance(v, tuple):
            return tuple(Elem(x) for x in v)
        if isinstance(v, str):
            return tuple(Elem(x) for x in v)
        if isinstance(v, (list, set, frozenset)):
            return tuple(Elem(x) for x in v)
        if isinstance(v, (dict, types.MappingProxyType)):
            return tuple(Elem(x) for x in v)
        if isinstance(v, type({}.keys())) or isinstance(v, type({}.values())) or isinstance(v, type({}.items())):
            return tuple(Elem(x) for x in v)
        if isinstance(v, range):
            return tuple(Elem(x) for x in v)
        if isinstance(v, SStr):
            n = S.length(cx, v)
            if n is None:
                raise Unsupported('the characters of an unknown text')
            return tuple(Elem(S.index(cx, v, i)) for i in range(n))
        if isinstance(v, Poison):
            raise Unsupported(f'{v.why} after a loop which changes it')
        if isinstance(v, Ref):
            rec = cx.rec(v)
            if isinstance(rec, ListRec):
                return rec.chunks()
            if isinstance(rec, DictRec):
                return self.map_chunks(rec.chunks(), lambda kv: kv[0])
            if isinstance(rec, self.soup.NodeRec):
                return self.soup.children(cx, v)
            if isinstance(rec, InstRec):
                it = self.type_attr(v, '__iter__')
                if it is not _MISSING:
                    return self.chunks(self.call(it, [v]))
                raise PyRaise(TypeError, ('not iterable',))
            m = getattr(rec, 'iter_chunks', None)
            if m:
                return m(cx)
        if isinstance(v, types.MethodType) or v is None or isinstance(v, (int, float, bool, SInt, SReal, SBool)):
            raise PyRaise(TypeError, ('not iterable',))
        if isinstance(v, (FnVal, Bound, type)):
            raise PyRaise(TypeError, ('not iterable',))
        raise Unsupported(f'iterating over {v!r}')

    def map_chunks(self, chunks, f):
        """a pure map"""
        out = []
        for c in chunks:
            if isinstance(c, Elem):
                out.append(Elem(f(c.v)))
            elif isinstance(c, Seg):
                out.append(Seg(c.src, [Q.Path(p.conds, p.facts, self.map_chunks(p.values, f)) for p in c.paths], c.rev))
            elif isinstance(c, Bag):
                if any(isinstance(d, Q.Grp) for d in c.chunks):
                    raise Unsupported('groups')
                out.append(Bag(self.map_chunks(c.chunks, f), c.order, c.keys))
            else:
                out.append(c)
        return tuple(out)

    def new_list(self, values=(), kind='list'):
        return self.cx.new(ListRec([Elem(v) for v in values], kind))

    def concrete(self, v, what='a sequence'):
        """the values of a sequence whose length is known"""
        c = Q.norm(self.cx, self.chunks(v))
        if not Q.simple(c):
            raise Unsupported(f'{what} of unknown length')
        return [x.v for x in c]

    def distinct_keys(self, chunks):
        """are the keys of these pairs certainly all different?"""
        cx = self.cx
        chunks = Q.norm(cx, chunks)
        flat = []
        for c in chunks:
            flat.extend(c.flat() if isinstance(c, Bag) else [c])
        for i, a in enumerate(flat):
            if isinstance(a, Hole):
                continue
            if isinstance(a, Seg) and not self._distinct_within(a):
                return False
            for b in flat[i+1:]:
                if isinstance(b, Hole):
                    continue
                if not self._distinct_between(a, b):
                    return False
        return True

    def _differ(self, k1, k2):
        """obligation-free: whether two keys are certainly different"""
        cx = self.cx
        try:
            r = self.eq(k1, k2)
        except PyRaise:
            return False
        if isinstance(r, bool):
            return not r
        return cx.entails(z3.Not(r.z))

    def _distinct_within(self, seg):
        cx = self.cx
        ok = [True]

        def pair(g1, g2):
            a = list(Q.seg_elem(cx, seg, g1))
            b = list(Q.seg_elem(cx, seg, g2))
            for x in a:
                for y in b:
                    if not (isinstance(x, Elem) and isinstance(y, Elem)) or not self._differ(x.v[0], y.v[0]):
                        ok[0] = False
            return None
        for p in seg.paths:
            if len(p.values) > 1 or any(not isinstance(v, Elem) for v in p.values):
                return False
        for leaf in Q.pieces_of(cx, seg.src):
            if isinstance(leaf, Q.Src):
                Q.open_pair(cx, leaf, pair)
        return ok[0]

    def _distinct_between(self, a, b):
        cx = self.cx
        ok = [True]
        if isinstance(a, Elem) and isinstance(b, Elem):
            return self._differ(a.v[0], b.v[0])

        def on_a(va):
            def on_b(vb):
                if not self._differ(va[0], vb[0]):
                    ok[0] = False
            Q.each(cx, [b], on_b)
        Q.each(cx, [a], on_a)
        return ok[0]

    ####################################################################
    # comparing

    def same_class(self, a, b):
        if isinstance(b, AnyOf):
            a, b = b, a
        if isinstance(b, AnyOf):
            raise Unsupported('identity of two classes, each one of several')
        if b not in a.classes:
            return False
        if a.conds is None:
            raise Unsupported('identity of one of several classes')
        return mkbool(a.conds[a.classes.index(b)])

    def is_(self, a, b):
        cx = self.cx
        if a is None or b is None:
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                return False
            return a is None and b is None
        if isinstance(a, bool) and isinstance(b, SBool):
            a, b = b, a
        if isinstance(a, SBool) and isinstance(b, bool):
            return mkbool(a.z == b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return self.same_object(a, b)
        if isinstance(a, Ref) or isinstance(b, Ref):
            return False
        if isinstance(a, AnyOf) or isinstance(b, AnyOf):
            return self.same_class(a, b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, (bool, type)) or isinstance(b, (bool, type)):
                return False
            if a is NotImplemented or b is NotImplemented:
                return False
            if a is b:
                return True
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                return False
            raise Unsupported('identity of values')
        return a is b

    def same_object(self, a, b):
        if a == b:
            return True
        cx = self.cx
        ra, rb = cx.rec(a), cx.rec(b)
        N = self.soup.NodeRec
        if isinstance(ra, N) and isinstance(rb, N):
            return self.soup.same_node(cx, a, b)
        return False

    def eq(self, a, b):
        """a == b: bool, SBool; or raises"""
        cx = self.cx
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('comparing a variable after a loop which changes it')
        if isinstance(a, SLen) or isinstance(b, SLen):
            return self.compare_len('==', a, b)
        na, nb = isinstance(a, NUMERIC), isinstance(b, NUMERIC)
        if na and nb:
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return a == b
            if isinstance(a, float) and not math.isfinite(a) or isinstance(b, float) and not math.isfinite(b):
                return False
            if isinstance(a, SBool) and isinstance(b, bool) or isinstance(b, SBool) and isinstance(a, bool) or \
                    isinstance(a, SBool) and isinstance(b, SBool):
                return mkbool(z3.simplify(zbool(a) == zbool(b)))
            if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)) and not isinstance(a, bool) and not isinstance(b, bool):
                return mkbool(z3.simplify(zint(a) == zint(b)))
            return mkbool(z3.simplify(zreal(a) == zreal(b)))
        if S.is_str(a) and S.is_str(b):
            r = S.eq(cx, a, b)
            return r if isinstance(r, bool) else mkbool(z3.simplify(r))
        for x, y, refl in ((a, b, False), (b, a, True)):
            if isinstance(x, Ref) and isinstance(cx.rec(x), InstRec):
                m = self.type_attr(x, '__eq__')
                if isinstance(m, types.FunctionType):
                    r = self.call(m, [x, y])
                    if r is not NotImplemented:
                        return r
        if isinstance(a, Ref) and isinstance(b, Ref):
            ra, rb = cx.rec(a), cx.rec(b)
            if isinstance(ra, InstRec) and isinstance(rb, InstRec):
                return a == b
            N = self.soup.NodeRec
            if isinstance(ra, N) or isinstance(rb, N):
                if isinstance(ra, N) and isinstance(rb, N):
                    return self.soup.eq(cx, a, b)
                return False
            if isinstance(ra, ListRec) and isinstance(rb, ListRec):
                if ra.kind == 'set' or rb.kind == 'set':
                    return self.set_eq(a, b)
                if ra.kind in ('keys',) or rb.kind in ('keys',):
                    return self.set_eq(a, b)
                if ra.kind != rb.kind:
                    return False
                return self.list_eq(ra.chunks(), rb.chunks())
            if isinstance(ra, DictRec) and isinstance(rb, DictRec):
                raise Unsupported('comparing dicts')
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.list_eq(tuple(Elem(x) for x in a), tuple(Elem(x) for x in b))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref):
                rx = cx.rec(x)
                if isinstance(rx, ListRec) and isinstance(y, (set, frozenset)) and rx.kind in ('set', 'keys'):
                    return self.set_eq(x, y)
                if isinstance(rx, ListRec) and rx.kind in ('keys', 'set') and isinstance(y, type({}.keys())):
                    return self.set_eq(x, y)
                if isinstance(rx, ListRec) and isinstance(y, list):
                    return self.list_eq(rx.chunks(), tuple(Elem(q) for q in y))
                if isinstance(rx, DictRec) and isinstance(y, dict):
                    raise Unsupported('comparing dicts')
                if isinstance(rx, self.soup.NodeRec) and S.is_str(y):
                    return self.soup.eq_str(cx, x, y)
                return False
        if isinstance(a, AnyOf) or isinstance(b, AnyOf):
            return self.same_class(a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if a is b:
                return True
            ha = getattr(a, 'eq', None) or getattr(b, 'eq', None)
            if ha:
                return ha(cx, a, b)
            return False
        if isinstance(a, Bound) and isinstance(b, Bound):
            return Q.same(a, b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            return False
        try:
            return bool(a == b)
        except Exception:
            raise Unsupported(f'{a!r} == {b!r}')

    def set_eq(self, a, b):
        xs = self.concrete(a)
        ys = self.concrete(b)
        if all(isinstance(x, str) for x in xs) and all(isinstance(y, str) for y in ys):
            return set(xs) == set(ys)
        # with some unknown texts: every one is equal to some other
        for one, two in ((xs, ys), (ys, xs)):
            for x in one:
                if not any(self.truth(self.eq(x, y)) for y in two):
                    return False
        return True

    def list_eq(self, a, b):
        cx = self.cx
        a, b = Q.norm(cx, a), Q.norm(cx, b)
        if not Q.simple(a) or not Q.simple(b):
            n = min(len([c for c in a if isinstance(c, Elem)]) if Q.simple(a) else 99,
                    len([c for c in b if isinstance(c, Elem)]) if Q.simple(b) else 99)
            if n == 99:
                raise Unsupported('comparing sequences of unknown length')
            a, b = Q.force(cx, a, n+1), Q.force(cx, b, n+1)
            na = sum(isinstance(c, Elem) for c in a)
            nb = sum(isinstance(c, Elem) for c in b)
            if na > n or nb > n:
                return False
        if len(a) != len(b):
            return False
        result = []
        for x, y in zip(a, b):
            r = self.eq(x.v, y.v)
            if isinstance(r, SBool):
                result.append(r.z)
                continue
            if not self.truth(r):
                return False
        if not result:
            return True
        return mkbool(z3.And(*result))

    def ne(self, a, b):
        cx = self.cx
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref) and isinstance(cx.rec(x), InstRec):
                m = self.type_attr(x, '__ne__')
                if isinstance(m, types.FunctionType):
                    r = self.call(m, [x, y])
                    if r is not NotImplemented:
                        return r
        return self.not_(self.eq(a, b))

    def not_(self, r):
        if isinstance(r, SBool):
            return mkbool(z3.simplify(z3.Not(r.z)))
        return not self.truth(r)

    def compare_len(self, op, a, b):
        """comparing len() with a constant"""
        if isinstance(a, SLen) and isinstance(b, SLen):
            ca, cb = Q.norm(self.cx, a.chunks), Q.norm(self.cx, b.chunks)
            if Q.simple(ca):
                a = len(ca)
            elif Q.simple(cb):
                b = len(cb)
            else:
                raise Unsupported('comparing two unknown lengths')
        flip = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}
        if isinstance(b, SLen):
            a, b = b, a
            op = flip[op]
        if isinstance(b, (SInt, SReal)):
            raise Unsupported('comparing an unknown length with a variable')
        if not isinstance(b, (int, float)):
            if op == '==':
                return False
            if op == '!=':
                return True
            raise PyRaise(TypeError, ('not comparable',))
        n = int(math.floor(b))+1
        if n < 0:
            n = 0
        flat = []
        for x in Q.norm(self.cx, a.chunks):
            flat.extend(x.flat() if isinstance(x, Bag) else [x])
        bags = any(isinstance(x, Bag) for x in Q.norm(self.cx, a.chunks))
        known = sum(isinstance(x, Elem) for x in flat)
        if known >= n:
            # enough of them are known: there are at least n
            import operator
            return {'<': operator.lt, '>': operator.gt, '<=': operator.le, '>=': operator.ge,
                    '==': operator.eq, '!=': operator.ne}[op](n, b)
        if bags:
            # whichever order they're in
            c = Q.force(self.cx, sorted(flat, key=lambda x: not isinstance(x, Elem)), n)
        else:
            c = Q.force(self.cx, a.chunks, n)
            a.chunks = c
            if a.ref is not None and a.ref.id in self.cx.heap:
                self.cx.rec(a.ref).set_chunks(c)
        elems = 0
        for x in c:
            if isinstance(x, Elem):
                elems += 1
            else:
                break
        count = min(elems, n) if elems >= n else elems
        import operator
        return {'<': operator.lt, '>': operator.gt, '<=': operator.le, '>=': operator.ge,
                '==': operator.eq, '!=': operator.ne}[op](count, b)

    def order(self, op, a, b):
        cx = self.cx
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('comparing a variable after a loop which changes it')
        if isinstance(a, SLen) or isinstance(b, SLen):
            return self.compare_len(op, a, b)
        if isinstance(a, NUMERIC) and isinstance(b, NUMERIC):
            import operator
            f = {'<': operator.lt, '>': operator.gt, '<=': operator.le, '>=': operator.ge}[op]
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return f(a, b)
            for x, y, o in ((a, b, op), (b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op])):
                if isinstance(x, float) and not math.isfinite(x):
                    if math.isnan(x):
                        return False
                    return (o in ('>', '>=')) == (x > 0)
            if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)):
                return mkbool(z3.simplify(f(zint(a), zint(b))))
            return mkbool(z3.simplify(f(zreal(a), zreal(b))))
        names = {'<': ('__lt__', '__gt__'), '>': ('__gt__', '__lt__'), '<=': ('__le__', '__ge__'), '>=': ('__ge__', '__le__')}[op]
        for x, y, n in ((a, b, names[0]), (b, a, names[1])):
            if isinstance(x, Ref) and isinstance(cx.rec(x), InstRec):
                m = self.type_attr(x, n)
                if isinstance(m, types.FunctionType):
                    r = self.call(m, [x, y])
                    if r is not NotImplemented:
                        return r
        if isinstance(a, tuple) and isinstance(b, tuple):
            for x, y in zip(a, b):
                if not self.truth(self.eq(x, y)):
                    return self.order(op, x, y)
            import operator
            return {'<': operator.lt, '>': operator.gt, '<=': operator.le, '>=': operator.ge}[op](len(a), len(b))
        if isinstance(a, str) and isinstance(b, str):
            import operator
            return {'<': operator.lt, '>': operator.gt, '<=': operator.le, '>=': operator.ge}[op](a, b)
        if S.is_str(a) and S.is_str(b):
            f = z3.Function('str.lt', Str, Str, z3.BoolSort())
            x, y = S.term(cx, a), S.term(cx, b)
            if op in ('>', '<='):
                x, y = y, x
            r = f(x, y)
            cx.axiom(z3.Not(z3.And(f(x, y), f(y, x))), z3.Or(x == y, f(x, y), f(y, x)))
            return mkbool(r if op in ('<', '>') else z3.Not(r))
        raise PyRaise(TypeError, (f'{op} not supported',))

    def contains(self, x, c):
        """x in c"""
        cx = self.cx
        if isinstance(c, (str, SStr)):
            if not S.is_str(x):
                raise PyRaise(TypeError, ("'in <string>' requires string",))
            r = S.contains(cx, x, c)
            return r if isinstance(r, bool) else mkbool(r)
        if isinstance(c, (dict, set, frozenset, types.MappingProxyType, type({}.keys()))) or isinstance(c, (list, tuple)) and not isinstance(c, Sym):
            if isinstance(x, (str, int, float, bool, type)) or x is None:
                if not isinstance(c, (list, tuple)) or all(not isinstance(y, Sym) for y in c):
                    return x in c
            result = []
            for y in c:
                if y is x:
                    return True
                r = self.eq(x, y)
                if isinstance(r, SBool):
                    result.append(r.z)
                elif self.truth(r):
                    return True
            return mkbool(z3.Or(*result)) if result else False
        if isinstance(c, Ref):
            rec = cx.rec(c)
            if isinstance(rec, (ListRec, DictRec)):
                pos, v, chunks = self.find_in(rec.chunks(), x, key=isinstance(rec, DictRec))
                rec.set_chunks(chunks)
                return pos is not None
            if isinstance(rec, InstRec):
                m = self.type_attr(c, '__contains__')
                if m is not _MISSING:
                    return self.call(m, [c, x])
                it = self.type_attr(c, '__iter__')
                if it is not _MISSING:
                    pos, v, chunks = self.find_in(self.chunks(c), x)
                    return pos is not None
            if isinstance(rec, self.soup.NodeRec):
                return self.soup.contains(cx, x, c)
            h = getattr(rec, 'contains', None)
            if h:
                return h(cx, x)
        if isinstance(c, Poison):
            raise Unsupported(f'{c.why} after a loop which changes it')
        if isinstance(c, range) and isinstance(x, int):
            return x in c
        if c is None or isinstance(c, NUMERIC):
            raise PyRaise(TypeError, ('not iterable',))
        raise Unsupported(f'in {c!r}')

    def hashable(self, x):
        if isinstance(x, Ref):
            rec = self.cx.rec(x)
            if isinstance(rec, (ListRec, DictRec)):
                raise PyRaise(TypeError, ('unhashable',))
            if isinstance(rec, InstRec):
                h = self.type_attr(x, '__hash__')
                if h is None:
                    raise PyRaise(TypeError, ('unhashable',))

    def key_eq(self, a, b):
        """whether two dict keys are the same: hashes equal, and then ==. bool or z3"""
        cx = self.cx
        if isinstance(a, Ref) and isinstance(cx.rec(a), InstRec) and isinstance(b, Ref) and isinstance(cx.rec(b), InstRec):
            if a == b:
                return True
            ha, hb = self.hash(a), self.hash(b)
            if not cx.branch(ha == hb) if not ha.eq(hb) else False:
                return False
        r = self.eq(a, b)
        if isinstance(r, SBool):
            return r
        return self.truth(r)

    def hash(self, v):
        """an ideal hash: equal exactly for equal numbers or texts. A z3 Real"""
        cx = self.cx
        if isinstance(v, NUMERIC):
            return zreal(v)
        if isinstance(v, Ref) and isinstance(cx.rec(v), InstRec):
            h = self.type_attr(v, '__hash__')
            if h is None:
                raise PyRaise(TypeError, ('unhashable',))
            if isinstance(h, types.FunctionType):
                r = self.call(h, [v])
                return zreal(r)
            f = z3.Function('id', z3.IntSort(), z3.RealSort())
            return f(z3.IntVal(v.id))
        if isinstance(v, tuple):
            f = z3.Function(f'hash{len(v)}', *([z3.RealSort()]*len(v)), z3.RealSort())
            return f(*[self.hash(x) for x in v])
        if S.is_str(v):
            return z3.Function('hash.str', Str, z3.RealSort())(S.term(cx, v))
        if v is None:
            return z3.Const('hash.None', z3.RealSort())
        if isinstance(v, Ref):
            raise PyRaise(TypeError, ('unhashable',))
        return z3.Const(f'hash.{id(v)}', z3.RealSort())

    def find_in(self, chunks, x, key=False):
        """
        Looks for the first value equal to x (or the pair whose key is x).
        Returns (index, value, chunks as now known); index None if there is none.
        """
        cx = self.cx
        if key:
            self.hashable(x)
        chunks = list(Q.norm(cx, chunks))
        i = 0
        while i < len(chunks):
            c = chunks[i]
            if isinstance(c, Elem):
                y = c.v[0] if key else c.v
                r = self.key_eq(y, x) if key else self.eq(y, x)
                if self.truth(r):
                    return i, c.v, tuple(chunks)
                i += 1
                continue
            if isinstance(c, Hole):
                raise Unsupported('looking in what earlier iterations of a loop wrote')
            if isinstance(c, Bag):
                # within a bag
                if not c.plain():
                    raise Unsupported('looking in sorted values')
                j, v, inner = self.find_in(c.chunks, x, key)
                chunks[i] = Bag(inner, c.order)
                if j is not None:
                    return (i, j), v, tuple(chunks)
                i += 1
                continue
            # a Seg: which of its elements has it?
            conds = []

            def run(v):
                y = v[0] if key else v
                r = self.key_eq(y, x) if key else self.eq(y, x)
                if self.truth(r):
                    raise BreakLoop()
            results = Q.body_paths(cx, c, run, Q.Effects())
            found = [r for r in results if r[2][0][0] == 'break']
            raised = [r for r in results if r[2][0][0] == 'raise']
            if raised:
                if found:
                    pass
                # an exception while comparing
                ec = z3.Or(*[z3.And(*r[0]) if r[0] else z3.BoolVal(True) for r in raised])
                if cx.choose(2, 'does comparing raise?') == 1:
                    A, xx, B = Q.split(cx, c.src, 'raises')
                    cx.assume(Q.sub(ec, c.src.e0, xx))
                    raise PyRaise(raised[0][2][0][1].cls, ())
                Q.forall(cx, c.src, c.src.e0, z3.Not(ec))
            if not found:
                i += 1
                continue
            for r in found:
                if r[2][3]:
                    raise Unsupported('comparing has effects')
            fc = z3.Or(*[z3.And(*r[0]) if r[0] else z3.BoolVal(True) for r in found])
            k = cx.choose(2, f'is it in {c.src.name}?')
            if k == 0:
                Q.forall(cx, c.src, c.src.e0, z3.Not(fc))
                i += 1
                continue
            A, xx, B = Q.split(cx, c.src, 'found')
            before, after = (B, A) if c.rev else (A, B)
            Q.forall(cx, before, c.src.e0, z3.Not(fc))
            for r in found:
                for z in r[1]:
                    cx.fact(Q.sub(z, c.src.e0, xx))
            cx.assume(Q.sub(fc, c.src.e0, xx))
            chunks[i:i+1] = list(Q.norm(cx, [c]))
            # now it's one of the Elems
        return None, None, tuple(chunks)

    ####################################################################
    # numbers

    def to_float(self, v):
        cx = self.cx
        if isinstance(v, (SReal,)):
            return v
        if isinstance(v, bool):
            return float(v)
        if isinstance(v, (int, float)):
            return float(v)
        if isinstance(v, SInt):
            return SReal(z3.ToReal(v.z))
        if isinstance(v, SBool):
            return SReal(zreal(v))
        if S.is_str(v):
            return S.to_float(cx, v)
        if isinstance(v, Ref):
            rec = cx.rec(v)
            if isinstance(rec, InstRec):
                m = self.type_attr(v, '__float__')
                if m is not _MISSING:
                    r = self.call(m, [v])
                    if not isinstance(r, (float, SReal)):
                        raise PyRaise(TypeError, ('__float__ returned non-float',))
                    return r
            if isinstance(rec, self.soup.NodeRec) and self.soup.is_text(cx, v):
                return S.to_float(cx, self.soup.text_of(cx, v))
        raise PyRaise(TypeError, ('float() argument must be a string or a real number',))

    def trunc(self, v):
        if isinstance(v, SReal):
            z = v.z
            if z3.is_to_real(z):
                return SInt(z.arg(0))
            if self.cx.branch(z >= 0):
                return SInt(self.floor(z))
            return SInt(-self.floor(-z))
        return int(v)

    def floor(self, z):
        """an Int term: the floor of a Real term"""
        cx = self.cx
        z = z3.simplify(z)
        if z3.is_rational_value(z):
            from fractions import Fraction
            return z3.IntVal(math.floor(Fraction(z.numerator_as_long(), z.denominator_as_long())))
        if z3.is_to_real(z):
            return z.arg(0)
        memo = cx.memo.setdefault('floor', {})
        if z.get_id() not in memo:
            k = cx.int('floor')
            memo[z.get_id()] = (k, z)
            cx.fact(z3.And(z3.ToReal(k) <= z, z < z3.ToReal(k)+1))
        return memo[z.get_id()][0]

    def div(self, a, b):
        """a Real term for a/b, b != 0"""
        cx = self.cx
        if z3.is_rational_value(b):
            return a/b
        memo = cx.memo.setdefault('div', {})
        a = z3.simplify(a)
        key = (a.get_id(), b.get_id())
        neg = z3.simplify(-a)
        if key not in memo and (neg.get_id(), b.get_id()) in memo:
            return -memo[(neg.get_id(), b.get_id())][0]
        if key not in memo:
            q = cx.real('quot')
            memo[key] = (q, a, b)
            cx.fact(q*b == a)
            cx.fact(z3.Implies(b > 0, z3.And((q >= 0) == (a >= 0), (q == 0) == (a == 0))))
        return memo[key][0]

    def to_int(self, v, base=None):
        cx = self.cx
        if base is not None:
            return S.to_int(cx, v, base)
        if isinstance(v, (SInt, SLen)):
            return v
        if isinstance(v, SReal):
            return self.trunc(v)
        if isinstance(v, SBool):
            return SInt(zint(v))
        if isinstance(v, (int, float)):
            try:
                return int(v)
            except (ValueError, OverflowError) as e:
                raise PyRaise(type(e), ())
        if S.is_str(v):
            return S.to_int(cx, v)
        if isinstance(v, Ref):
            rec = cx.rec(v)
            if isinstance(rec, InstRec):
                m = self.type_attr(v, '__int__')
                if m is not _MISSING:
                    return self.call(m, [v])
            if isinstance(rec, self.soup.NodeRec) and self.soup.is_text(cx, v):
                return S.to_int(cx, self.soup.text_of(cx, v))
        raise PyRaise(TypeError, ('int() argument must be a string or a number',))

    def to_str(self, v):
        cx = self.cx
        if isinstance(v, (str, SStr)):
            return v
        if v is None:
            return 'None'
        if isinstance(v, NUMERIC):
            return S.num_to_str(cx, v)
        if isinstance(v, Ref):
            rec = cx.rec(v)
            if isinstance(rec, InstRec):
                m = self.type_attr(v, '__str__')
                if isinstance(m, types.FunctionType):
                    return self.call(m, [v])
                m = self.type_attr(v, '__repr__')
                if isinstance(m, types.FunctionType):
                    return self.call(m, [v])
                return S.opaque(cx, 'str')
            if isinstance(rec, self.soup.NodeRec):
                if self.soup.is_text(cx, v):
                    return self.soup.text_of(cx, v)
                return self.soup.decode(cx, v)
            return S.opaque(cx, 'str')
        if isinstance(v, Opaque):
            h = getattr(v, 'str', None)
            if h:
                return h(cx)
            return S.opaque(cx, 'str')
        if isinstance(v, (tuple, ExcVal, FnVal, Bound, type)):
            if isinstance(v, tuple) and not any(isinstance(x, (Sym, FnVal)) for x in v):
                return str(v)
            return S.opaque(cx, 'str')
        if isinstance(v, Poison):
            raise Unsupported(f'{v.why} after a loop which changes it')
        return str(v)

    def binop(self, op, a, b):
        cx = self.cx
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('a variable after a loop which changes it')
        if isinstance(a, SLen) or isinstance(b, SLen):
            return self.binop_len(op, a, b)
        if isinstance(a, NUMERIC) and isinstance(b, NUMERIC):
            return self.arith(op, a, b)
        if S.is_str(a) and op == 'Add' and S.is_str(b):
            return S.concat(a, b)
        if S.is_str(a) and op == 'Mod':
            return S.percent(cx, a, b)
        if op == 'Mult' and isinstance(a, str) and isinstance(b, int) and not isinstance(b, bool):
            return a*b
        if op == 'Mult' and isinstance(a, int) and isinstance(b, str):
            return a*b
        if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
            return a+b
        if isinstance(a, tuple) and isinstance(b, int) and op == 'Mult':
            return a*b
        dunder = {'Add': ('__add__', '__radd__'), 'Sub': ('__sub__', '__rsub__'), 'Mult': ('__mul__', '__rmul__'),
                  'Div': ('__truediv__', '__rtruediv__'), 'FloorDiv': ('__floordiv__', '__rfloordiv__'),
                  'Mod': ('__mod__', '__rmod__'), 'BitOr': ('__or__', '__ror__'), 'BitAnd': ('__and__', '__rand__'),
                  'Pow': ('__pow__', '__rpow__')}.get(op)
        if dunder:
            for x, y, n in ((a, b, dunder[0]), (b, a, dunder[1])):
                if isinstance(x, Ref) and isinstance(cx.rec(x), InstRec):
                    m = self.type_attr(x, n)
                    if isinstance(m, types.FunctionType):
                        r = self.call(m, [x, y])
                        if r is not NotImplemented:
                            return r
        if isinstance(a, Ref):
            ra = cx.rec(a)
            if isinstance(ra, ListRec):
                if op == 'Add' and isinstance(b, Ref) and isinstance(cx.rec(b), ListRec):
                    if ra.kind == 'list' and cx.rec(b).kind == 'list':
                        return cx.new(ListRec(ra.chunks() + cx.rec(b).chunks()))
                if op == 'Mult' and isinstance(b, int):
                    return cx.new(ListRec(ra.chunks()*b))
                if op == 'Sub' and ra.kind in ('set', 'keys'):
                    return self.models.set_difference(cx, a, b)
            if isinstance(ra, DictRec) and op == 'BitOr':
                return self.models.dict_or(cx, a, b)
        if isinstance(a, (list,)) and isinstance(b, int) and op == 'Mult':
            return cx.new(ListRec([Elem(x) for x in a*b]))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('arithmetic on unknown objects')
        raise PyRaise(TypeError, (f'unsupported operand types for {op}',))

    def binop_len(self, op, a, b):
        v = []
        for x in (a, b):
            if isinstance(x, SLen):
                c = Q.norm(self.cx, x.chunks)
                if not Q.simple(c):
                    raise Unsupported('arithmetic on an unknown length')
                x = len(c)
            v.append(x)
        return self.binop(op, v[0], v[1])

    def arith(self, op, a, b):
        cx = self.cx
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            import operator
            f = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv,
                 'FloorDiv': operator.floordiv, 'Mod': operator.mod, 'Pow': operator.pow, 'BitOr': operator.or_,
                 'BitAnd': operator.and_, 'LShift': operator.lshift, 'RShift': operator.rshift,
                 'BitXor': operator.xor}.get(op)
            try:
                return f(a, b)
            except Exception as e:
                raise PyRaise(type(e), e.args)
        for x in (a, b):
            if isinstance(x, float) and not math.isfinite(x):
                raise Unsupported('arithmetic on infinities')
        ints = isinstance(a, (int, SInt, SBool)) and isinstance(b, (int, SInt, SBool))
        if op in ('Add', 'Sub', 'Mult'):
            if ints:
                x, y = zint(a), zint(b)
                return SInt(z3.simplify({'Add': x+y, 'Sub': x-y, 'Mult': x*y}[op]))
            x, y = zreal(a), zreal(b)
            if op == 'Mult':
                # x * (q = z/x) is z
                for (q, n, d) in cx.memo.get('div', {}).values():
                    if (q.eq(x) and d.eq(y)) or (q.eq(y) and d.eq(x)):
                        return SReal(n)
            return SReal(z3.simplify({'Add': x+y, 'Sub': x-y, 'Mult': x*y}[op]))
        if op in ('Div', 'FloorDiv', 'Mod'):
            x, y = zreal(a), zreal(b)
            if not z3.is_rational_value(y):
                if cx.branch(y == 0):
                    raise PyRaise(ZeroDivisionError, ())
            elif y.numerator_as_long() == 0:
                raise PyRaise(ZeroDivisionError, ())
            q = self.div(x, y)
            if op == 'Div':
                return SReal(q)
            k = self.floor(q)
            if op == 'FloorDiv':
                return SInt(k) if ints else SReal(z3.ToReal(k))
            if ints:
                return SInt(zint(a) - zint(b)*k)
            return SReal(x - y*z3.ToReal(k))
        if op == 'Pow' and isinstance(b, int) and 0 <= b <= 4:
            r = 1
            for _ in range(b):
                r = self.arith('Mult', r, a)
            return r
        raise Unsupported(f'{op} on unknown numbers')

    ####################################################################
    # expressions

    def eval(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported(f'{type(n).__name__} expressions')
        return m(n)

    @property
    def frame(self):
        return self.cx.frames[-1]

    def e_Constant(self, n):
        return n.value

    def e_Name(self, n):
        return self.load(n.id)

    def load(self, name):
        f = self.frame
        first = True
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if isinstance(v, Poison):
                    raise Unsupported(f'{name} after a loop which changes it')
                return v
            if first and name in f.locals:
                raise PyRaise(UnboundLocalError, (name,))
            if name in f.locals and f.name != 'comp':
                raise PyRaise(NameError, (name,))
            first = first and f.name == 'comp'
            f = f.parent
        g = self.frame.globals
        if (id(g), name) in self.cx.overlay:
            return self.cx.overlay[(id(g), name)]
        if name in g:
            return g[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(NameError, (name,))

    def e_Attribute(self, n):
        return self.getattr(self.eval(n.value), n.attr)

    def e_Tuple(self, n):
        return tuple(self.star_values(n.elts))

    def star_values(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.concrete(self.eval(e.value), 'a starred sequence'))
            else:
                out.append(self.eval(e))
        return out

    def e_List(self, n):
        chunks = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                chunks.extend(self.chunks(self.eval(e.value)))
            else:
                chunks.append(Elem(self.eval(e)))
        return self.cx.new(ListRec(chunks))

    def e_Set(self, n):
        return self.cx.new(ListRec([Elem(v) for v in self.star_values(n.elts)], 'set'))

    def e_Dict(self, n):
        ref = self.cx.new(DictRec())
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.models.dict_update(self.cx, ref, self.eval(v))
                continue
            kk = self.eval(k)
            self.models.dict_put(self.cx, ref, kk, self.eval(v))
        return ref

    def e_Lambda(self, n):
        f = self.frame
        return FnVal(n, f, '<lambda>', [self.eval(d) for d in n.args.defaults],
                     {a.arg: self.eval(d) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None}, None)

    def e_IfExp(self, n):
        return self.eval(n.body) if self.truth(self.eval(n.test)) else self.eval(n.orelse)

    def e_NamedExpr(self, n):
        v = self.eval(n.value)
        f = self.frame
        while f.name == 'comp':
            f = f.parent
        f.vars[n.target.id] = v
        return v

    def e_BoolOp(self, n):
        v = None
        for i, e in enumerate(n.values):
            v = self.eval(e)
            if i == len(n.values)-1:
                return v
            t = self.truth(v)
            if isinstance(n.op, ast.And) and not t:
                return v if not isinstance(v, SBool) else False
            if isinstance(n.op, ast.Or) and t:
                return v if not isinstance(v, SBool) else True
        return v

    def e_UnaryOp(self, n):
        v = self.eval(n.operand)
        if isinstance(n.op, ast.Not):
            if isinstance(v, SBool):
                return mkbool(z3.simplify(z3.Not(v.z)))
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            if isinstance(v, SReal):
                return SReal(z3.simplify(-v.z))
            if isinstance(v, (SInt, SBool)):
                return SInt(z3.simplify(-zint(v)))
            if isinstance(v, (int, float)):
                return -v
            raise PyRaise(TypeError, ('bad operand type for unary -',))
        if isinstance(n.op, ast.UAdd) and isinstance(v, NUMERIC):
            return v
        raise Unsupported('unary operator')

    def e_BinOp(self, n):
        a = self.eval(n.left)
        b = self.eval(n.right)
        return self.binop(type(n.op).__name__, a, b)

    def e_Compare(self, n):
        left = self.eval(n.left)
        result = True
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(r)
            result = self.compare(op, left, right)
            if i < len(n.ops)-1:
                if not self.truth(result):
                    return False
            left = right
        return result

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return self.not_(self.is_(a, b))
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return self.ne(a, b)
        if isinstance(op, ast.In):
            return self.contains(a, b)
        if isinstance(op, ast.NotIn):
            return self.not_(self.contains(a, b))
        s = {ast.Lt: '<', ast.Gt: '>', ast.LtE: '<=', ast.GtE: '>='}[type(op)]
        return self.order(s, a, b)

    def e_Subscript(self, n):
        v = self.eval(n.value)
        i = self.eval(n.slice)
        return self.getitem(v, i)

    def e_Slice(self, n):
        return Slice(*[self.eval(x) if x is not None else None for x in (n.lower, n.upper, n.step)])

    def getitem(self, v, i):
        cx = self.cx
        if isinstance(v, Poison):
            raise Unsupported(f'{v.why} after a loop which changes it')
        if isinstance(v, (str, SStr)):
            if isinstance(i, Slice):
                return S.slice_(cx, v, i.lo, i.hi, i.step)
            if isinstance(i, int):
                return S.index(cx, v, i)
            raise Unsupported('index of a text')
        if isinstance(v, (tuple, list)):
            if isinstance(i, Slice):
                return v[i.lo:i.hi:i.step]
            if isinstance(i, int):
                try:
                    return v[i]
                except IndexError:
                    raise PyRaise(IndexError, ())
            if not isinstance(i, Sym):
                raise PyRaise(TypeError, ())
            raise Unsupported('unknown index')
        if isinstance(v, (dict, types.MappingProxyType)):
            if isinstance(i, Sym):
                for k in v:
                    r = self.eq(i, k)
                    if self.truth(r):
                        return v[k]
                raise PyRaise(KeyError, (i,))
            try:
                return v[i]
            except KeyError:
                raise PyRaise(KeyError, (i,))
        if isinstance(v, Ref):
            rec = cx.rec(v)
            if isinstance(rec, DictRec):
                pos, kv, chunks = self.find_in(rec.chunks(), i, key=True)
                rec.set_chunks(chunks)
                if pos is None:
                    raise PyRaise(KeyError, (i,))
                return kv[1]
            if isinstance(rec, ListRec):
                if rec.kind in ('set', 'values', 'keys', 'items', 'iter'):
                    raise PyRaise(TypeError, ('not subscriptable',))
                return self.models.list_getitem(cx, v, i)
            if isinstance(rec, self.soup.NodeRec):
                return self.soup.getitem(cx, v, i)
            if isinstance(rec, InstRec):
                m = self.type_attr(v, '__getitem__')
                if m is not _MISSING:
                    return self.call(m, [v, i])
            h = getattr(rec, 'getitem', None)
            if h:
                return h(cx, i)
        if isinstance(v, Opaque):
            h = getattr(v, 'getitem', None)
            if h:
                return h(cx, i)
        if self.is_host_instance(v):
            m = self.lookup(type(v), '__getitem__')
            if m is not _MISSING:
                return self.call(m, [v, i])
        if isinstance(v, type):
            return v
        raise PyRaise(TypeError, ('not subscriptable',))

    def e_Call(self, n):
        # calls which are only for messages
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
            if (n.func.value.id, n.func.attr) in SKIP_CALLS:
                return None
        if isinstance(n.func, ast.Name) and n.func.id == 'print':
            return None
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            f = self.frame
            while f.name == 'comp':
                f = f.parent
            cls = f.cls
            if cls is None:
                # defined in a class body: find it through the first argument
                raise Unsupported('super() with no class')
            return Super(cls, f.first)
        fn = self.eval(n.func)
        args = self.star_values(n.args)
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value)
                if isinstance(d, dict):
                    kwargs.update(d)
                    continue
                rec = self.cx.rec(d)
                if not isinstance(rec, DictRec):
                    raise Unsupported('** of something')
                for c in Q.norm(self.cx, rec.chunks()):
                    if isinstance(c, Elem) and isinstance(c.v[0], str):
                        if c.v[0] in kwargs:
                            raise PyRaise(TypeError, ('multiple values for keyword argument',))
                        kwargs[c.v[0]] = c.v[1]
                    else:
                        kwargs['**'] = kwargs.get('**', ()) + (c,)
            else:
                kwargs[k.arg] = self.eval(k.value)
        return self.call(fn, args, kwargs)

    def e_JoinedStr(self, n):
        out = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                out.append(p.value)
            else:
                v = self.eval(p.value)
                if p.conversion == 114:
                    v = self.models.repr_(self.cx, [v], {})
                elif p.conversion == 115:
                    v = self.to_str(v)
                spec = ''
                if p.format_spec is not None:
                    spec = self.eval(p.format_spec)
                    if not isinstance(spec, str):
                        raise Unsupported('symbolic format')
                out.extend(S.parts_of(S.format_mini(self.cx, v, spec)))
        return mkstr(out)

    # comprehensions

    def comp(self, n, add):
        cx = self.cx
        f = self.frame
        fr = Frame('comp', f.globals, f, f.cls, f.first)
        fr.file, fr.line = f.file, f.line
        # the first iterable is evaluated outside
        first = self.chunks(self.eval(n.generators[0].iter))
        cx.frames.append(fr)
        k = len(cx.frames)
        try:
            self.comp_level(n, 0, first, add)
        finally:
            del cx.frames[k-1:]

    def comp_level(self, n, i, chunks, add):
        g = n.generators[i]

        def run(v):
            self.assign(g.target, v)
            for c in g.ifs:
                if not self.truth(self.eval(c)):
                    return
            if i+1 < len(n.generators):
                self.comp_level(n, i+1, self.chunks(self.eval(n.generators[i+1].iter)), add)
            else:
                add()
        Q.loop(self.cx, chunks, run)

    def comp_list(self, n, kind):
        cx = self.cx
        ref = cx.new(ListRec((), kind))

        def add():
            v = self.eval(n.elt)
            rec = cx.rec(ref)
            rec.set_chunks(rec.chunks() + (Elem(v),))
        self.comp(n, add)
        return ref

    def e_ListComp(self, n):
        return self.comp_list(n, 'list')

    def e_GeneratorExp(self, n):
        return self.comp_list(n, 'iter')

    def e_SetComp(self, n):
        return self.models.make_set(self.cx, self.comp_list(n, 'list'))

    def e_DictComp(self, n):
        cx = self.cx
        ref = cx.new(DictRec())

        def add():
            k = self.eval(n.key)
            self.models.dict_put(cx, ref, k, self.eval(n.value))
        self.comp(n, add)
        return ref

    def e_Yield(self, n):
        f = self.frame
        v = self.eval(n.value) if n.value else None
        rec = self.cx.rec(f.yields)
        rec.set_chunks(rec.chunks() + (Elem(v),))
        return None

    def e_YieldFrom(self, n):
        f = self.frame
        c = self.chunks(self.eval(n.value))
        rec = self.cx.rec(f.yields)
        rec.set_chunks(rec.chunks() + tuple(c))
        return None

    ####################################################################
    # statements

    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        self.frame.line = s.lineno
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'{type(s).__name__} statements')
        m(s)

    def s_Expr(self, s):
        self.eval(s.value)

    def s_Pass(self, s):
        pass

    def s_Return(self, s):
        raise ReturnEx(self.eval(s.value) if s.value else None)

    def s_Break(self, s):
        raise BreakLoop()

    def s_Continue(self, s):
        raise ContinueLoop()

    def s_Global(self, s):
        pass

    def s_Nonlocal(self, s):
        self.frame.nonlocals = getattr(self.frame, 'nonlocals', set()) | set(s.names)

    def s_Import(self, s):
        for a in s.names:
            import importlib
            m = importlib.import_module(a.name)
            self.frame.vars[(a.asname or a.name).split('.')[0]] = m if a.asname else sys.modules[a.name.split('.')[0]]

    def s_ImportFrom(self, s):
        import importlib
        m = importlib.import_module(s.module)
        for a in s.names:
            self.frame.vars[a.asname or a.name] = getattr(m, a.name)

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def s_AugAssign(self, s):
        op = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            old = self.load(s.target.id)
            new = self.inplace(op, old, self.eval(s.value))
            self.assign(s.target, new)
        elif isinstance(s.target, ast.Attribute):
            obj = self.eval(s.target.value)
            old = self.getattr(obj, s.target.attr)
            self.setattr(obj, s.target.attr, self.inplace(op, old, self.eval(s.value)))
        else:
            obj = self.eval(s.target.value)
            i = self.eval(s.target.slice)
            old = self.getitem(obj, i)
            self.setitem(obj, i, self.inplace(op, old, self.eval(s.value)))

    def inplace(self, op, a, b):
        cx = self.cx
        if isinstance(a, Ref):
            rec = cx.rec(a)
            if isinstance(rec, ListRec) and op == 'Add' and rec.kind == 'list':
                rec.set_chunks(rec.chunks() + tuple(self.chunks(b)))
                return a
            if isinstance(rec, DictRec) and op == 'BitOr':
                self.models.dict_update(cx, a, b)
                return a
            if isinstance(rec, InstRec):
                m = self.type_attr(a, {'Add': '__iadd__', 'Sub': '__isub__', 'BitOr': '__ior__'}.get(op, '__none__'))
                if isinstance(m, types.FunctionType):
                    return self.call(m, [a, b])
        return self.binop(op, a, b)

    def assign(self, t, v):
        cx = self.cx
        if isinstance(t, ast.Name):
            f = self.frame
            if t.id in getattr(f, 'nonlocals', ()):
                f = f.parent
                while f is not None and t.id not in f.vars:
                    f = f.parent
            f.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                vals = self.concrete(v)
                i = [isinstance(e, ast.Starred) for e in t.elts].index(True)
                after = len(t.elts)-i-1
                if len(vals) < i+after:
                    raise PyRaise(ValueError, ('not enough values to unpack',))
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x)
                self.assign(t.elts[i].value, self.new_list(vals[i:len(vals)-after]))
                for e, x in zip(t.elts[i+1:], vals[len(vals)-after:]):
                    self.assign(e, x)
                return
            c = self.chunks(v)
            if not Q.simple(Q.norm(cx, c)):
                c = Q.force(cx, c, len(t.elts)+1)
                if isinstance(v, Ref) and isinstance(cx.rec(v), ListRec):
                    cx.rec(v).set_chunks(c)
            else:
                c = Q.norm(cx, c)
            vals = []
            for x in c:
                if not isinstance(x, Elem):
                    break
                vals.append(x.v)
            if len(vals) != len(t.elts):
                raise PyRaise(ValueError, ('wrong number of values to unpack',))
            for e, x in zip(t.elts, vals):
                self.assign(e, x)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value)
            self.setitem(obj, self.eval(t.slice), v)
        else:
            raise Unsupported('assignment target')

    def setitem(self, obj, i, v):
        cx = self.cx
        if isinstance(obj, Ref):
            rec = cx.rec(obj)
            if isinstance(rec, DictRec):
                return self.models.dict_put(cx, obj, i, v)
            if isinstance(rec, ListRec):
                return self.models.list_setitem(cx, obj, i, v)
            if isinstance(rec, self.soup.NodeRec):
                return self.soup.setitem(cx, obj, i, v)
            if isinstance(rec, InstRec):
                m = self.type_attr(obj, '__setitem__')
                if m is not _MISSING:
                    self.call(m, [obj, i, v])
                    return
            h = getattr(rec, 'setitem', None)
            if h:
                return h(cx, i, v)
        if isinstance(obj, (str, tuple, SStr)) or obj is None:
            raise PyRaise(TypeError, ('does not support item assignment',))
        raise Unsupported(f'item assignment to {obj!r}')

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id not in self.frame.vars:
                    raise PyRaise(NameError, (t.id,))
                del self.frame.vars[t.id]
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value), self.eval(t.slice))
            elif isinstance(t, ast.Attribute):
                self.delattr(self.eval(t.value), t.attr)

    def delitem(self, obj, i):
        cx = self.cx
        if isinstance(obj, Ref):
            rec = cx.rec(obj)
            if isinstance(rec, DictRec):
                return self.models.dict_del(cx, obj, i)
            if isinstance(rec, ListRec):
                return self.models.list_del(cx, obj, i)
            if isinstance(rec, self.soup.NodeRec):
                return self.soup.delitem(cx, obj, i)
            if isinstance(rec, InstRec):
                m = self.type_attr(obj, '__delitem__')
                if m is not _MISSING:
                    self.call(m, [obj, i])
                    return
            h = getattr(rec, 'delitem', None)
            if h:
                return h(cx, i)
        raise Unsupported('del of an item')

    def s_If(self, s):
        if self.truth(self.eval(s.test)):
            self.block(s.body)
        else:
            self.block(s.orelse)

    def s_For(self, s):
        chunks = self.chunks(self.eval(s.iter))
        frame = self.frame

        def run(v):
            self.assign(s.target, v)
            self.block(s.body)
        try:
            Q.loop(self.cx, chunks, run)
        except BreakLoop:
            return
        self.block(s.orelse)

    def s_While(self, s):
        n = 0
        while self.truth(self.eval(s.test)):
            n += 1
            if n > 200:
                raise Unsupported('a while loop without a bound')
            try:
                self.block(s.body)
            except ContinueLoop:
                continue
            except BreakLoop:
                return
        self.block(s.orelse)

    def s_Assert(self, s):
        if not self.truth(self.eval(s.test)):
            raise PyRaise(AssertionError, ())

    def s_Raise(self, s):
        if s.exc is None:
            cur = getattr(self, 'handling', None)
            if not cur:
                raise PyRaise(RuntimeError, ())
            raise cur[-1]
        e = s.exc
        if isinstance(e, ast.Call):
            cls = self.eval(e.func)
            if isinstance(cls, type) and issubclass(cls, BaseException):
                raise PyRaise(cls, ())
        v = self.eval(e)
        if isinstance(v, type) and issubclass(v, BaseException):
            raise PyRaise(v, ())
        if isinstance(v, ExcVal):
            raise PyRaise(v.cls, v.args_)
        raise PyRaise(TypeError, ('exceptions must derive from BaseException',))

    def s_Try(self, s):
        cx = self.cx

        def body():
            try:
                self.block(s.body)
            except PyRaise as e:
                for h in s.handlers:
                    if self.catches(h, e):
                        if h.name:
                            self.frame.vars[h.name] = ExcVal(e.cls, e.args_)
                        self.handling = getattr(self, 'handling', []) + [e]
                        try:
                            self.block(h.body)
                        finally:
                            self.handling = self.handling[:-1]
                            if h.name:
                                self.frame.vars.pop(h.name, None)
                        return
                raise
            self.block(s.orelse)
        if not s.finalbody:
            return body()
        try:
            body()
        except (PyRaise, ReturnEx, BreakLoop, ContinueLoop):
            self.block(s.finalbody)
            raise
        self.block(s.finalbody)

    def catches(self, h, e):
        if h.type is None:
            return True
        c = self.eval(h.type)
        if isinstance(c, tuple):
            return any(issubclass(e.cls, x) for x in c)
        return issubclass(e.cls, c)

    def s_With(self, s):
        self.with_items(s.items, s.body)

    def with_items(self, items, body):
        if not items:
            return self.block(body)
        it = items[0]
        m = self.eval(it.context_expr)
        v = self.models.enter(self.cx, m)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v)
        try:
            self.with_items(items[1:], body)
        except PyRaise as e:
            if self.truth(self.models.exit_(self.cx, m, e)):
                return
            raise
        except (ReturnEx, BreakLoop, ContinueLoop):
            self.models.exit_(self.cx, m, None)
            raise
        self.models.exit_(self.cx, m, None)

    def s_FunctionDef(self, s):
        if s.decorator_list:
            raise Unsupported('decorated inner functions')
        f = self.frame
        v = FnVal(s, f, s.name, [self.eval(d) for d in s.args.defaults],
                  {a.arg: self.eval(d) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}, None)
        f.vars[s.name] = v


class _Missing:
    def __repr__(self):
        return '<missing>'


_MISSING = _Missing()
