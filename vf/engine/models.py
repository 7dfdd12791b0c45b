"""
Models (assumed contracts) of the builtins and of the parts of the standard
library which the repository uses. On concrete arguments they're the real
functions.
"""
import builtins
import copy
import functools
import math
import operator
import os
import re
import types
import warnings
import z3

from .core import *
from . import strings as S
from . import seqs as Q
from .seqs import Elem, Path, Seg, Bag, Hole, SortOrder

MODELS = {}


def model(*fns):
    def deco(f):
        for fn in fns:
            MODELS[id(fn)] = (f, fn)
        return f
    return deco


def find(fn):
    try:
        m = MODELS.get(id(fn))
    except TypeError:
        return None
    if m is not None and m[1] is fn:
        return m[0]
    from . import soup
    m = soup.find_model(fn)
    if m is not None:
        return m
    if isinstance(fn, (types.BuiltinFunctionType, types.MethodDescriptorType, types.BuiltinMethodType,
                       types.WrapperDescriptorType, types.MethodWrapperType)):
        return functools.partial(host_call, fn)
    return None


def host_call(fn, cx, args, kw):
    """a builtin, on arguments which are all concrete"""
    if getattr(fn, '__module__', None) in ('posix', 'nt', 'os', 'io', '_io', 'time', '_socket', 'socket', 'select', 'signal', '_thread',
                                           '_posixsubprocess', 'gc', 'sys', 'atexit', 'faulthandler', 'fcntl', 'mmap', 'ctypes'):
        raise Unsupported(f'calling {fn!r}')
    if is_host(args) and is_host(list(kw.values())):
        return from_host(cx, lambda: fn(*args, **kw))
    # an unbound method such as str.lower
    if args and isinstance(fn, types.MethodDescriptorType):
        return cx.interp.call(cx.interp.getattr(args[0], fn.__name__), args[1:], kw)
    raise Unsupported(f'calling {fn!r}')


def is_host(v):
    if isinstance(v, (list, tuple, set, frozenset)):
        return all(is_host(x) for x in v)
    if isinstance(v, dict):
        return all(is_host(x) for x in v.values())
    return isinstance(v, (str, int, float, bool, bytes, type(None), type, re.Pattern, re.Match, slice, range,
                          types.MappingProxyType, type({}.keys()), type({}.items()), type({}.values())))


def from_host(cx, f):
    try:
        return wrap(cx, f())
    except Exception as e:
        raise PyRaise(type(e), e.args)


def wrap(cx, v):
    if isinstance(v, list):
        return cx.interp.new_list([wrap(cx, x) for x in v])
    if isinstance(v, tuple):
        return tuple(wrap(cx, x) for x in v)
    if isinstance(v, set):
        return cx.interp.new_list(sorted(v, key=repr), 'set')
    if isinstance(v, dict):
        from .interp import DictRec
        return cx.new(DictRec([Elem((k, wrap(cx, x))) for k, x in v.items()]))
    return v


########################################################################
# files: see files.py

class FileRec(Rec):
    cls = object

    def fields(self):
        return {}


########################################################################
# builtins

@model(len)
def len_(cx, args, kw):
    from .interp import ListRec, DictRec, SLen
    v = args[0]
    if S.is_str(v):
        n = S.zlength(cx, v)
        return n
    if isinstance(v, Ref):
        rec = cx.rec(v)
        if isinstance(rec, (ListRec, DictRec)):
            if isinstance(rec, ListRec) and rec.kind == 'iter':
                raise PyRaise(TypeError, ('no len()',))
            c = Q.norm(cx, rec.chunks())
            if Q.simple(c):
                return len(c)
            return SLen(c, v)
        if isinstance(rec, InstRec):
            m = cx.interp.type_attr(v, '__len__')
            if isinstance(m, types.FunctionType):
                return cx.interp.call(m, [v])
            raise PyRaise(TypeError, ('no len()',))
        if isinstance(rec, cx.interp.soup.NodeRec):
            if cx.interp.soup.is_text(cx, v):
                return S.zlength(cx, cx.interp.soup.text_of(cx, v))
            c = Q.norm(cx, cx.interp.soup.children(cx, v))
            return len(c) if Q.simple(c) else SLen(c, None)
        h = getattr(rec, 'iter_chunks', None)
        if h:
            c = Q.norm(cx, h(cx))
            return len(c) if Q.simple(c) else SLen(c, None)
    if isinstance(v, (list, tuple, dict, set, frozenset, range, bytes, type({}.keys()), type({}.items()), type({}.values()), types.MappingProxyType)):
        return len(v)
    if cx.interp.is_host_instance(v):
        m = cx.interp.lookup(type(v), '__len__')
        if isinstance(m, types.FunctionType):
            return cx.interp.call(m, [v])
    if isinstance(v, Opaque_()):
        raise Unsupported('len of an unknown object')
    raise PyRaise(TypeError, ('no len()',))


def Opaque_():
    from .interp import Opaque
    return Opaque


@model(float)
def float_(cx, args, kw):
    return cx.interp.to_float(args[0]) if args else 0.0


@model(int)
def int_(cx, args, kw):
    if not args:
        return 0
    return cx.interp.to_int(args[0], args[1] if len(args) > 1 else kw.get('base'))


@model(str)
def str_(cx, args, kw):
    if not args:
        return ''
    if len(args) > 1:
        raise Unsupported('decoding')
    return cx.interp.to_str(args[0])


@model(bool)
def bool_(cx, args, kw):
    if not args:
        return False
    if isinstance(args[0], SBool):
        return args[0]
    return cx.interp.truth(args[0])


@model(repr)
def repr_(cx, args, kw):
    v = args[0]
    if isinstance(v, SStr):
        return S.opaque(cx, 'repr')
    if isinstance(v, str):
        return repr(v)
    if isinstance(v, Ref) and isinstance(cx.rec(v), InstRec):
        m = cx.interp.type_attr(v, '__repr__')
        if isinstance(m, types.FunctionType):
            return cx.interp.call(m, [v])
        return S.opaque(cx, 'repr')
    if isinstance(v, (Ref, tuple)):
        return S.opaque(cx, 'repr')
    return cx.interp.to_str(v)


@model(object)
def object_(cx, args, kw):
    return Opaque_()(object, f'object{cx.fresh_name("o")}')


@model(list)
def list_(cx, args, kw):
    from .interp import ListRec
    return cx.new(ListRec(tuple(cx.interp.chunks(args[0])) if args else ()))


@model(tuple)
def tuple_(cx, args, kw):
    from .interp import ListRec
    if not args:
        return ()
    if isinstance(args[0], tuple):
        return args[0]
    c = Q.norm(cx, cx.interp.chunks(args[0]))
    if Q.simple(c):
        return tuple(x.v for x in c)
    return cx.new(ListRec(c, 'tuple'))


@model(set)
def set__(cx, args, kw):
    from .interp import ListRec
    if not args:
        return cx.new(ListRec((), 'set'))
    return make_set(cx, args[0])


@model(frozenset)
def frozenset_(cx, args, kw):
    return set__(cx, args, kw)


def make_set(cx, v):
    from .interp import ListRec
    c = Q.norm(cx, cx.interp.chunks(v))
    if Q.simple(c):
        out = []
        for x in c:
            cx.interp.hashable(x.v)
            if not any(cx.interp.truth(cx.interp.key_eq(y, x.v)) for y in out):
                out.append(x.v)
        return cx.interp.new_list(out, 'set')
    pairs = cx.interp.map_chunks(c, lambda x: (x, None))
    if cx.interp.distinct_keys(pairs):
        return cx.new(ListRec([Bag(c, None)], 'set'))
    # how many there are isn't known; but if there are few of them, it can be
    cc = Q.force(cx, c, 4)
    if Q.simple(cc):
        return make_set(cx, cx.new(ListRec(cc)))
    raise Unsupported('a set of unknown things')


def set_difference(cx, a, b):
    xs = cx.interp.concrete(a)
    out = [x for x in xs if not cx.interp.truth(cx.interp.contains(x, b))]
    return cx.interp.new_list(out, 'set')


@model(dict)
def dict_(cx, args, kw):
    from .interp import DictRec, ListRec
    ref = cx.new(DictRec())
    if args:
        v = args[0]
        if isinstance(v, dict):
            for k, x in v.items():
                dict_put(cx, ref, k, x)
        elif isinstance(v, Ref) and isinstance(cx.rec(v), DictRec):
            cx.rec(ref).set_chunks(cx.rec(v).chunks())
        elif isinstance(v, Ref) and isinstance(cx.rec(v), InstRec) and not isinstance(cx.interp.type_attr(v, 'keys'), type(Missing())):
            for k in cx.interp.concrete(cx.interp.call(cx.interp.getattr(v, 'keys'))):
                dict_put(cx, ref, k, cx.interp.getitem(v, k))
        else:
            c = Q.norm(cx, cx.interp.chunks(v))
            if Q.simple(c):
                for x in c:
                    p = cx.interp.concrete(x.v, 'a pair') if not isinstance(x.v, tuple) else x.v
                    if len(p) != 2:
                        raise PyRaise(ValueError, ('pairs',))
                    dict_put(cx, ref, p[0], p[1])
            else:
                pairs_from_chunks(cx, ref, c)
    for k, x in kw.items():
        dict_put(cx, ref, k, x)
    return ref


def Missing():
    from .interp import _MISSING
    return _MISSING


def pairs_from_chunks(cx, ref, c):
    """fills a dict from pairs, however many"""
    from .interp import DictRec
    if cx.interp.distinct_keys(c):
        cx.rec(ref).set_chunks(tuple(cx.rec(ref).chunks()) + tuple(c))
        if len(cx.rec(ref).chunks()) != len(c) and not cx.interp.distinct_keys(cx.rec(ref).chunks()):
            raise Unsupported('a dict whose keys may clash')
        return
    raise Unsupported('a dict whose keys may clash')


def dict_put(cx, ref, k, v):
    it = cx.interp
    rec = cx.rec(ref)
    it.hashable(k)
    if isinstance(k, str) and all(isinstance(c, Elem) and isinstance(c.v[0], str) for c in rec.chunks()):
        ch = list(rec.chunks())
        for i, c in enumerate(ch):
            if c.v[0] == k:
                ch[i] = Elem((k, v))
                rec.set_chunks(ch)
                return
        rec.set_chunks(tuple(ch) + (Elem((k, v)),))
        return
    if any(isinstance(c, Hole) for c in rec.chunks()):
        # within a loop: what earlier iterations put there is looked at afterwards (check_append)
        rest = [c for c in rec.chunks() if not isinstance(c, Hole)]
        for c in rest:
            if isinstance(c, Elem):
                if not it._differ(c.v[0], k):
                    raise Unsupported('a loop which may replace entries')
            else:
                raise Unsupported('a loop which may replace entries')
        rec.set_chunks(tuple(rec.chunks()) + (Elem((k, v)),))
        return
    pos, kv, chunks = it.find_in(rec.chunks(), k, key=True)
    if pos is None:
        rec.set_chunks(tuple(chunks) + (Elem((k, v)),))
        return
    replace_at(cx, rec, chunks, pos, Elem((kv[0], v)))


def replace_at(cx, rec, chunks, pos, new):
    """new: a chunk, or None to delete"""
    chunks = list(chunks)
    if isinstance(pos, tuple):
        bag = chunks[pos[0]]
        if not bag.plain():
            raise Unsupported('replacing sorted values')
        inner = list(bag.chunks)
        inner[pos[1]:pos[1]+1] = [new] if new is not None else []
        chunks[pos[0]] = Bag(inner, bag.order)
    else:
        chunks[pos:pos+1] = [new] if new is not None else []
    rec.set_chunks(chunks)


def dict_del(cx, ref, k):
    rec = cx.rec(ref)
    pos, kv, chunks = cx.interp.find_in(rec.chunks(), k, key=True)
    rec.set_chunks(chunks)
    if pos is None:
        raise PyRaise(KeyError, (k,))
    replace_at(cx, rec, chunks, pos, None)
    return kv[1]


def dict_items(cx, v):
    """chunks of pairs, of anything like a dict"""
    from .interp import DictRec
    if isinstance(v, dict):
        return tuple(Elem((k, x)) for k, x in v.items())
    if isinstance(v, Ref):
        rec = cx.rec(v)
        if isinstance(rec, DictRec):
            return rec.chunks()
        if isinstance(rec, InstRec):
            return tuple(Elem((k, cx.interp.getitem(v, k))) for k in cx.interp.concrete(cx.interp.call(cx.interp.getattr(v, 'keys'))))
        h = getattr(rec, 'items_chunks', None)
        if h:
            return h(cx)
    raise PyRaise(TypeError, ('not a dict',))


def dict_update(cx, ref, other):
    c = Q.norm(cx, dict_items(cx, other))
    if not cx.rec(ref).chunks():
        cx.rec(ref).set_chunks(c)
        return
    for x in c:
        if isinstance(x, Elem):
            dict_put(cx, ref, x.v[0], x.v[1])
        else:
            pairs_from_chunks(cx, ref, [x])


def dict_or(cx, a, b):
    from .interp import DictRec
    if not (isinstance(b, dict) or isinstance(b, Ref) and isinstance(cx.rec(b), DictRec)):
        raise PyRaise(TypeError, ('unsupported operand types for |',))
    ref = cx.new(DictRec(cx.rec(a).chunks()))
    dict_update(cx, ref, b)
    return ref


@model(isinstance)
def isinstance_(cx, args, kw):
    return cx.interp.isinstance(args[0], args[1])


@model(issubclass)
def issubclass_(cx, args, kw):
    a, b = args
    if isinstance(a, AnyOf):
        rs = [issubclass(c, b) for c in a.classes]
        if all(r == rs[0] for r in rs):
            return rs[0]
        raise Unsupported('issubclass of one of several classes')
    if isinstance(b, AnyOf):
        rs = [issubclass(a, c) for c in b.classes]
        if all(r == rs[0] for r in rs):
            return rs[0]
        raise Unsupported('issubclass of one of several classes')
    if not isinstance(a, type):
        raise PyRaise(TypeError, ('issubclass() arg 1 must be a class',))
    return issubclass(a, b)


@model(type)
def type_(cx, args, kw):
    if len(args) != 1:
        raise Unsupported('making classes')
    return cx.interp.type_of(args[0])


@model(callable)
def callable_(cx, args, kw):
    v = args[0]
    if isinstance(v, (FnVal, Bound, PyModel)):
        return True
    if isinstance(v, Ref):
        rec = cx.rec(v)
        if isinstance(rec, InstRec):
            return cx.interp.type_attr(v, '__call__') is not Missing()
        return isinstance(rec, cx.interp.soup.NodeRec)
    if isinstance(v, Opaque_()):
        return getattr(v, 'call', None) is not None
    return callable(v) if not isinstance(v, Sym) else False


@model(hasattr)
def hasattr_(cx, args, kw):
    if not isinstance(args[1], str):
        raise Unsupported('hasattr with an unknown name')
    try:
        cx.interp.getattr(args[0], args[1])
        return True
    except PyRaise as e:
        if issubclass(e.cls, AttributeError):
            return False
        raise


@model(getattr)
def getattr_(cx, args, kw):
    if not isinstance(args[1], str):
        if isinstance(args[1], SStr):
            raise Unsupported('getattr with an unknown name')
        raise PyRaise(TypeError, ('attribute name must be string',))
    return cx.interp.getattr(args[0], args[1], (args[2],) if len(args) > 2 else None)


@model(setattr)
def setattr_(cx, args, kw):
    if not isinstance(args[1], str):
        raise Unsupported('setattr with an unknown name')
    cx.interp.setattr(args[0], args[1], args[2])


@model(delattr)
def delattr_(cx, args, kw):
    cx.interp.delattr(args[0], args[1])


@model(hash)
def hash_(cx, args, kw):
    v = args[0]
    if not isinstance(v, Sym) and is_host(v) and not isinstance(v, (int, float)):
        pass
    return SReal(cx.interp.hash(v))


@model(id)
def id_(cx, args, kw):
    if isinstance(args[0], Ref):
        return args[0].id
    return id(args[0])


@model(abs)
def abs_(cx, args, kw):
    v = args[0]
    if isinstance(v, (SReal, SInt)):
        if cx.branch(v.z >= 0):
            return v
        return type(v)(z3.simplify(-v.z))
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, Ref) and isinstance(cx.rec(v), InstRec):
        m = cx.interp.type_attr(v, '__abs__')
        if isinstance(m, types.FunctionType):
            return cx.interp.call(m, [v])
    raise PyRaise(TypeError, ('bad operand type for abs()',))


@model(round)
def round_(cx, args, kw):
    v = args[0]
    n = args[1] if len(args) > 1 else kw.get('ndigits')
    if isinstance(v, (int, float)):
        return from_host(cx, lambda: round(v) if n is None else round(v, n))
    if isinstance(v, SInt):
        return v
    if isinstance(v, SReal):
        if n is None:
            z = z3.simplify(v.z)
            if z3.is_to_real(z):
                return SInt(z.arg(0))
            memo = cx.memo.setdefault('round', {})
            if z.get_id() not in memo:
                k = cx.int('round')
                memo[z.get_id()] = (k, z, z3.And(z3.ToReal(k) - z <= rv(0.5), z - z3.ToReal(k) <= rv(0.5)))
            cx.fact(memo[z.get_id()][2])
            return SInt(memo[z.get_id()][0])
        if not isinstance(n, int):
            raise Unsupported('round to an unknown number of digits')
        if cx.branch(v.z >= 0):
            return SReal(S.fixed(cx, v.z, n))
        return SReal(-S.fixed(cx, z3.simplify(-v.z), n))
    raise PyRaise(TypeError, ('round',))


def extreme(cx, args, kw, op):
    if len(args) == 1:
        vals = cx.interp.concrete(args[0], 'min or max')
        if not vals:
            if 'default' in kw:
                return kw['default']
            raise PyRaise(ValueError, ('empty',))
    else:
        vals = args
    key = kw.get('key')
    k = (lambda x: cx.interp.call(key, [x])) if key is not None else (lambda x: x)
    best = vals[0]
    bk = k(best)
    for x in vals[1:]:
        xk = k(x)
        if cx.interp.truth(cx.interp.order(op, xk, bk)):
            best, bk = x, xk
    return best


@model(min)
def min_(cx, args, kw):
    return extreme(cx, args, kw, '<')


@model(max)
def max_(cx, args, kw):
    return extreme(cx, args, kw, '>')


@model(sum)
def sum_(cx, args, kw):
    total = args[1] if len(args) > 1 else kw.get('start', 0)

    def ones(chunks):
        return all(type(c.v) in (int, bool) and c.v == 1 if isinstance(c, Q.Elem) else
                   all(ones(p.values) for p in c.paths) if isinstance(c, Q.Seg) else False for c in chunks)
    ch = Q.norm(cx, cx.interp.chunks(args[0]))
    if not Q.simple(ch):
        if type(total) is int and total == 0 and ones(ch):
            from .interp import SLen
            return SLen(ch)     # counting
        raise Unsupported('sum of a sequence of unknown length')
    for x in [c.v for c in ch]:
        total = cx.interp.binop('Add', total, x)
    return total


class _Found(Exception):
    pass


def any_all(cx, v, want):
    found = [False]

    def run(x):
        if cx.interp.truth(x) == want:
            raise Q.ReturnEx('found')
    try:
        Q.loop(cx, cx.interp.chunks(v), run)
    except Q.ReturnEx:
        return want
    return not want


@model(any)
def any_(cx, args, kw):
    return any_all(cx, args[0], True)


@model(all)
def all_(cx, args, kw):
    return any_all(cx, args[0], False)


@model(sorted)
def sorted_(cx, args, kw):
    from .interp import ListRec
    key = kw.get('key')
    rev = cx.interp.truth(kw.get('reverse', False))
    return cx.new(ListRec(sort_chunks(cx, cx.interp.chunks(args[0]), key, rev)))


def sort_chunks(cx, chunks, key, rev):
    it = cx.interp

    def k(x):
        return it.call(key, [x]) if key is not None else x

    def lt(a, b):
        return it.order('<', k(a), k(b))
    c = Q.norm(cx, chunks)
    if Q.simple(c):
        vals = [x.v for x in c]
        if rev:
            vals.reverse()
        out = []
        # insertion, from the right: stable
        for v in vals:
            i = len(out)
            while i > 0 and it.truth(lt(v, out[i-1])):
                i -= 1
            out.insert(i, v)
        if rev:
            out.reverse()
        return tuple(Elem(v) for v in out)
    flat = []
    for x in c:
        flat.extend(x.flat() if isinstance(x, Bag) else [x])
    # comparing must not fail
    check_no_raise(cx, flat, lt)
    return (Bag(flat, SortOrder(lt, rev)),)


def check_no_raise(cx, flat, lt):
    """comparing any two of the values doesn't raise (or is outside our reach)"""
    def try_(a, b):
        try:
            cx.interp.truth(lt(a, b))
        except PyRaise as e:
            raise Unsupported(f'sorting values which may not be comparable ({e.cls.__name__})')
    each_pair(cx, flat, try_)


def each_pair(cx, chunks, fn):
    """fn(a, b) for any two different values of the sequence, in either order"""
    it = cx.interp
    for i, a in enumerate(chunks):
        if isinstance(a, Hole):
            raise Unsupported('Hole')
        for b in chunks[i+1:]:
            if isinstance(a, Elem) and isinstance(b, Elem):
                def one(a=a, b=b):
                    fn(a.v, b.v)
                    fn(b.v, a.v)
                cx.nested(one)
            else:
                Q.each(cx, [a], lambda va: Q.each(cx, [b], lambda vb: (fn(va, vb), fn(vb, va))))
        if isinstance(a, Seg):
            for leaf in Q.pieces_of(cx, a.src):
                if isinstance(leaf, Q.Src):
                    def pair(g1, g2, a=a):
                        for x in Q.seg_elem(cx, a, g1):
                            for y in Q.seg_elem(cx, a, g2):
                                if isinstance(x, Elem) and isinstance(y, Elem):
                                    fn(x.v, y.v)
                                    fn(y.v, x.v)
                                else:
                                    raise Unsupported('nested sequences')
                    Q.open_pair(cx, leaf, pair)


@model(reversed)
def reversed_(cx, args, kw):
    from .interp import ListRec
    v = args[0]
    if isinstance(v, Ref) and isinstance(cx.rec(v), ListRec) and cx.rec(v).kind in ('set', 'iter'):
        raise PyRaise(TypeError, ('not reversible',))
    return cx.new(ListRec(reverse_chunks(cx.interp.chunks(v)), 'iter'))


def reverse_chunks(chunks):
    out = []
    for c in reversed(tuple(chunks)):
        if isinstance(c, Seg):
            out.append(Seg(c.src, [Path(p.conds, p.facts, reverse_chunks(p.values)) for p in c.paths], not c.rev))
        elif isinstance(c, Bag):
            o = c.order
            out.append(Bag(c.chunks, o.flipped() if o is not None else None, None if c.keys is c.chunks else c.keys))
        else:
            out.append(c)
    return tuple(out)


@model(enumerate)
def enumerate_(cx, args, kw):
    from .interp import ListRec
    start = args[1] if len(args) > 1 else kw.get('start', 0)
    out = []
    n = 0
    exact = True
    for c in Q.norm(cx, cx.interp.chunks(args[0])):
        if isinstance(c, Elem):
            if exact:
                out.append(Elem((n+start if isinstance(start, int) else cx.interp.binop('Add', start, n), c.v)))
            else:
                i = cx.int('index')
                cx.fact(i >= n)
                out.append(Elem((cx.interp.binop('Add', start, SInt(i)), c.v)))
            n += 1
        elif isinstance(c, Seg):
            out.append(number_seg(cx, c, n, start))
            exact = False
        elif isinstance(c, Bag):
            inner = []
            for d in c.chunks:
                if isinstance(d, Elem):
                    i = cx.int('index')
                    cx.fact(i >= n)
                    inner.append(Elem((cx.interp.binop('Add', start, SInt(i)), d.v)))
                elif isinstance(d, Seg):
                    inner.append(number_seg(cx, d, n, start))
                else:
                    raise Unsupported('enumerating this')
            out.append(Bag(inner, c.order, c.keys))
            exact = False
        else:
            raise Unsupported('enumerating this')
    return cx.new(ListRec(out, 'iter'))


def number_seg(cx, c, n, start):
    gens = [g for g in cx.generic] + [c.src.e0]
    f = z3.Function(cx.fresh_name('index'), *([Node]*len(gens)), z3.IntSort())
    i = f(*gens)
    cx.keep.append(i)
    paths = []
    for p in c.paths:
        if len(p.values) > 1 or any(not isinstance(v, Elem) for v in p.values):
            raise Unsupported('enumerating this')
        vals = [Elem((cx.interp.binop('Add', start, SInt(i)), v.v)) for v in p.values]
        paths.append(Path(p.conds, p.facts + (i >= n,), vals))
    return Seg(c.src, paths, c.rev)


@model(zip)
def zip_(cx, args, kw):
    vals = []
    n = None
    for a in args:
        c = Q.norm(cx, cx.interp.chunks(a))
        if Q.simple(c):
            k = len(c)
            n = k if n is None else min(n, k)
    if n is None:
        raise Unsupported('zip of sequences of unknown length')
    for a in args:
        c = Q.norm(cx, cx.interp.chunks(a))
        if not Q.simple(c):
            c = Q.force(cx, c, n)
        v = []
        for x in c:
            if not isinstance(x, Elem):
                break
            v.append(x.v)
        vals.append(v)
    from .interp import ListRec
    return cx.new(ListRec([Elem(t) for t in zip(*vals)], 'iter'))


@model(range)
def range_(cx, args, kw):
    from .interp import SLen
    args = [len(Q.norm(cx, a.chunks)) if isinstance(a, SLen) and Q.simple(Q.norm(cx, a.chunks)) else a for a in args]
    if not all(isinstance(a, int) for a in args):
        raise Unsupported('range of unknown length')
    return from_host(cx, lambda: range(*args))


@model(map)
def map_(cx, args, kw):
    from .interp import ListRec
    if len(args) != 2:
        raise Unsupported('map of several sequences')
    ref = cx.new(ListRec((), 'iter'))

    def run(v):
        x = cx.interp.call(args[0], [v])
        rec = cx.rec(ref)
        rec.set_chunks(rec.chunks() + (Elem(x),))
    Q.loop(cx, cx.interp.chunks(args[1]), run)
    return ref


@model(filter)
def filter_(cx, args, kw):
    from .interp import ListRec
    ref = cx.new(ListRec((), 'iter'))

    def run(v):
        x = v if args[0] is None else cx.interp.call(args[0], [v])
        if cx.interp.truth(x):
            rec = cx.rec(ref)
            rec.set_chunks(rec.chunks() + (Elem(v),))
    Q.loop(cx, cx.interp.chunks(args[1]), run)
    return ref


@model(iter)
def iter_(cx, args, kw):
    from .interp import ListRec
    v = args[0]
    if isinstance(v, Ref) and isinstance(cx.rec(v), ListRec) and cx.rec(v).kind == 'iter':
        return v
    return cx.new(ListRec(tuple(cx.interp.chunks(v)), 'iter'))


@model(next)
def next_(cx, args, kw):
    from .interp import ListRec
    v = args[0]
    if not (isinstance(v, Ref) and isinstance(cx.rec(v), ListRec) and cx.rec(v).kind == 'iter'):
        raise PyRaise(TypeError, ('not an iterator',))
    c = Q.force(cx, cx.rec(v).chunks(), 1)
    if not c:
        cx.rec(v).set_chunks(())
        if len(args) > 1:
            return args[1]
        raise PyRaise(StopIteration, ())
    cx.rec(v).set_chunks(c[1:])
    return c[0].v


@model(vars)
def vars_(cx, args, kw):
    raise Unsupported('vars()')


@model(globals)
def globals_(cx, args, kw):
    return cx.interp.frame.globals


@model(chr)
def chr_(cx, args, kw):
    return host_call(chr, cx, args, kw)


@model(bytes)
def bytes_(cx, args, kw):
    args = list(args)
    for name, i in (('source', 0), ('encoding', 1), ('errors', 2)):
        if name in kw and len(args) == i:
            args.append(kw[name])
    if len(args) not in (2, 3) or not S.is_str(args[0]) or not all(isinstance(a, str) for a in args[1:]):
        raise Unsupported('bytes()')
    return encode_(cx, args[0], args[1], args[2] if len(args) > 2 else 'strict')


@model(divmod)
def divmod_(cx, args, kw):
    return (cx.interp.binop('FloorDiv', args[0], args[1]), cx.interp.binop('Mod', args[0], args[1]))


@model(pow)
def pow_(cx, args, kw):
    return cx.interp.binop('Pow', args[0], args[1])


@model(print, warnings.warn)
def nothing(cx, args, kw):
    return None


@model(super)
def super_(cx, args, kw):
    from .interp import Super
    if len(args) == 2:
        return Super(args[0], args[1])
    raise Unsupported('super()')


@model(property)
def property_(cx, args, kw):
    raise Unsupported('making properties')


@model(math.isfinite)
def isfinite(cx, args, kw):
    v = args[0]
    if isinstance(v, (SReal, SInt)):
        return True
    return host_call(math.isfinite, cx, [num(cx, v)], kw)


@model(math.isnan)
def isnan(cx, args, kw):
    v = args[0]
    if isinstance(v, (SReal, SInt)):
        return False
    return host_call(math.isnan, cx, [num(cx, v)], kw)


@model(math.isinf)
def isinf(cx, args, kw):
    v = args[0]
    if isinstance(v, (SReal, SInt)):
        return False
    return host_call(math.isinf, cx, [num(cx, v)], kw)


def num(cx, v):
    if isinstance(v, (int, float)):
        return v
    return cx.interp.to_float(v)


@model(math.floor)
def floor(cx, args, kw):
    v = num(cx, args[0])
    if isinstance(v, SReal):
        return SInt(cx.interp.floor(v.z))
    return host_call(math.floor, cx, [v], kw) if not isinstance(v, SInt) else v


@model(math.ceil)
def ceil(cx, args, kw):
    v = num(cx, args[0])
    if isinstance(v, SReal):
        return SInt(-cx.interp.floor(-v.z))
    return host_call(math.ceil, cx, [v], kw) if not isinstance(v, SInt) else v


@model(math.trunc)
def trunc(cx, args, kw):
    v = num(cx, args[0])
    if isinstance(v, SReal):
        return cx.interp.trunc(v)
    return host_call(math.trunc, cx, [v], kw) if not isinstance(v, SInt) else v


@model(math.fabs)
def fabs(cx, args, kw):
    return cx.interp.to_float(abs_(cx, [num(cx, args[0])], kw))


@model(math.fmod)
def fmod(cx, args, kw):
    a, b = num(cx, args[0]), num(cx, args[1])
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return host_call(math.fmod, cx, [a, b], kw)
    q = cx.interp.trunc(cx.interp.to_float(cx.interp.arith('Div', a, b)))
    return cx.interp.to_float(cx.interp.arith('Sub', a, cx.interp.arith('Mult', b, q)))


@model(math.copysign)
def copysign(cx, args, kw):
    a, b = num(cx, args[0]), num(cx, args[1])
    m = cx.interp.to_float(abs_(cx, [a], {}))
    if cx.interp.truth(cx.interp.order('<', b, 0)):
        return cx.interp.arith('Sub', 0.0, m)
    return m


OPERATORS = {operator.lt: '<', operator.gt: '>', operator.le: '<=', operator.ge: '>='}
for _f, _op in OPERATORS.items():
    MODELS[id(_f)] = ((lambda op: lambda cx, args, kw: cx.interp.order(op, args[0], args[1]))(_op), _f)
MODELS[id(operator.eq)] = (lambda cx, args, kw: cx.interp.eq(args[0], args[1]), operator.eq)
MODELS[id(operator.ne)] = (lambda cx, args, kw: cx.interp.ne(args[0], args[1]), operator.ne)
MODELS[id(operator.not_)] = (lambda cx, args, kw: cx.interp.not_(args[0]), operator.not_)
for _f, _op in {operator.add: 'Add', operator.sub: 'Sub', operator.mul: 'Mult', operator.truediv: 'Div'}.items():
    MODELS[id(_f)] = ((lambda op: lambda cx, args, kw: cx.interp.binop(op, args[0], args[1]))(_op), _f)


@model(operator.attrgetter)
def attrgetter(cx, args, kw):
    names = args

    def get(cx, a, k):
        vals = []
        for n in names:
            v = a[0]
            for part in n.split('.'):
                v = cx.interp.getattr(v, part)
            vals.append(v)
        return vals[0] if len(vals) == 1 else tuple(vals)
    return PyModel('attrgetter', get)


@model(operator.itemgetter)
def itemgetter(cx, args, kw):
    def get(cx, a, k):
        vals = [cx.interp.getitem(a[0], i) for i in args]
        return vals[0] if len(vals) == 1 else tuple(vals)
    return PyModel('itemgetter', get)


@model(functools.partial)
def partial(cx, args, kw):
    fn, a0, k0 = args[0], args[1:], kw
    return PyModel('partial', lambda cx, a, k: cx.interp.call(fn, list(a0) + list(a), {**k0, **k}))


@model(copy.copy)
def copy_(cx, args, kw):
    from .interp import ListRec, DictRec
    v = args[0]
    if isinstance(v, Ref):
        rec = cx.rec(v)
        if isinstance(rec, cx.interp.soup.NodeRec):
            return cx.interp.soup.copy_node(cx, v)
        if isinstance(rec, ListRec):
            return cx.new(ListRec(rec.chunks(), rec.kind))
        if isinstance(rec, DictRec):
            return cx.new(DictRec(rec.chunks()))
        if isinstance(rec, InstRec):
            m = cx.interp.type_attr(v, '__copy__')
            if isinstance(m, types.FunctionType):
                return cx.interp.call(m, [v])
            return cx.new(InstRec(rec.cls, dict(rec.attrs)))
    return v


@model(copy.deepcopy)
def deepcopy_(cx, args, kw):
    v = args[0]
    if isinstance(v, Ref):
        rec = cx.rec(v)
        if isinstance(rec, cx.interp.soup.NodeRec):
            return cx.interp.soup.copy_node(cx, v)
        if isinstance(rec, InstRec):
            m = cx.interp.type_attr(v, '__deepcopy__')
            if isinstance(m, types.FunctionType):
                raise Unsupported('__deepcopy__')
            return cx.new(InstRec(rec.cls, {k: deepcopy_(cx, [x], {}) for k, x in rec.attrs.items()}))
        raise Unsupported('deepcopy')
    if isinstance(v, tuple):
        return tuple(deepcopy_(cx, [x], {}) for x in v)
    return v


@model(functools.reduce)
def reduce_(cx, args, kw):
    vals = cx.interp.concrete(args[1])
    if len(args) > 2:
        acc = args[2]
    else:
        if not vals:
            raise PyRaise(TypeError, ())
        acc = vals.pop(0)
    for x in vals:
        acc = cx.interp.call(args[0], [acc, x])
    return acc


########################################################################
# methods of lists, dicts and so on

def method(name, f):
    return PyModel(name, f)


def rec_getattr(cx, ref, rec, name):
    from .interp import ListRec, DictRec
    h = getattr(rec, 'getattr', None)
    if h:
        return h(cx, ref, name)
    if isinstance(rec, ListRec):
        table = {'list': LIST, 'set': SET, 'iter': ITER, 'keys': SET, 'items': VIEW, 'values': VIEW, 'tuple': TUPLE}[rec.kind]
        f = table.get(name)
        if f:
            return method(f'{rec.kind}.{name}', lambda cx, a, k: f(cx, ref, *a, **k))
        host = {'list': list, 'set': set, 'tuple': tuple}.get(rec.kind)
        if host is not None and hasattr(host, name):
            raise Unsupported(f'{rec.kind}.{name}')
        raise PyRaise(AttributeError, (name,))
    if isinstance(rec, DictRec):
        f = DICT.get(name)
        if f:
            return method(f'dict.{name}', lambda cx, a, k: f(cx, ref, *a, **k))
        if hasattr(dict, name):
            raise Unsupported(f'dict.{name}')
        raise PyRaise(AttributeError, (name,))
    raise Unsupported(f'.{name} of a {type(rec).__name__}')


def l_append(cx, ref, x):
    rec = cx.rec(ref)
    rec.set_chunks(tuple(rec.chunks()) + (Elem(x),))


def l_extend(cx, ref, xs):
    rec = cx.rec(ref)
    c = tuple(cx.interp.chunks(xs))
    rec = cx.rec(ref)
    rec.set_chunks(tuple(rec.chunks()) + c)


def l_insert(cx, ref, i, x):
    rec = cx.rec(ref)
    if not isinstance(i, int):
        raise Unsupported('insert at an unknown index')
    c = list(Q.norm(cx, rec.chunks()))
    if i > 0:
        c = list(Q.force(cx, c, i))
        i = min(i, len([q for q in c if isinstance(q, Elem)])) if Q.simple(c) else i
    elif i < 0:
        if not Q.simple(c[i:]):
            raise Unsupported('insert near the end of an unknown sequence')
        i = max(0, len(c)+i)
    c.insert(i, Elem(x))
    cx.rec(ref).set_chunks(c)


def l_pop(cx, ref, i=-1):
    v = list_getitem(cx, ref, i)
    list_del(cx, ref, i)
    return v


def l_index(cx, ref, x):
    rec = cx.rec(ref)
    pos, v, chunks = cx.interp.find_in(rec.chunks(), x)
    if pos is None:
        raise PyRaise(ValueError, ('not in list',))
    if not all(isinstance(c, Elem) for c in chunks[:pos]):
        raise Unsupported('index in a sequence of unknown length')
    return pos


def l_remove(cx, ref, x):
    rec = cx.rec(ref)
    pos, v, chunks = cx.interp.find_in(rec.chunks(), x)
    if pos is None:
        raise PyRaise(ValueError, ('not in list',))
    replace_at(cx, rec, chunks, pos, None)


def l_sort(cx, ref, key=None, reverse=False):
    rec = cx.rec(ref)
    c = sort_chunks(cx, rec.chunks(), key, cx.interp.truth(reverse))
    cx.rec(ref).set_chunks(c)


def l_reverse(cx, ref):
    cx.rec(ref).set_chunks(reverse_chunks(cx.rec(ref).chunks()))


def l_copy(cx, ref):
    from .interp import ListRec
    rec = cx.rec(ref)
    return cx.new(ListRec(rec.chunks(), rec.kind))


def l_clear(cx, ref):
    cx.rec(ref).set_chunks(())


def l_count(cx, ref, x):
    return sum(cx.interp.truth(cx.interp.eq(y, x)) for y in cx.interp.concrete(ref))


def l_iter(cx, ref):
    return iter_(cx, [ref], {})


def l_len(cx, ref):
    return len_(cx, [ref], {})


def l_contains(cx, ref, x):
    return cx.interp.contains(x, ref)


LIST = {'append': l_append, 'extend': l_extend, 'insert': l_insert, 'pop': l_pop, 'index': l_index, 'remove': l_remove,
        'sort': l_sort, 'reverse': l_reverse, 'copy': l_copy, 'clear': l_clear, 'count': l_count,
        '__iter__': l_iter, '__len__': l_len, '__contains__': l_contains,
        '__getitem__': lambda cx, ref, i: list_getitem(cx, ref, i),
        '__setitem__': lambda cx, ref, i, v: list_setitem(cx, ref, i, v),
        '__delitem__': lambda cx, ref, i: list_del(cx, ref, i),
        '__eq__': lambda cx, ref, o: cx.interp.eq(ref, o)}
TUPLE = {k: LIST[k] for k in ('index', 'count', '__iter__', '__len__', '__contains__', '__getitem__')}
ITER = {'__iter__': l_iter, '__next__': lambda cx, ref: next_(cx, [ref], {})}


def s_add(cx, ref, x):
    rec = cx.rec(ref)
    cx.interp.hashable(x)
    pos, v, chunks = cx.interp.find_in(rec.chunks(), x)
    rec.set_chunks(chunks if pos is not None else tuple(chunks) + (Elem(x),))


def s_discard(cx, ref, x):
    rec = cx.rec(ref)
    pos, v, chunks = cx.interp.find_in(rec.chunks(), x)
    rec.set_chunks(chunks)
    if pos is not None:
        replace_at(cx, rec, chunks, pos, None)


def s_update(cx, ref, *others):
    for o in others:
        for x in cx.interp.concrete(o):
            s_add(cx, ref, x)


def s_union(cx, ref, *others):
    r = l_copy(cx, ref)
    s_update(cx, r, *others)
    return r


def s_issubset(cx, ref, other):
    return all(cx.interp.truth(cx.interp.contains(x, other)) for x in cx.interp.concrete(ref))


SET = {'add': s_add, 'discard': s_discard, 'update': s_update, 'union': s_union, 'copy': l_copy, 'issubset': s_issubset,
       '__iter__': l_iter, '__len__': l_len, '__contains__': l_contains,
       'difference': lambda cx, ref, o: set_difference(cx, ref, o)}
VIEW = {'__iter__': l_iter, '__len__': l_len, '__contains__': l_contains}


def d_keys(cx, ref):
    from .interp import ListRec
    return cx.new(ListRec(cx.interp.map_chunks(cx.rec(ref).chunks(), lambda kv: kv[0]), 'keys'))


def d_values(cx, ref):
    from .interp import ListRec
    return cx.new(ListRec(cx.interp.map_chunks(cx.rec(ref).chunks(), lambda kv: kv[1]), 'values'))


def d_items(cx, ref):
    from .interp import ListRec
    return cx.new(ListRec(cx.rec(ref).chunks(), 'items'))


def d_get(cx, ref, k, default=None):
    rec = cx.rec(ref)
    pos, kv, chunks = cx.interp.find_in(rec.chunks(), k, key=True)
    rec.set_chunks(chunks)
    return default if pos is None else kv[1]


def d_pop(cx, ref, k, *default):
    rec = cx.rec(ref)
    pos, kv, chunks = cx.interp.find_in(rec.chunks(), k, key=True)
    rec.set_chunks(chunks)
    if pos is None:
        if default:
            return default[0]
        raise PyRaise(KeyError, (k,))
    replace_at(cx, rec, chunks, pos, None)
    return kv[1]


def d_setdefault(cx, ref, k, v=None):
    rec = cx.rec(ref)
    pos, kv, chunks = cx.interp.find_in(rec.chunks(), k, key=True)
    rec.set_chunks(chunks)
    if pos is not None:
        return kv[1]
    rec.set_chunks(tuple(chunks) + (Elem((k, v)),))
    return v


def d_update(cx, ref, *others, **kw):
    for o in others:
        if isinstance(o, Ref) and isinstance(cx.rec(o), InstRec) or not isinstance(o, (Ref, dict)):
            o = dict_(cx, [o], {})
        elif isinstance(o, Ref) and type(cx.rec(o)).__name__ == 'ListRec':
            o = dict_(cx, [o], {})
        dict_update(cx, ref, o)
    for k, v in kw.items():
        dict_put(cx, ref, k, v)


def d_copy(cx, ref):
    from .interp import DictRec
    return cx.new(DictRec(cx.rec(ref).chunks()))


DICT = {'keys': d_keys, 'values': d_values, 'items': d_items, 'get': d_get, 'pop': d_pop, 'setdefault': d_setdefault,
        'update': d_update, 'copy': d_copy, 'clear': l_clear, '__iter__': l_iter, '__len__': l_len,
        '__contains__': l_contains, '__getitem__': lambda cx, ref, k: cx.interp.getitem(ref, k),
        '__setitem__': lambda cx, ref, k, v: dict_put(cx, ref, k, v),
        '__delitem__': lambda cx, ref, k: (dict_del(cx, ref, k), None)[1],
        '__or__': dict_or}


def list_getitem(cx, ref, i):
    from .interp import ListRec, Slice, SLen
    rec = cx.rec(ref)
    if isinstance(i, SLen):
        raise Unsupported('unknown index')
    if isinstance(i, bool):
        i = int(i)
    if isinstance(i, int):
        if i >= 0:
            c = Q.force(cx, rec.chunks(), i+1)
            cx.rec(ref).set_chunks(c)
            if len(c) <= i or not isinstance(c[i], Elem):
                raise PyRaise(IndexError, ())
            return c[i].v
        c = Q.norm(cx, rec.chunks())
        if len(c) >= -i and Q.simple(c[i:]):
            return c[i].v
        if Q.simple(c):
            raise PyRaise(IndexError, ())
        c = reverse_chunks(Q.force(cx, reverse_chunks(c), -i))
        cx.rec(ref).set_chunks(c)
        if len(c) < -i:
            raise PyRaise(IndexError, ())
        return c[i].v
    if isinstance(i, Slice):
        c = Q.norm(cx, rec.chunks())
        if all(x is None for x in (i.lo, i.hi)) and i.step == -1:
            return cx.new(ListRec(reverse_chunks(c), rec.kind))
        if i.step not in (None, 1):
            if Q.simple(c):
                return cx.new(ListRec(c[i.lo:i.hi:i.step], rec.kind))
            raise Unsupported('slice with a step')
        for x in (i.lo, i.hi):
            if x is not None and not isinstance(x, int):
                raise Unsupported('slice with unknown bounds')
        if Q.simple(c):
            return cx.new(ListRec(c[i.lo:i.hi], rec.kind))
        lo = i.lo or 0
        if lo >= 0 and (i.hi is None or i.hi >= 0):
            n = lo if i.hi is None else max(lo, i.hi)
            c = Q.force(cx, c, n)
            cx.rec(ref).set_chunks(c)
            return cx.new(ListRec(c[lo:i.hi], rec.kind))
        raise Unsupported('slice from the end of an unknown sequence')
    if isinstance(i, SInt):
        c = Q.norm(cx, rec.chunks())
        if Q.simple(c):
            for k in range(len(c)):
                if cx.branch(z3.Or(i.z == k, i.z == k-len(c))):
                    return c[k].v
            raise PyRaise(IndexError, ())
        return nth(cx, c, i)
    raise PyRaise(TypeError, ('list indices must be integers',))


def nth(cx, chunks, i):
    """
    Some element of a sequence of unknown length, or IndexError. Which of
    them isn't worked out; goals look at the record of it.
    """
    for c in chunks:
        if not isinstance(c, Elem) and not (isinstance(c, Q.Seg) and all(
                len(p.values) <= 1 and all(isinstance(d, Elem) for d in p.values) for p in c.paths)):
            raise Unsupported('unknown index')
    k = cx.choose(len(chunks)+1, 'where is that index?')
    if k == len(chunks):
        cx.memo.setdefault('nth', []).append((chunks, i, None))
        raise PyRaise(IndexError, ())
    c = chunks[k]
    if isinstance(c, Elem):
        v = c.v
    else:
        some = [p.cond() for p in c.paths if p.values]
        if not some:
            raise Infeasible()
        A, x, B = Q.split(cx, c.src, 'nth')
        cx.assume(Q.sub(z3.Or(*some), c.src.e0, x))
        v = Q.norm(cx, Q.seg_elem(cx, c, x))
        if not v:
            raise Infeasible()
        v = v[0].v
    cx.memo.setdefault('nth', []).append((chunks, i, v))
    return v


def list_setitem(cx, ref, i, v):
    rec = cx.rec(ref)
    if not isinstance(i, int):
        raise Unsupported('assignment to an unknown index')
    c = list(Q.norm(cx, rec.chunks()))
    if i >= 0:
        c = list(Q.force(cx, c, i+1))
    if not (-len(c) <= i < len(c)) or not isinstance(c[i], Elem):
        raise PyRaise(IndexError, ())
    c[i] = Elem(v)
    cx.rec(ref).set_chunks(c)


def list_del(cx, ref, i):
    rec = cx.rec(ref)
    if not isinstance(i, int):
        raise Unsupported('deleting an unknown index')
    c = list(Q.norm(cx, rec.chunks()))
    if i >= 0:
        c = list(Q.force(cx, c, i+1))
    if not (-len(c) <= i < len(c)) or not isinstance(c[i], Elem):
        raise PyRaise(IndexError, ())
    del c[i]
    cx.rec(ref).set_chunks(c)


########################################################################
# methods of texts, numbers, and concrete objects

def st(f):
    return f


STR = {
    'strip': lambda cx, v, chars=None: S.strip(cx, v, chars),
    'lstrip': lambda cx, v, chars=None: S.strip(cx, v, chars, right=False),
    'rstrip': lambda cx, v, chars=None: S.strip(cx, v, chars, left=False),
    'lower': lambda cx, v: S.case(cx, v, 'lower'),
    'upper': lambda cx, v: S.case(cx, v, 'upper'),
    'casefold': lambda cx, v: S.case(cx, v, 'casefold'),
    'startswith': lambda cx, v, p: zb(S.startswith(cx, v, p)),
    'endswith': lambda cx, v, p: zb(S.endswith(cx, v, p)),
    'replace': lambda cx, v, a, b, n=-1: S.replace(cx, v, a, b, n),
    'split': lambda cx, v, sep=None, maxsplit=-1: cx.interp.new_list(S.split(cx, v, sep, maxsplit)),
    'join': lambda cx, v, items: S.join(cx, v, cx.interp.concrete(items, 'joining a sequence')),
    '__contains__': lambda cx, v, x: cx.interp.contains(x, v),
    '__len__': lambda cx, v: S.zlength(cx, v),
    '__eq__': lambda cx, v, o: cx.interp.eq(v, o) if S.is_str(o) else NotImplemented,
    '__str__': lambda cx, v: v,
    'encode': lambda cx, v, encoding='utf-8', errors='strict': encode_(cx, v, encoding, errors),
    'removeprefix': lambda cx, v, p: without(cx, v, p, True),
    'removesuffix': lambda cx, v, p: without(cx, v, p, False),
    'partition': lambda cx, v, sep: partition_(cx, v, sep),
}


def without(cx, v, p, left):
    if not isinstance(p, str) or not p:
        raise Unsupported('removing an unknown prefix')
    r = (S.startswith if left else S.endswith)(cx, v, p)
    if not (r if isinstance(r, bool) else cx.branch(r)):
        return v
    return S.slice_(cx, v, len(p), None, None) if left else S.slice_(cx, v, None, -len(p), None)


def partition_(cx, v, sep):
    parts = S.split(cx, v, sep, 1)
    if len(parts) == 1:
        return (v, '', '')
    return (parts[0], sep, parts[1])


def str_format(cx, v, a, k):
    import string
    out = []
    n = 0
    for lit, field, spec, conv in string.Formatter().parse(v):
        out.append(lit)
        if field is None:
            continue
        if conv not in (None, 's', 'r') or '{' in (spec or '') or not re.fullmatch(r'\w*', field):
            raise Unsupported('str.format with fields of fields')
        if field == '':
            field = str(n)
            n += 1
        if field.isdigit():
            if int(field) >= len(a):
                raise PyRaise(IndexError, ('Replacement index out of range',))
            x = a[int(field)]
        elif field in k:
            x = k[field]
        else:
            raise PyRaise(KeyError, (field,))
        if conv == 'r':
            x = repr_(cx, [x], {})
        elif conv == 's':
            x = cx.interp.to_str(x)
        out.extend(S.parts_of(S.format_mini(cx, x, spec or '')))
    return mkstr(out)


@model(format)
def format_(cx, args, kw):
    spec = args[1] if len(args) > 1 else ''
    if not isinstance(spec, str):
        raise Unsupported('symbolic format')
    return S.format_mini(cx, args[0], spec)


def encode_(cx, v, encoding, errors):
    from . import files
    return files.encode(cx, v, encoding, errors)


def zb(r):
    return r if isinstance(r, bool) else mkbool(r)


def value_getattr(cx, obj, name):
    if S.is_str(obj):
        if isinstance(obj, str) and hasattr(str, name) and name not in ('join',):
            def go(cx, a, k):
                if is_host(a) and is_host(list(k.values())):
                    return from_host(cx, lambda: getattr(obj, name)(*a, **k))
                if name == 'format':
                    return str_format(cx, obj, a, k)
                if name in STR:
                    return STR[name](cx, obj, *a, **k)
                raise Unsupported(f'str.{name} with unknown arguments')
            return method(f'str.{name}', go)
        if name in STR:
            return method(f'str.{name}', lambda cx, a, k: STR[name](cx, obj, *a, **k))
        if hasattr(str, name):
            if name == '__class__':
                return str
            raise Unsupported(f'str.{name}')
        raise PyRaise(AttributeError, (name,))
    if isinstance(obj, (SInt, SReal, SBool)):
        t = int if isinstance(obj, SInt) else float if isinstance(obj, SReal) else bool
        if name == '__class__':
            return t
        if name == 'is_integer' and isinstance(obj, SReal):
            return method('float.is_integer', lambda cx, a, k: mkbool(z3.IsInt(obj.z)))
        if name in ('__float__', '__int__', '__round__', '__abs__', '__hash__', '__eq__', '__lt__', '__str__', '__repr__'):
            f = {'__float__': float_, '__int__': int_, '__abs__': abs_, '__hash__': hash_, '__str__': str_, '__repr__': repr_,
                 '__round__': round_}.get(name)
            if f:
                return method(f'number.{name}', lambda cx, a, k: f(cx, [obj] + list(a), k))
        if hasattr(t, name):
            raise Unsupported(f'{t.__name__}.{name}')
        raise PyRaise(AttributeError, (name,))
    if isinstance(obj, (FnVal, Bound, PyModel)):
        if name == '__call__':
            return obj
        if name in ('__name__', '__qualname__'):
            return getattr(obj, '__name__', 'function')
        raise PyRaise(AttributeError, (name,))
    if isinstance(obj, tuple):
        if name == '__class__':
            return tuple
        if name == 'index':
            def idx(cx, a, k):
                for i, x in enumerate(obj):
                    if cx.interp.truth(cx.interp.eq(x, a[0])):
                        return i
                raise PyRaise(ValueError, ())
            return method('tuple.index', idx)
        if name == '__len__':
            return method('tuple.__len__', lambda cx, a, k: len(obj))
        if hasattr(tuple, name):
            raise Unsupported(f'tuple.{name}')
        raise PyRaise(AttributeError, (name,))
    if isinstance(obj, re.Pattern):
        f = PATTERN.get(name)
        if f:
            return method(f're.{name}', lambda cx, a, k: f(cx, obj, *a, **k))
    if obj is None:
        if name == '__class__':
            return type(None)
        raise PyRaise(AttributeError, (name,))
    if isinstance(obj, type(functools.partial)):
        pass
    from .interp import SLen, Opaque
    if isinstance(obj, SLen):
        raise Unsupported('attribute of a length')
    if isinstance(obj, (dict, types.MappingProxyType)):
        if name in ('get', '__getitem__', '__contains__'):
            def get(cx, a, k):
                if name == '__contains__':
                    return cx.interp.contains(a[0], obj)
                try:
                    return cx.interp.getitem(obj, a[0])
                except PyRaise as e:
                    if e.cls is KeyError and name == 'get':
                        return a[1] if len(a) > 1 else None
                    raise
            return method(f'dict.{name}', get)
        if name in ('keys', 'values', 'items'):
            return method(f'dict.{name}', lambda cx, a, k: getattr(obj, name)())
        if name == 'copy':
            return method('dict.copy', lambda cx, a, k: dict_(cx, [dict(obj)], {}))
    if isinstance(obj, Opaque):
        raise Unsupported(f'.{name} of {obj!r}')
    if isinstance(obj, Sym):
        raise Unsupported(f'.{name} of {obj!r}')
    # a concrete object
    try:
        a = getattr(obj, name)
    except AttributeError:
        raise PyRaise(AttributeError, (name,))
    if isinstance(a, (types.BuiltinMethodType, types.MethodWrapperType)):
        return method(f'{type(obj).__name__}.{name}', functools.partial(host_call, a))
    return a


########################################################################
# regular expressions

def p_split(cx, pat, s, maxsplit=0):
    if not S.is_str(s):
        raise PyRaise(TypeError, ('expected string',))
    if maxsplit:
        raise Unsupported('maxsplit')
    h = cx.memo.get('regex.split')
    if h is not None:
        r = h(cx, pat, s)
        if r is not None:
            return r
    return cx.interp.new_list(S.regex_split(cx, pat, s))


def p_other(name):
    def f(cx, pat, s, *a, **k):
        if isinstance(s, str):
            return from_host(cx, lambda: getattr(pat, name)(s, *a, **k))
        if name in ('findall', 'finditer', 'match', 'fullmatch', 'search') and not a and not k:
            return regex_matches(cx, pat, s, name)
        raise Unsupported(f're {name} of an unknown text')
    return f


class MatchRec(Rec):
    def __init__(self, groups, names):
        self.groups_ = groups
        self.names = names

    def blank(self):
        return MatchRec(self.groups_, self.names)

    def fields(self):
        return {}

    def subst(self, f):
        return MatchRec([f(g) for g in self.groups_], self.names)

    def getitem(self, cx, i):
        return self.one(i)

    def one(self, i):
        if isinstance(i, str):
            if i not in self.names:
                raise PyRaise(IndexError, ('no such group',))
            i = self.names[i]
        if not isinstance(i, int) or not 0 <= i < len(self.groups_):
            raise PyRaise(IndexError, ('no such group',))
        return self.groups_[i]

    def getattr(self, cx, ref, name):
        if name == 'group':
            def group(cx, a, k):
                if len(a) <= 1:
                    return self.one(a[0] if a else 0)
                return tuple(self.one(i) for i in a)
            return method('match.group', group)
        if name == 'groups':
            return method('match.groups', lambda cx, a, k: tuple(
                (g if g is not None else (a[0] if a else None)) for g in self.groups_[1:]))
        if name == 'groupdict':
            return method('match.groupdict', lambda cx, a, k: dict_(cx, [{n: self.groups_[i] for n, i in self.names.items()}], {}))
        raise Unsupported(f'match.{name}')


def regex_matches(cx, pat, s, name):
    ms = S.regex_find(cx, pat, s, name)
    if name in ('match', 'fullmatch', 'search'):
        if not ms:
            return None
        return cx.new(MatchRec(ms[0], pat.groupindex))
    if name == 'finditer':
        from .interp import ListRec
        return cx.new(ListRec([Elem(cx.new(MatchRec(m, pat.groupindex))) for m in ms], 'iter'))
    out = []
    for m in ms:
        m = [g if g is not None else '' for g in m]
        out.append(m[0] if len(m) == 1 else m[1] if len(m) == 2 else tuple(m[1:]))
    return cx.interp.new_list(out)


PATTERN = {'split': p_split, 'findall': p_other('findall'), 'finditer': p_other('finditer'), 'match': p_other('match'),
           'fullmatch': p_other('fullmatch'), 'search': p_other('search'), 'sub': lambda cx, pat, r, s, *a: p_sub(cx, pat, r, s, *a)}


def p_sub(cx, pat, r, s, *a):
    if isinstance(s, str) and isinstance(r, str):
        return from_host(cx, lambda: pat.sub(r, s, *a))
    if S.is_str(s) and not a:
        return S.sub(cx, pat, r, s)
    raise Unsupported('re.sub of an unknown text')


def _re_fn(name):
    def f(cx, args, kw):
        pat = args[0]
        if isinstance(pat, str):
            pat = re.compile(pat, *(args[2:] if len(args) > 2 and name != 'sub' else ()))
        if name == 'sub':
            return p_sub(cx, pat, args[1], args[2])
        return PATTERN[name](cx, pat, args[1])
    return f


for _n in ('split', 'findall', 'finditer', 'match', 'fullmatch', 'search', 'sub'):
    MODELS[id(getattr(re, _n))] = (_re_fn(_n), getattr(re, _n))
MODELS[id(re.compile)] = (lambda cx, args, kw: from_host(cx, lambda: re.compile(*args, **kw)), re.compile)


########################################################################
# with

def enter(cx, m):
    if isinstance(m, Ref):
        rec = cx.rec(m)
        if isinstance(rec, InstRec):
            return cx.interp.call(cx.interp.type_attr_bound(m, '__enter__'))
        h = getattr(rec, 'enter', None)
        if h:
            return h(cx, m)
    if isinstance(m, Opaque_()) and hasattr(m, 'enter'):
        return m.enter(cx)
    raise Unsupported(f'with {m!r}')


def exit_(cx, m, exc):
    if isinstance(m, Ref):
        rec = cx.rec(m)
        if isinstance(rec, InstRec):
            return cx.interp.call(cx.interp.type_attr_bound(m, '__exit__'),
                                  [exc.cls, ExcVal(exc.cls, exc.args_), None] if exc is not None else [None, None, None])
        h = getattr(rec, 'exit', None)
        if h:
            return h(cx, m, exc)
    if isinstance(m, Opaque_()) and hasattr(m, 'exit'):
        return m.exit(cx, exc)
    raise Unsupported(f'with {m!r}')
