from . import c12, c14
from .c12 import AGroup, is_layer, list_of, group_classes, layer_of
from .ly import *
from sangfroid.animation import Animation

GOALS, goal = goals()
UNDER_CONTRACT = ['sangfroid.layer.layer.Layer.find_all', 'sangfroid.layer.layer.Layer.find', 'sangfroid.layer.layer.Layer.__call__',
                  'sangfroid.layer.layer.Layer._find_all_root', 'sangfroid.layer.group.Group._find_all_root',
                  'sangfroid.util.normalise_synfig_layer_type_name']
ASSUMPTIONS = ['every layer in the document has a registered type, and its version, if given, is a number',
               'Layer.from_tag gives a layer of the class for its type, made of that very tag (proved in C14)',
               'fields of layers read what the document has (proved in C10 and C16)'] + c14.ASSUMPTIONS
NAMES = c14.known(Layer.handles_type, c14.LAYERS)
CLASSES = {n: Layer.handles_type.handlers.get(n) for n in NAMES}


def norm_term(e):
    """the normal form of the type of a node"""
    t = B.ATTR('type')(e)
    return S.ufn('replace', ('_', ''))(S.ufn('lower')(t)), S.ufn('lower')(S.ufn('replace', ('_', ''))(t))


def setup(cx):
    """what's known of every node, and what Layer.from_tag does"""
    x = S.opaque(cx, 'warm')
    c14.norm(cx, x)
    lits = [cx.lit(n) for n in NAMES]

    def every(e):
        a, b = norm_term(e)
        v = B.ATTR('version')(e)
        return z3.Implies(z3.And(B.ISTAG(e), B.NAME(e) == cx.lit('layer')),
                          z3.And(B.HAS('type')(e), a == b, z3.Or(*[a == l for l in lits]),
                                 z3.Implies(B.HAS('version')(e), S.FVALID(v) == 1)))
    cx.memo['every_node'] = every

    def from_tag(cx, args, kw):
        tag = args[1] if len(args) > 1 else kw['tag']
        if not all(isinstance(c, type) for c in CLASSES.values()):
            raise Unsupported('a type without a class')
        t = B.attr_value(cx, tag, 'type')
        a = S.term(cx, c14.norm(cx, t))
        by = {}
        for n, c in CLASSES.items():
            by.setdefault(c, []).append(a == cx.lit(n))
        made = sl.Circle()
        needs(Layer, made, ['_tag'])
        cx.fact(z3.Or(*[z3.Or(*z) for z in by.values()]))
        return cx.new(InstRec(AnyOf(Layer, list(by), [z3.Or(*z) for z in by.values()]), {'_tag': tag}))
    cx.interp.contracts['sangfroid.layer.layer.Layer.from_tag'] = from_tag


def sh(cx, tag):
    s = cx.rec(tag).sh
    if s is None:
        raise Unsupported('a new tag')
    return s


########################################################################
# criteria: (positional arguments, keyword arguments, formula about a layer's tag)

def by_name(cx, base='wanted'):
    s = S.opaque(cx, base)
    n = S.term(cx, c14.norm(cx, s))
    return s, lambda tag: S.term(cx, c14.norm(cx, B.attr_value(cx, tag, 'type'))) == n


def by_class(cx, some=False):
    """any class of layer"""
    cs = [c for c in all_classes(animation=True)]
    if some:
        cs = [c for c in cs if c in (Layer, Animation, sl.Group, sl.Circle) or c.__subclasses__()]
    # classes which the same registered ones are subclasses of, are alike here
    seen = {}
    for c in cs:
        seen.setdefault(tuple(sorted(n for n, k in CLASSES.items() if issubclass(k, c))), c)
    keys = list(seen)
    k = keys[cx.choose(len(keys), 'class')]
    return seen[k], lambda tag: z3.Or(*[S.term(cx, c14.norm(cx, B.attr_value(cx, tag, 'type'))) == cx.lit(n) for n in k])


def bases_match():
    """the classes are subclasses of what's documented"""
    for n, e in c14.TABLE['layers'].items():
        if [c.__name__ for c in CLASSES[n].__mro__ if issubclass(c, Layer)] != e.get('bases', [e['class'], 'Layer']):
            return n
    return None


def a_bool(cx):
    return SBool(cx.bool('flag')) if False else bool(cx.choose(2, 'True or False?'))


def predicate(cx):
    P = z3.Function('predicate', Node, z3.BoolSort())
    truthy = cx.choose(2, 'is the answer a boolean?')

    def f(cx, args, kw):
        (x,) = args
        if isinstance(cx.rec(x), InstRec):
            x = attr(cx, x, 'tag')
        cx.prove(is_layer(cx, x), 'searching by a predicate: it is asked only of layers')
        p = P(sh(cx, x))
        return SInt(z3.If(p, z3.IntVal(2), z3.IntVal(0))) if truthy else mkbool(p)
    return PyModel('any predicate', f), lambda tag: P(sh(cx, tag))


def field(cx, name):
    """
    Any field at all: some layers have it and some don't, and it may be equal
    to what is wanted or not.
    """
    HASF = z3.Function(f'has the field {name}', Node, z3.BoolSort())
    EQ = z3.Function(f'its {name} is equal', Node, z3.BoolSort())
    want = Opaque(object, f'the wanted {name}')

    def get(cx, args, kw):
        tag = attr(cx, args[0], 'tag')
        e = sh(cx, tag)
        if not cx.branch(HASF(e)):
            raise PyRaise(AttributeError, (name,))
        o = Opaque(object, name)
        o.eq = lambda cx, a, b: mkbool(EQ(e))
        return o
    cx.overlay[(id(Layer), name)] = property(PyModel(f'the field {name}', get))
    return want, lambda tag: z3.And(HASF(sh(cx, tag)), EQ(sh(cx, tag)))


def flag_field(cx, name, default):
    want = bool(cx.choose(2, f'{name}: true or false?'))

    def p(tag):
        h = zbool(B.attr_has(cx, tag, name))
        v = S.case(cx, B.attr_value(cx, tag, name), 'lower')
        is_true = zbool(cx.interp.eq(v, 'true'))
        return z3.If(h, is_true, z3.BoolVal(default)) == want
    return want, p


def desc_field(cx):
    if cx.choose(2, 'a description or none?'):
        s = S.opaque(cx, 'desc')
        return s, lambda tag: z3.And(zbool(B.attr_has(cx, tag, 'desc')), S.term(cx, B.attr_value(cx, tag, 'desc')) == S.term(cx, s))
    return None, lambda tag: z3.Not(zbool(B.attr_has(cx, tag, 'desc')))


def version_field(cx):
    x = real(cx, 'version')

    def p(tag):
        t = S.term(cx, c14.norm(cx, B.attr_value(cx, tag, 'type')))
        d = z3.RealVal(-1)
        for n, e in c14.TABLE['layers'].items():
            ver = e['attrs'].get('version') if e['constructible'] else CLASSES[n].SYNFIG_VERSION
            d = z3.If(t == cx.lit(n), rv(float(ver)), d)
        return z3.If(zbool(B.attr_has(cx, tag, 'version')), S.FNUM(S.term(cx, B.attr_value(cx, tag, 'version'))), d) == x.z
    return x, p


def criteria(cx, mode, some=False):
    """args, kwargs, list of formulas"""
    if mode == 'nothing':
        return [], {}, []
    if mode == 'bool':
        b = a_bool(cx)
        return [b], {}, [lambda tag: z3.BoolVal(b)]
    if mode in ('name', 'class'):
        x, p = by_name(cx) if mode == 'name' else by_class(cx, some)
        k = cx.choose(3, 'how is the type given?') if mode == 'name' or x in (Layer, sl.Group, sl.Circle) else 0
        return [[x], [], []][k], [{}, {'type': x}, {'attrs': {'type': x}}][k], [p]
    if mode == 'predicate':
        x, p = predicate(cx)
        return [x], {}, [p]
    if mode == 'predicate and field':
        x, p = predicate(cx)
        y, q = field(cx, 'wombat')
        return [x], {'wombat': y}, [p, q]
    if mode == 'bool and field':
        b = a_bool(cx)
        y, q = field(cx, 'wombat')
        return [b], {'attrs': {'wombat': y}}, [lambda tag: z3.BoolVal(b), q]
    if mode == 'fields':
        x, p = field(cx, 'wombat')
        y, q = field(cx, 'prune')
        k = cx.choose(3, 'how are they given?')
        return [], [{'wombat': x, 'prune': y}, {'wombat': x, 'attrs': {'prune': y}}, {'attrs': {'wombat': x, 'prune': y}}][k], [p, q]
    if mode == 'name and field':
        x, p = by_name(cx)
        y, q = field(cx, 'wombat')
        k = cx.choose(3, 'how is the type given?') if mode == 'name' or x in (Layer, sl.Group, sl.Circle) else 0
        return [[x], [], [x]][k], [{'wombat': y}, {'type': x, 'wombat': y}, {'attrs': {'wombat': y}}][k], [p, q]
    if mode == 'class and field':
        cs = [sl.Group, sl.Circle]
        c = cs[cx.choose(2, 'class')]
        names = [n for n, k in CLASSES.items() if issubclass(k, c)]
        y, q = field(cx, 'wombat')
        return [c], {'wombat': y}, [lambda tag: z3.Or(*[S.term(cx, c14.norm(cx, B.attr_value(cx, tag, 'type'))) == cx.lit(n) for n in names]), q]
    if mode in ('desc', 'active', 'exclude_from_rendering', 'version'):
        x, p = {'desc': lambda: desc_field(cx), 'version': lambda: version_field(cx), 'active': lambda: flag_field(cx, 'active', True),
                'exclude_from_rendering': lambda: flag_field(cx, mode, False)}[mode]()
        if cx.choose(2, 'how is it given?'):
            return [], {'attrs': {mode: x}}, [p]
        return [], {mode: x}, [p]
    raise ValueError(mode)


MODES = ['nothing', 'bool', 'name', 'class', 'predicate', 'predicate and field', 'bool and field', 'fields', 'name and field',
         'class and field', 'desc', 'active', 'exclude_from_rendering', 'version']


def a_dict(cx, d):
    """as the caller would give it"""
    return cx.new(DictRec(tuple(Elem((k, v)) for k, v in d.items())))


def pool(cx, gr, recursive):
    return B.descendants(cx, gr.tag) if recursive else B.children(cx, gr.canvas)


def wanted(cx, tag, ps):
    """branches"""
    return is_layer(cx, tag) and all(cx.branch(p(tag)) for p in ps)


def layer_at(cx, v, node):
    if not (isinstance(v, Ref) and isinstance(cx.rec(v), InstRec)):
        return False
    c = cx.rec(v).cls
    if not issubclass(c.base if isinstance(c, AnyOf) else c, Layer):
        return False
    return B.same_ref(cx, cx.rec(v).attrs['_tag'], node)


def filtered(cx, nodes, got, ps, name):
    """obligation: got is the layers among the nodes which match, in that order"""
    got = list(Q.norm(cx, got))

    def drop():
        while got and isinstance(got[0], Seg) and not any(p.values for p in got[0].paths):
            got.pop(0)
    for c in Q.norm(cx, nodes):
        if isinstance(c, Elem):
            if wanted(cx, c.v, ps):
                drop()
                ok = bool(got) and isinstance(got[0], Elem) and layer_at(cx, got[0].v, c.v)
                cx.prove(ok, name)
                if ok:
                    got.pop(0)
            continue
        if not isinstance(c, Seg):
            raise Unsupported('what is in the group')
        mine = None
        for k, d in enumerate(got):
            if isinstance(d, Seg) and d.src is c.src:
                cx.prove(d.rev == c.rev and all(isinstance(x, Seg) and not any(p.values for p in x.paths) for x in got[:k]), name)
                mine = got.pop(k)
                break

        def one(e):
            ns = Q.seg_elem(cx, c, e)
            vs = Q.seg_elem(cx, mine, e) if mine is not None else []
            filtered(cx, ns, vs, ps, name)
        Q.open_elem(cx, c.src, one)
    drop()
    cx.prove(not got or all(isinstance(c, Seg) and not any(p.values for p in c.paths) for c in got), f'{name} (nothing else)', repr(got))


def none_match(cx, nodes, ps, name):
    for c in Q.norm(cx, nodes):
        if isinstance(c, Elem):
            cx.prove(not wanted(cx, c.v, ps), name)
        elif isinstance(c, Seg):
            Q.open_elem(cx, c.src, lambda e, c=c: none_match(cx, Q.seg_elem(cx, c, e), ps, name))
        else:
            raise Unsupported('what is in the group')


def arguments(cx, kw, recursive, few=True):
    kw = dict(kw)
    d = None
    if 'attrs' in kw:
        d = kw['attrs'] = a_dict(cx, kw['attrs'])
    if not recursive or few and cx.choose(2, 'is recursive given?'):
        kw['recursive'] = recursive
    return kw, d


def unchanged(cx, p, d, before, what):
    p.all_same(what)
    if d is not None:
        cx.prove(same_seq(cx, cx.rec(d).chunks(), before), f'{what}: the criteria stay as they were')


def find_all(cls, mode, recursive):
    def g(cx):
        setup(cx)
        gr = AGroup(cx, cls)
        setup(cx)
        args, kw, ps = criteria(cx, mode, recursive and not issubclass(cls, Animation))
        kw, d = arguments(cx, kw, recursive, mode in ('name', 'nothing', 'bool'))
        before = cx.rec(d).chunks() if d is not None else None
        p = Picture(cx, gr.refs)
        what = f'searching by {mode}'
        how, r = run(cx, lambda: call(cx, attr(cx, gr.layer, 'find_all'), *args, **kw))
        cx.prove(how == 'ok', f'{what}: can be done', r)
        if how != 'ok':
            return
        cx.prove(isinstance(r, Ref) and isinstance(cx.rec(r), ListRec), f'{what}: gives a list', r)
        filtered(cx, pool(cx, gr, recursive), cx.rec(r).chunks(), ps, f'{what}: exactly the matching layers, once each, in document order')
        unchanged(cx, p, d, before, what)
        cx.cover('searched')
    return g


def find(cls, mode, recursive, method):
    def g(cx):
        setup(cx)
        gr = AGroup(cx, cls)
        setup(cx)
        args, kw, ps = criteria(cx, mode, recursive and not issubclass(cls, Animation))
        kw, d = arguments(cx, kw, recursive, mode in ('name', 'nothing', 'bool'))
        before = cx.rec(d).chunks() if d is not None else None
        p = Picture(cx, gr.refs)
        what = f'finding one by {mode}'
        how, r = run(cx, lambda: call(cx, attr(cx, gr.layer, method) if method else gr.layer, *args, **kw))
        cx.prove(how == 'ok', f'{what}: can be done', r)
        if how != 'ok':
            return
        name = f'{what}: the first match, if there is any'
        nodes = Q.norm(cx, pool(cx, gr, recursive))
        if r is None:
            none_match(cx, nodes, ps, name)
            cx.cover('none')
        else:
            ok = first(cx, nodes, r, ps, name)
            cx.prove(ok, name)
            cx.cover('found')
        unchanged(cx, p, d, before, what)
    return g


def first(cx, nodes, r, ps, name):
    """obligation: r is the first of the nodes which matches; whether it's among them"""
    for c in Q.norm(cx, nodes):
        if isinstance(c, Elem):
            if layer_at(cx, r, c.v):
                cx.prove(wanted(cx, c.v, ps), name)
                return True
        none_match(cx, [c], ps, name)
    return False


for cls in group_classes():
    for mode in MODES:
        for recursive in (True, False):
            tail = f'in a {cls.__name__}' + ('' if recursive else ', among its children only')
            for title, f in (('all', find_all(cls, mode, recursive)), ('one', find(cls, mode, recursive, 'find'))):
                if title == 'one' and recursive and mode not in ('nothing', 'bool'):
                    # (by the contract of find_all; see below)
                    continue
                if mode == 'version' and recursive and not issubclass(cls, Animation):
                    # (too many cases)
                    continue
                f.__name__ = '_'.join([title, mode.replace(' ', '_'), cls.__name__, 'deep' if recursive else 'flat'])
                goal(f'finding {title} by {mode} {tail}', budget=200)(f)


def one_of_all(cls, method):
    """find(), by the contract of find_all()"""
    def g(cx):
        cx.interp.contracts['sangfroid.layer.layer.Layer.from_tag'] = c12.from_tag_contract
        gr = AGroup(cx, cls)
        asked = []
        seg = B.some_nodes(cx, 'matching')
        e = seg.src.e0
        Q.forall(cx, seg.src, e, z3.And(B.ISTAG(e), B.NAME(e) == cx.lit('layer')))
        tags = cx.new(ListRec((seg,)))
        found = cx.new(ListRec(()))

        def each(t):
            r = cx.rec(found)
            r.set_chunks(r.chunks() + (Elem(call(cx, Layer, t)),))
        Q.loop(cx, (seg,), each)

        def contract(cx, args, kw):
            asked.append((args, kw))
            return found
        cx.interp.contracts['sangfroid.layer.layer.Layer.find_all'] = contract
        p = Picture(cx, gr.refs)
        positional = [Opaque(object, f'arg{i}') for i in range(cx.choose(4, 'how many positional arguments'))]
        named = {k: Opaque(object, k) for k in [(), ('recursive',), ('wombat', 'attrs'), ('type', 'recursive', 'prune')][cx.choose(4, 'named ones')]}
        how, r = run(cx, lambda: call(cx, attr(cx, gr.layer, method) if method else gr.layer, *positional, **named))
        if len(asked) != 1:
            raise Unsupported('finding one without finding all')
        a, k = asked[0]
        what = 'finding one'
        cx.prove(how == 'ok', f'{what}: can be done', r)
        cx.prove(a[0] == gr.layer and len(a) == len(positional)+1 and all(x is y for x, y in zip(a[1:], positional)) and
                 set(k) - {'recursive'} == set(named) - {'recursive'} and
                 all(k[x] is named[x] for x in named) and (k.get('recursive', True) is True or 'recursive' in named),
                 f'{what}: all are searched for with the same criteria', (a, k))
        if r is None:
            cx.prove(not any(isinstance(c, Elem) for c in Q.norm(cx, (seg,))), f'{what}: None only if nothing matches')
            Q.open_elem(cx, seg.src, lambda e: cx.prove(False, f'{what}: None only if nothing matches'))
            cx.cover('none')
        else:
            cs = Q.norm(cx, (seg,))
            ok = False
            for c in cs:
                if isinstance(c, Elem):
                    ok = layer_at(cx, r, c.v)
                    break
                Q.each(cx, [c], lambda v: cx.prove(False, f'{what}: the first match'))
            cx.prove(ok, f'{what}: the first match', cs)
            cx.cover('found')
        p.all_same(what)
    g.__name__ = f'first_{cls.__name__}_{method or "called"}'
    return g


for cls in group_classes():
    for m in ('find', None):
        goal(f'{"finding one in" if m else "calling"} a {cls.__name__} gives the first of all that match, or None')(one_of_all(cls, m))


@goal('which types of layer count as which classes')
def hierarchy(cx):
    n = bases_match()
    cx.prove(n is None, 'each type of layer is of its class and that of all layers', n)


BAD = [((True, True), {}), (('s', 's'), {}), (('s', sl.Group), {}), ((sl.Text, 's', False), {}), (('s',), {'type': 's'}),
       ((sl.Text,), {'type': 's'}), ((sl.Text,), {'type': sl.Circle}), ((), {'desc': 's', 'attrs': {'desc': 's'}}),
       (('s',), {'attrs': {'type': 's'}}), ((sl.Text,), {'attrs': {'desc': 's', 'type': 's'}}),
       ((), {'type': 's', 'attrs': {'type': 's'}}), ((), {'active': True, 'attrs': {'desc': 's', 'active': True}})]


@goal('more than one positional criterion, or a field given twice, raises ValueError')
def refused(cx):
    setup(cx)
    cs = group_classes()
    gr = AGroup(cx, cs[cx.choose(len(cs), 'class')])
    setup(cx)
    p = Picture(cx, gr.refs)
    args, kw = BAD[cx.choose(len(BAD), 'arguments')]
    some = lambda x: S.opaque(cx, 's') if x == 's' else x
    kw = {k: a_dict(cx, {a: some(b) for a, b in x.items()}) if k == 'attrs' else some(x) for k, x in kw.items()}
    if cx.choose(2, 'is recursive given?'):
        kw['recursive'] = bool(cx.choose(2, 'recursive?'))
    m = ('find_all', 'find')[cx.choose(2, 'method')]
    how, r = run(cx, lambda: call(cx, attr(cx, gr.layer, m), *[some(x) for x in args], **kw))
    cx.prove(how == 'raise' and r is ValueError, 'criteria given twice raise ValueError', r)
    p.all_same('refusing criteria')
    cx.cover('refused')
