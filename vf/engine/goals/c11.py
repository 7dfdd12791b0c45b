from .ly import *
from .c08 import str_contract, MILLIONTH
from sangfroid.field import ParamTagField

GOALS, goal = goals()
L = 'sangfroid.layer.layer.'
UNDER_CONTRACT = [L+x for x in ('Layer._find_param', 'Layer.__getitem__', 'Layer.__setitem__', 'Layer.__contains__', 'Layer._as_dict', 'Layer.keys',
                                'Layer.items', 'Layer.values', '_name_and_value_of')] + \
                 ['sangfroid.layer.group.Group.__getitem__', 'sangfroid.field.ParamTagField._get_value', 'sangfroid.field.ParamTagField.__get__',
                  'sangfroid.field.ParamTagField.__set__', 'sangfroid.value.value.Value.from_tag', 'sangfroid.registry.Registry.from_name']
METHODS = ('__getitem__', '__setitem__', '__contains__', '_find_param', '_as_dict', 'items', 'keys', 'values', '__init__',
           '__getattr__', '__getattribute__', '__setattr__')
CLASSES = alike(METHODS)
KINDS = list(kinds())


def is_value(cx, v, cls, tag, what):
    ok = isinstance(v, Ref) and isinstance(cx.rec(v), InstRec) and is_kind(cx, v, cls)
    cx.prove(ok, f'{what}: the class of the value', v)
    if ok:
        cx.prove(attr(cx, v, 'tag') == tag, f"{what}: it is the layer's own")


def read_goal(cls, kind):
    def g(cx):
        name = cx.str('name')
        v = any_value_tag(cx, kind)
        a = ALayer(cx, cls, name, v)
        p = Picture(cx, a.refs)
        what = 'reading a parameter'
        how, r = run(cx, lambda: cx.interp.getitem(a.layer, S.from_term(name)))
        cx.prove(how == 'ok', f'{what}: it can be read', r)
        if how == 'ok':
            is_value(cx, r, kinds()[kind], v, what)
        how, r = run(cx, lambda: truth(cx, cx.interp.contains(S.from_term(name), a.layer)))
        cx.prove(how == 'ok' and r is True, 'testing for a parameter: it is there', r)
        p.all_same(what)
        cx.cover('read')
    return g


def an_argument(cx, kind):
    """something a value of that type can be set to"""
    r = lambda n: SReal(cx.real(n))
    if kind == 'integer':
        return SInt(cx.int('n'))
    if kind in ('real', 'angle'):
        return r('x')
    if kind == 'bool':
        return SBool(z3.Const('b', z3.BoolSort()))
    if kind == 'string':
        return S.from_term(cx.str('text'))
    if kind == 'vector':
        return (r('x'), r('y'))
    if kind == 'time':
        return cx.new(InstRec(T, {'_frames': r('frames'), '_fps': None}))
    if kind == 'color':
        return (r('r'), r('g'), r('b'))
    if kind == 'gradient':
        return cx.new(DictRec((Elem((0, (r('r'), r('g'), r('b')))), Elem((1, (r('r2'), r('g2'), r('b2')))))))
    raise Unsupported(kind)


def check_set(cx, a, p, want, what, frames=None):
    """the parameter holds something like want, and nothing else changes"""
    p.all_same(what, but=[a.param])
    ch = Q.norm(cx, B.children(cx, a.param))
    tags = []
    for c in ch:
        if isinstance(c, Elem):
            if B.tag_p(cx, c.v):
                tags.append(c.v)
        else:
            Q.each(cx, [c], lambda v: cx.prove(not B.tag_p(cx, v), f'{what}: one value'))
    cx.prove(len(tags) == 1, f'{what}: one value', len(tags))
    if len(tags) == 1:
        if frames is not None:
            # as a text which means the same
            cx.prove(eqv(cx, B.name_of(cx, tags[0]), 'time'), f'{what}: the value')
            how, t = run(cx, lambda: attr(cx, attr(cx, call(cx, sv.Time, tags[0]), 'value'), 'frames'))
            cx.prove(how == 'ok' and is_num(t), f'{what}: the value', t)
            if how == 'ok' and is_num(t):
                cx.prove(z3.And(zreal(t) - frames <= MILLIONTH, frames - zreal(t) <= MILLIONTH), f'{what}: the value')
        else:
            cx.prove(same_contents(cx, tags[0], want), f'{what}: the value')
        cx.prove(cx.rec(tags[0]).parent == a.param, f'{what}: one value')
        return tags[0]


def set_plain(cls, kind):
    def g(cx):
        cx.interp.contracts['sangfroid.t.T.__str__'] = str_contract
        cx.interp.contracts['sangfroid.t.T._parse_time_spec'] = parse_contract
        name = cx.str('name')
        a = ALayer(cx, cls, name, any_value_tag(cx, kind))
        p = Picture(cx, [a.tag, a.param])
        v = an_argument(cx, kind)
        what = 'setting a parameter'
        how, r = run(cx, lambda: cx.interp.setitem(a.layer, S.from_term(name), v))
        cx.prove(how == 'ok', f'{what}: accepted', r)
        if how != 'ok':
            return
        other = attr(cx, call(cx, kinds()[kind], v), 'tag')
        t = check_set(cx, a, p, other, what, fields(cx, v)['_frames'].z if kind == 'time' else None)
        if t is not None:
            how, r = run(cx, lambda: cx.interp.getitem(a.layer, S.from_term(name)))
            cx.prove(how == 'ok', f'{what}: it can be read', r)
            if how == 'ok':
                is_value(cx, r, kinds()[kind], t, what)
        cx.cover('set')
    return g


def set_value(cls, kind):
    """to a value which is by itself, or in another layer"""
    def g(cx):
        name = cx.str('name')
        a = ALayer(cx, cls, name, any_value_tag(cx, kind))
        given = any_value_tag(cx, kind, 'given')
        refs = []
        k = cx.choose(3, "is it another layer's?")
        if k == 2:
            # part of another layer's value: of a transformation, or a timeline
            holder = B.node(cx, 'tag', base='holder', chunks=(B.some_nodes(cx, 'holder_before'), Elem(given), B.some_nodes(cx, 'holder_after')))
            whole = B.node(cx, 'tag', base='whole', chunks=(B.some_nodes(cx, 'whole_before'), Elem(holder), B.some_nodes(cx, 'whole_after')))
            b = ALayer(cx, sl.Layer, cx.str('other'), whole, 'other', doc=False)
            refs = b.refs + [holder, given]
            what = "setting a parameter to part of another layer's value"
        elif k == 1:
            b = ALayer(cx, sl.Layer, cx.str('other'), given, 'other', doc=False)
            refs = b.refs
            what = "setting a parameter to another layer's value"
        else:
            what = 'setting a parameter to a value'
        p = Picture(cx, [a.tag, a.param] + refs)
        before = B.copy_node(cx, given)
        v = call(cx, Value.from_tag, given)
        how, r = run(cx, lambda: cx.interp.setitem(a.layer, S.from_term(name), v))
        cx.prove(how == 'ok', f'{what}: accepted', r)
        if how != 'ok':
            return
        t = check_set(cx, a, p, before, what)
        if t is not None and refs:
            cx.prove(t != given and cx.rec(t).ident is None, f'{what}: a copy')
        cx.cover('set')
    return g


def refuse(cls, kind):
    def g(cx):
        name = cx.str('name')
        v = any_value_tag(cx, kind)
        a = ALayer(cx, cls, name, v)
        others = [k for k in KINDS if not issubclass(kinds()[k], kinds()[kind])]
        k = others[cx.choose(len(others), 'another type')]
        given = value_tag(cx, k, 'given')
        refs = [given]
        if cx.choose(2, "is it another layer's?"):
            refs = ALayer(cx, sl.Layer, cx.str('other'), given, 'other', doc=False).refs
        p = Picture(cx, a.refs + refs)
        what = 'setting a parameter to a value of another type'
        how, r = run(cx, lambda: cx.interp.setitem(a.layer, S.from_term(name), call(cx, Value.from_tag, given)))
        cx.prove(how == 'raise' and issubclass(r, TypeError), f'{what}: refused with TypeError', f'{k} {r}')
        p.all_same(what)
        cx.cover('refused')
    return g


for cls in CLASSES:
    for kind in KINDS:
        for words, title, f in (('read', 'reading or testing for {} parameter of a {} finds its own', read_goal),
                                ('set', "setting {} parameter of a {} changes its own and nothing else", set_plain),
                                ('set_value', 'setting {} parameter of a {} to a value copies it there, and leaves where it came from alone', set_value),
                                ('refuse', 'setting {} parameter of a {} to a value of another type is refused, and nothing changes', refuse)):
            g = f(cls, kind)
            g.__name__ = f'{words}_{kind}_of_{cls.__name__}'
            goal(title.format('a ' + kind, cls.__name__))(g)


########################################################################
# absent ones

def nowhere(cx, cls, name, base='layer'):
    """a layer, with anything in it except for a parameter of that name, at any depth"""
    seg = B.some_nodes(cx, base + '_all')
    no_param(cx, seg, name)
    kid = seg.paths[0].values[0].v
    d = B.desc_seg(cx, kid, cx.rec(kid))
    no_param(cx, d, name)
    tag = B.node(cx, 'tag', 'layer', base=base, chunks=(seg,), parent=B.Above('above'))
    return tag, call(cx, cls, tag)


def absent(cls):
    def g(cx):
        name = cx.str('name')
        tag, layer = nowhere(cx, cls, name)
        p = Picture(cx, [tag])
        n = S.from_term(name)
        what = 'an absent parameter'
        how, r = run(cx, lambda: cx.interp.getitem(layer, n))
        cx.prove(how == 'raise' and r is KeyError, f'{what}: reading it raises KeyError', r)
        kind = KINDS[cx.choose(len(KINDS), 'type of value')]
        how, r = run(cx, lambda: cx.interp.setitem(layer, n, an_argument(cx, kind)))
        cx.prove(how == 'raise' and r is KeyError, f'{what}: setting it raises KeyError', r)
        how, r = run(cx, lambda: truth(cx, cx.interp.contains(n, layer)))
        cx.prove(how == 'ok' and r is False, f'{what}: it is not there', r)
        p.all_same(what)
        cx.cover('absent')
    return g


for cls in CLASSES:
    g = absent(cls)
    g.__name__ = f'absent_of_{cls.__name__}'
    goal(f'a parameter which a {cls.__name__} has not got is not there, and reading or setting it raises KeyError')(g)


########################################################################
# attributes

def param_fields():
    """(class, attribute, field) for one class with each way of having it"""
    out = {}
    for c in all_classes():
        for k in dir(c):
            f = find_in(c, k)
            if isinstance(f, ParamTagField):
                out.setdefault((id(f), tuple(id(find_in(c, m)) for m in METHODS)), (c, k, f))
    return list(out.values())


def stored_kind(f):
    """the type of value which is in the XML"""
    t = f.type_
    if not hasattr(t, 'get_name_for_tag'):
        return None
    n = t.get_name_for_tag()
    return n if n in kinds() and issubclass(t, kinds()[n]) or t in kinds().values() else None


FIELDS = param_fields()


def attribute_goals(kind, which):
    def read(cx):
        cls, n, f = which[cx.choose(len(which), 'which field')]
        v = any_value_tag(cx, kind)
        a = ALayer(cx, cls, f.name, v)
        p = Picture(cx, a.refs)
        what = 'reading a parameter as an attribute'
        how, r = run(cx, lambda: attr(cx, a.layer, n))
        cx.prove(how == 'ok', f'{what}: it can be read', f'{cls.__name__}.{n} {r}')
        if how == 'ok':
            is_value(cx, r, kinds()[kind], v, what)
        p.all_same(what)
        cx.cover('read')

    def write(cx):
        cx.interp.contracts['sangfroid.t.T.__str__'] = str_contract
        cx.interp.contracts['sangfroid.t.T._parse_time_spec'] = parse_contract
        cls, n, f = which[cx.choose(len(which), 'which field')]
        v = any_value_tag(cx, kind)
        twin = B.copy_node(cx, v)
        a = ALayer(cx, cls, f.name, v)
        cx.rec(twin).parent = cx.rec(a.tag).parent
        p = Picture(cx, [a.tag, a.param])
        x = an_argument(cx, kind)
        what = 'setting a parameter as an attribute'
        how, r = run(cx, lambda: cx.interp.setattr(a.layer, n, x))
        cx.prove(how == 'ok', f'{what}: accepted', f'{cls.__name__}.{n} {r}')
        if how != 'ok':
            return
        value = call(cx, kinds()[kind], twin)
        cx.interp.setattr(value, 'value', x)
        t = check_set(cx, a, p, attr(cx, value, 'tag'), what, fields(cx, x)['_frames'].z if kind == 'time' else None)
        if t is not None:
            how, r = run(cx, lambda: attr(cx, a.layer, n))
            cx.prove(how == 'ok', f'{what}: it can be read', r)
            if how == 'ok':
                is_value(cx, r, kinds()[kind], t, what)
        cx.cover('set')

    def missing(cx):
        cls, n, f = which[cx.choose(len(which), 'which field')]
        tag, layer = nowhere(cx, cls, cx.lit(f.name))
        p = Picture(cx, [tag])
        what = 'an absent parameter as an attribute'
        how, r = run(cx, lambda: attr(cx, layer, n))
        cx.prove(how == 'raise' and r is AttributeError, f'{what}: reading it raises AttributeError', r)
        how, r = run(cx, lambda: cx.interp.setattr(layer, n, an_argument(cx, kind)))
        cx.prove(how == 'raise' and r is AttributeError, f'{what}: setting it raises AttributeError', r)
        p.all_same(what)
        cx.cover('absent')
    return read, write, missing


for kind in KINDS:
    fs = [x for x in FIELDS if stored_kind(x[2]) == kind]
    if not fs:
        continue
    for part in range(0, len(fs), 20):
        some = fs[part:part+20]
        for w, g in zip(('read', 'set', 'absent'), attribute_goals(kind, some)):
            g.__name__ = f'attribute_{w}_{kind}_{part}'
            goal({'read': f'reading an attribute which is a parameter ({kind}) reads the layer\'s own',
                  'set': f'setting an attribute which is a parameter ({kind}) sets the layer\'s own and changes nothing else',
                  'absent': f'reading or setting an attribute whose parameter ({kind}) is absent raises AttributeError'}[w], cost=3, budget=200)(g)


########################################################################
# listing them

class Params:
    """a layer with any number of parameters, of any types, with different names, and anything else but parameters"""
    def __init__(self, cx, cls):
        self.cx = cx
        src = Q.Src(cx, 'params')
        self.src = src
        e = src.e0
        cx.memo.setdefault('generics', {})[e.get_id()] = e
        cx.generic = [e]
        val = B.node(cx, 'tag', base='pval')
        self.val_fn = cx.rec(val).sh.decl()
        kids = (texts(cx, 'inner'), Elem(val), texts(cx, 'inner'))
        w = cx.new(B.NodeRec('tag', e, e, name='param', chunks=kids))
        cx.rec(w).register(cx, w)
        for c in kids:
            B.adopt(cx, w, c)
        self.param = w
        cx.generic = []
        self.names = [k for k in KINDS if k != 'vector'] + ['canvas']
        Q.forall(cx, src, e, z3.And(B.HAS('name')(e), z3.Or(*[B.NAME(self.val_fn(e)) == cx.lit(k) for k in self.names])))
        v1, v2 = z3.Const('p1', Node), z3.Const('p2', Node)
        Q.forall_pairs(cx, src, v1, v2, B.ATTR('name')(v1) != B.ATTR('name')(v2))
        self.seg = Q.full_seg(cx, src, w)
        others = [B.some_nodes(cx, 'others') for i in range(2)]
        for o in others:
            x = o.src.e0
            Q.forall(cx, o.src, x, z3.Not(z3.And(B.ISTAG(x), B.NAME(x) == cx.lit('param'))))
        self.tag = B.node(cx, 'tag', 'layer', base='layer', chunks=(others[0], self.seg, others[1]), parent=B.Above('above'))
        self.layer = call(cx, cls, self.tag)


def listing(cls, which):
    def g(cx):
        ps = Params(cx, cls)
        p = Picture(cx, [ps.tag])
        what = "listing a layer's parameters"
        how, r = run(cx, lambda: call(cx, list, call(cx, attr(cx, ps.layer, which))))
        cx.prove(how == 'ok', f'{what}: they can be listed', r)
        if how != 'ok':
            return
        chunks = Q.norm(cx, cx.rec(r).chunks())
        segs = [c for c in chunks if isinstance(c, Seg)]

        def check(e, vs):
            cx.prove(len(vs) == 1, f'{what}: each of its own, once')
            if len(vs) != 1:
                return
            v = vs[0]
            if which == 'items':
                ok = isinstance(v, tuple) and len(v) == 2
                cx.prove(ok, f'{what}: pairs')
                if not ok:
                    return
                name, val = v
            else:
                name, val = (v, None) if which == 'keys' else (None, v)
            if name is not None:
                cx.prove(eqv(cx, name, S.from_term(B.ATTR('name')(e))), f'{what}: their names')
            if val is not None:
                t = attr(cx, val, 'tag')
                cx.prove(cx.rec(t).sh is not None and cx.rec(t).sh.eq(ps.val_fn(e)) and cx.rec(t).ident is not None, f'{what}: their values')
        claimed = []
        for leaf in Q.pieces_of(cx, ps.src):
            if isinstance(leaf, Q.Src):
                mine = [c for c in segs if c.src is leaf]
                claimed += mine
                Q.open_elem(cx, leaf, lambda e: check(e, [x.v for c in mine for x in Q.seg_elem(cx, c, e)]))
        rest = [c for c in chunks if not any(c is m for m in claimed) and (not isinstance(c, Seg) or any(q.values for q in c.paths))]
        for c in rest:
            cx.prove(False if isinstance(c, Elem) else Q.empty(cx, [c]), f'{what}: nothing else', repr(c))
        p.all_same(what)
        cx.cover('listed')
    return g


for cls in CLASSES:
    for which in ('keys', 'values', 'items'):
        g = listing(cls, which)
        g.__name__ = f'{which}_of_{cls.__name__}'
        goal(f"the {which}() of a {cls.__name__} are exactly its own parameters'")(g)
