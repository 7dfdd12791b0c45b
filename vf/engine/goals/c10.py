from .tl import *
from .c08 import TENTH
import itertools

GOALS, goal = goals()
V = 'sangfroid.value.'
UNDER_CONTRACT = [V+x for x in ('vector.Vector.value', 'vector.Vector.__getattr__', 'vector.Vector.__getitem__', 'vector.Vector.get', 'vector.Vector.keys',
                                'vector.Vector.values', 'vector.Vector.items', 'vector.Vector.__len__', 'vector.Vector.as_tuple', 'vector.Vector.__iter__',
                                'transformation.Composite.value', 'transformation.Composite.get', 'transformation.Composite.__getitem__',
                                'transformation.Composite.__getattr__', 'transformation.Composite.keys', 'transformation.Composite.__len__')] + \
                 ['sangfroid.field.ShortcutField.__get__', 'sangfroid.field.ShortcutField.__set__', 'sangfroid.field.ParamTagField.__get__',
                  'sangfroid.field.ParamTagField.__set__', 'sangfroid.field.ParamTagField._get_value']
WHERE = ('in_document', 'in_a_tag', 'alone')


def a_number(cx, name, how):
    if how == 'whole':
        n = cx.int(name)
        return SInt(n), z3.ToReal(n), True
    x = cx.real(name)
    return SReal(x), x, False


def close(got, want, exact):
    if not is_num(got):
        return z3.BoolVal(False)
    g = zreal(got)
    return g == want if exact else z3.And(g - want <= TENTH, want - g <= TENTH)


def vector_tag(cx, tag, want, what):
    """the XML of a vector: want is [(term, exact)] for x and y"""
    cx.prove(eqv(cx, B.name_of(cx, tag), 'vector'), f'{what}: under the tag of its type')
    rec = cx.rec(tag)
    cx.prove(rec.known and not [k for k, v in rec.attrs.items() if v is not B.ABSENT], f'{what}: no attributes')
    found = {}
    for c in Q.norm(cx, B.children(cx, tag)):
        if not isinstance(c, Elem):
            cx.prove(False, f'{what}: exactly its components')
            return
        if cx.rec(c.v).kind == 'text':
            continue
        n = B.name_of(cx, c.v)
        cx.prove(isinstance(n, str) and n in 'xy' and n not in found, f'{what}: exactly its components')
        how, f = attempt(cx, float, B.string_of(cx, c.v))
        cx.prove(how == 'ok', f'{what}: each component is a number')
        if how != 'ok':
            return
        found[n] = f
    cx.prove(list(found) == ['x', 'y'], f'{what}: exactly its components')
    if set(found) == {'x', 'y'}:
        for n, (w, exact) in zip('xy', want):
            cx.prove(close(found[n], w, exact), f'{what}: keeps its components')


VIEWS = {
    'x and y': lambda cx, v: (attr(cx, v, 'x'), attr(cx, v, 'y')),
    'as_tuple()': lambda cx, v: call(cx, attr(cx, v, 'as_tuple')),
    'by name': lambda cx, v: (cx.interp.getitem(v, 'x'), cx.interp.getitem(v, 'y')),
    'by index': lambda cx, v: (cx.interp.getitem(v, 0), cx.interp.getitem(v, 1)),
    'iteration': lambda cx, v: tuple(cx.interp.concrete(v)),
    'values()': lambda cx, v: tuple(cx.interp.concrete(call(cx, attr(cx, v, 'values')))),
    'items()': lambda cx, v: tuple(x[1] for x in cx.interp.concrete(call(cx, attr(cx, v, 'items')))),
}


def reading_vector(cx, value, want, what):
    for name, f in VIEWS.items():
        how, got = run(cx, lambda: f(cx, value))
        ok = how == 'ok' and isinstance(got, tuple) and len(got) == 2
        cx.prove(ok, f'{what}: can be read: {name}', got)
        if ok:
            for g, (w, exact) in zip(got, want):
                cx.prove(close(g, w, exact), f'{what}: reads back its components: {name}')
    n = call(cx, len, value)
    cx.prove(n == 2, f'{what}: has two components')
    ks = cx.interp.concrete(call(cx, attr(cx, value, 'keys')))
    cx.prove(list(ks) == ['x', 'y'], f'{what}: its keys')
    for name in ('z', 'wombat'):
        how, r = run(cx, lambda: cx.interp.getitem(value, name))
        cx.prove(how == 'raise' and r is KeyError, f'{what}: no other components')
        how, r = run(cx, lambda: attr(cx, value, name))
        cx.prove(how == 'raise' and r is AttributeError, f'{what}: no other components')


def pair(cx, kinds_):
    nums = [a_number(cx, n, k) for n, k in zip('xy', kinds_)]
    return [n[0] for n in nums], [(n[1], n[2]) for n in nums]


def set_vector(cx, form, animated, where):
    line = Line(cx, 'vector', where == 'in_document', where != 'alone', animated=animated)
    kinds_ = [('real', 'real'), ('whole', 'whole'), ('real', 'whole')][cx.choose(3, 'numbers')]
    vs, want = pair(cx, kinds_)
    if form == 'tuple':
        v = tuple(vs)
    elif form == 'map':
        v = cx.new(DictRec((Elem(('x', vs[0])), Elem(('y', vs[1])))))
    else:
        v = call(cx, sv.X_Y, *vs)
        want = [(w, False) for w, _ in want]
    what = f'a vector set to a {form}'
    how, r = run(cx, lambda: cx.interp.setattr(line.value, 'value', v))
    cx.prove(how == 'ok', f'{what}: accepted', r)
    if how != 'ok':
        return
    cx.prove(truth(cx, attr(cx, line.value, 'is_animated')) is False, f'{what}: not animated')
    vector_tag(cx, attr(cx, line.value, 'tag'), want, what)
    reading_vector(cx, line.value, want, what)
    surroundings(line, what)
    cx.cover('set')


for form in ('tuple', 'map', 'vector'):
    for animated in (False, True):
        for where in WHERE:
            def g(cx, form=form, animated=animated, where=where):
                set_vector(cx, form, animated, where)
            g.__name__ = f'set_{form}_{"animated" if animated else "static"}_{where}'
            goal(f'a vector ({"animated" if animated else "not animated"}, {where.replace("_", " ")}) set to any {form} of two numbers reads back as those')(g)


def set_map(cx, names, animated):
    """a vector set to a map of some other components (three at most, or none)"""
    line = Line(cx, 'vector', True, True, animated=animated)
    nums = [a_number(cx, n, ('real', 'whole')[cx.choose(2, 'number')]) for n in names]
    v = cx.new(DictRec(tuple(Elem((n, x[0])) for n, x in zip(names, nums))))
    what = 'a vector set to a map of other components'
    how, r = run(cx, lambda: cx.interp.setattr(line.value, 'value', v))
    cx.prove(how == 'ok', f'{what}: accepted', r)
    if how != 'ok':
        return
    cx.prove(truth(cx, attr(cx, line.value, 'is_animated')) is False, f'{what}: not animated')
    how, ks = run(cx, lambda: cx.interp.concrete(call(cx, attr(cx, line.value, 'keys'))))
    cx.prove(how == 'ok' and list(ks) == sorted(names), f'{what}: exactly its components', repr(ks))
    how, n = run(cx, lambda: call(cx, len, line.value))
    cx.prove(how == 'ok' and n == len(names), f'{what}: exactly its components', repr(n))
    for n, (_, w, exact) in zip(names, nums):
        how, x = run(cx, lambda: cx.interp.getitem(line.value, n))
        cx.prove(how == 'ok' and close(x, w, exact), f'{what}: reads back its components', repr(x))
        how, x = run(cx, lambda: attr(cx, line.value, n))
        cx.prove(how == 'ok' and close(x, w, exact), f'{what}: reads back its components', repr(x))
    # and by position: in the order of their names
    inorder = sorted(zip(names, nums), key=lambda x: x[0])
    how, t = run(cx, lambda: call(cx, attr(cx, line.value, 'as_tuple')))
    cx.prove(how == 'ok' and isinstance(t, tuple) and len(t) == len(names), f'{what}: as_tuple()', repr(t))
    if how == 'ok' and isinstance(t, tuple):
        for x, (_, (_, w, exact)) in zip(t, inorder):
            cx.prove(close(x, w, exact), f'{what}: as_tuple()')
    for i, (_, (_, w, exact)) in enumerate(inorder):
        how, x = run(cx, lambda: cx.interp.getitem(line.value, i))
        cx.prove(how == 'ok' and close(x, w, exact), f'{what}: by index', repr(x))
    for n in {'x', 'y', 'z'} - set(names):
        how, x = run(cx, lambda: cx.interp.getitem(line.value, n))
        cx.prove(how == 'raise' and x is KeyError, f'{what}: no other components', repr(x))
    surroundings(line, what)
    cx.cover('set')


for names in ((), ('x',), ('y',), ('y', 'x'), ('x', 'y', 'z'), ('z', 'wombat')):
    for animated in (False, True):
        def g(cx, names=names, animated=animated):
            set_map(cx, names, animated)
        g.__name__ = f'set_map_{"_".join(names) or "empty"}_{"animated" if animated else "static"}'
        goal(f'a vector ({"animated" if animated else "not animated"}) set to a map of {" and ".join(names) or "nothing"} has exactly those components')(g)


@goal('a vector made of two numbers, or of a map, reads back as those')
def make_vector(cx):
    kinds_ = [('real', 'real'), ('whole', 'whole'), ('real', 'whole')][cx.choose(3, 'numbers')]
    vs, want = pair(cx, kinds_)
    cls = (sv.X_Y, sv.Vector)[cx.choose(2, 'class')]
    k = cx.choose(3, 'how')
    if k == 0:
        how, r = attempt(cx, cls, *vs)
    elif k == 1:
        how, r = attempt(cx, cls, tuple(vs))
    else:
        how, r = attempt(cx, cls, cx.new(DictRec((Elem(('x', vs[0])), Elem(('y', vs[1]))))))
    what = 'making a vector'
    cx.prove(how == 'ok', f'{what}: accepted', r)
    if how != 'ok':
        return
    vector_tag(cx, attr(cx, r, 'tag'), want, what)
    reading_vector(cx, r, want, what)
    # and from its tag
    how, r2 = attempt(cx, Value.from_tag, attr(cx, r, 'tag'))
    cx.prove(how == 'ok' and is_kind(cx, r2, sv.X_Y), f'{what}: read from its tag')
    if how == 'ok':
        reading_vector(cx, r2, want, what)
    cx.cover('made')


def refuse_vector(cx, where):
    line = Line(cx, 'vector', where == 'in_document', where != 'alone', animated=bool(cx.choose(2, 'animated?')))
    r = lambda n: SReal(cx.real(n))
    v = [lambda: (r('a'),), lambda: (r('a'), r('b'), r('c')), lambda: SInt(cx.int('n')), lambda: S.opaque(cx), lambda: (r('a'), None),
         lambda: (S.opaque(cx), r('b')), lambda: (r('a'), S.opaque(cx))][cx.choose(7, 'what')]()
    what = 'a vector of something else'
    how, e = run(cx, lambda: cx.interp.setattr(line.value, 'value', v))
    cx.prove(how == 'raise', f'{what}: refused')
    if how == 'raise':
        cx.prove(issubclass(e, TypeError), f'{what}: with TypeError', e.__name__)
    unchanged(line, what)
    cx.cover('refused')


for where in WHERE:
    def g(cx, where=where):
        refuse_vector(cx, where)
    g.__name__ = f'refuse_{where}'
    goal(f'a vector ({where.replace("_", " ")}) set to something else is refused and stays as it was')(g)


########################################################################
# transformations

PARTS = ('offset', 'angle', 'skew_angle', 'scale')
ORDERS = list(itertools.permutations(PARTS))


class Trans:
    """
    A transformation: four parts, in any order, each holding one tag which
    may be anything (animated, for example), with any texts in between.
    """
    def __init__(self, cx, param=True, made={}):
        self.cx = cx
        self.order = ORDERS[cx.choose(len(ORDERS), 'order')]
        self.parts, self.values = {}, {}
        kids = [texts(cx)]
        for n in self.order:
            v = made[n] if n in made else B.node(cx, 'tag', base='value_' + n)
            t = B.node(cx, 'tag', n, base='part_' + n, chunks=(texts(cx), Elem(v), texts(cx)))
            self.values[n], self.parts[n] = v, t
            kids += [Elem(t), texts(cx)]
        self.tag = B.node(cx, 'tag', 'composite', {'type': 'transformation'}, True, base='composite', chunks=tuple(kids))
        self.before, self.after = B.some_nodes(cx, 'before', kind='text'), B.some_nodes(cx, 'after', kind='text')
        self.param = None
        if param:
            self.param = B.node(cx, 'tag', 'param', {'name': 'transformation'}, True, base='param', chunks=(self.before, Elem(self.tag), self.after))
        self.fields0 = {r.id: self.picture(r) for r in self.all()}

    def all(self):
        return [self.tag] + ([self.param] if self.param is not None else []) + list(self.parts.values()) + list(self.values.values())

    def picture(self, ref):
        rec = self.cx.rec(ref)
        return (rec.name, dict(rec.attrs), rec.known, rec._chunks, rec.parent)

    def same(self, ref):
        a, b = self.fields0[ref.id], self.picture(ref)
        if a[:3] != b[:3] and not (Q.same(a[0], b[0]) and a[2] == b[2] and set(a[1]) == set(b[1]) and all(Q.same(a[1][k], b[1][k]) for k in a[1])):
            return False
        if a[3] is None or b[3] is None:
            # never looked at, or only looked at
            return a[3] is b[3] or B.same_chunks(b[3], B.pristine(self.cx, ref, self.cx.rec(ref)))
        return same_seq(self.cx, Q.norm(self.cx, a[3]), Q.norm(self.cx, b[3]))

    def part_value(self, n):
        """the argument for a part, and what it should read as"""
        cx = self.cx
        if n in ('offset', 'scale'):
            vs, want = pair(cx, ('real', 'real'))
            return tuple(vs), want
        x = cx.real('a_' + n)
        return SReal(x), x

    def check(self, given, what):
        """given: part -> what it should read as; the rest should be as they were"""
        cx = self.cx
        if self.param is not None:
            cx.prove(self.same(self.param), f'{what}: nothing else changes')
        rec = cx.rec(self.tag)
        cx.prove(rec.name == 'composite' and rec.known and {k: v for k, v in rec.attrs.items() if v is not B.ABSENT} == {'type': 'transformation'},
                 f'{what}: it is still a transformation')
        found = {}
        for c in Q.norm(cx, B.children(cx, self.tag)):
            if isinstance(c, Elem) and B.tag_p(cx, c.v):
                n = B.name_of(cx, c.v)
                cx.prove(isinstance(n, str) and n in PARTS and n not in found, f'{what}: the four parts, once each')
                found[n] = c.v
            elif not isinstance(c, Elem):
                Q.each(cx, [c], lambda v: cx.prove(not B.tag_p(cx, v), f'{what}: the four parts, once each'))
        cx.prove(set(found) == set(PARTS), f'{what}: the four parts, once each')
        for n, t in found.items():
            if n not in given:
                cx.prove(t == self.parts[n] and self.same(t) and self.same(self.values[n]), f'{what}: the other parts are as they were', n)
                continue
            vals = []
            for c in Q.norm(cx, B.children(cx, t)):
                if not isinstance(c, Elem):
                    Q.each(cx, [c], lambda v: cx.prove(not B.tag_p(cx, v), f'{what}: one value in each part'))
                elif B.tag_p(cx, c.v):
                    vals.append(c.v)
            cx.prove(len(vals) == 1, f'{what}: one value in each part')
            if len(vals) != 1:
                continue
            if n in ('offset', 'scale'):
                vector_tag(cx, vals[0], given[n], f'{what}: {n}')
            else:
                cx.prove(eqv(cx, B.name_of(cx, vals[0]), 'angle'), f'{what}: the type of {n}')
                how, got = run(cx, lambda: attr(cx, call(cx, sv.Angle, vals[0]), 'value'))
                cx.prove(how == 'ok' and is_num(got), f'{what}: {n} can be read')
                if how == 'ok' and is_num(got):
                    cx.prove(zreal(got) == given[n], f'{what}: {n} is what was given')


def subset_goal(names):
    def g(cx):
        tr = Trans(cx)
        value = call(cx, sv.Transformation, tr.tag)
        given, items = {}, []
        for n in names:
            v, want = tr.part_value(n)
            given[n] = want
            items.append(Elem((n, v)))
        d = cx.new(DictRec(tuple(items)))
        what = 'setting some parts'
        how, r = run(cx, lambda: cx.interp.setattr(value, 'value', d))
        cx.prove(how == 'ok', f'{what}: accepted', r)
        if how != 'ok':
            return
        cx.prove(attr(cx, value, 'tag') == tr.tag, f'{what}: it is still the one in the document')
        tr.check(given, what)
        cx.cover('set')
    return g


for k in range(5):
    for names in itertools.combinations(PARTS, k):
        for rev in ((False, True) if k > 1 else (False,)):
            g = subset_goal(names[::-1] if rev else names)
            g.__name__ = 'parts_' + ('_'.join(names) or 'none') + ('_reversed' if rev else '')
            goal(f'setting {" and ".join(names) or "no parts"} of a transformation changes exactly that', cost=k)(g)


@goal('unknown parts of a transformation are refused, and nothing changes')
def unknown_part(cx):
    tr = Trans(cx)
    value = call(cx, sv.Transformation, tr.tag)
    names = list(PARTS[:2])
    where = cx.choose(3, 'where')
    key = cx.str('key')
    for n in PARTS:
        cx.assume(key != cx.lit(n))
    items = [Elem((n, tr.part_value(n)[0])) for n in names]
    items.insert(where, Elem((S.from_term(key), SReal(cx.real('v')))))
    d = cx.new(DictRec(tuple(items)))
    what = 'an unknown part'
    how, r = run(cx, lambda: cx.interp.setattr(value, 'value', d))
    cx.prove(how == 'raise' and r is KeyError, f'{what}: refused with KeyError', r)
    for t in tr.all():
        cx.prove(tr.same(t), f'{what}: nothing changes')
    cx.cover('refused')


@goal('a transformation cannot be set to something other than a map, nor a part to something unsuitable')
def unsuitable(cx):
    tr = Trans(cx)
    value = call(cx, sv.Transformation, tr.tag)
    k = cx.choose(4, 'what')
    if k == 0:
        v = SReal(cx.real('v'))
    elif k == 1:
        v = None
    elif k == 2:
        v = cx.new(DictRec((Elem(('offset', tr.part_value('offset')[0])), Elem(('scale', SReal(cx.real('v')))))))
    else:
        v = cx.new(DictRec((Elem(('offset', tr.part_value('offset')[0])), Elem(('angle', cx.new(ListRec(())))))))
    what = 'something unsuitable'
    how, r = run(cx, lambda: cx.interp.setattr(value, 'value', v))
    cx.prove(how == 'raise' and issubclass(r, (TypeError, ValueError)), f'{what}: refused', r)
    for t in tr.all():
        cx.prove(tr.same(t), f'{what}: nothing changes')
    cx.cover('refused')


########################################################################
# a group's shortcuts

from .ly import *    # noqa: E402
from sangfroid.field import ShortcutField    # noqa: E402


def shortcut_classes():
    out = {}
    for c in all_classes():
        k = tuple((id(find_in(c, n)) if isinstance(find_in(c, n), ShortcutField) else None) for n in PARTS)
        if any(k):
            k += tuple(id(find_in(c, n)) for n in LAYER_METHODS)
            out.setdefault(k, c)
    return list(out.values())


@goal('a group has shortcuts to the parts of its transformation')
def shortcuts_exist(cx):
    for n in PARTS:
        cx.prove(isinstance(find_in(sl.Group, n), ShortcutField), 'shortcuts: for each part of the transformation', n)
    cx.cover('exist')


def shortcut_goal(n, cls):
    def g(cx):
        tr = Trans(cx, param=False)
        a = ALayer(cx, cls, 'transformation', tr.tag)
        p = Picture(cx, a.refs)
        v, want = tr.part_value(n)
        what = 'setting a shortcut'
        how, r = run(cx, lambda: cx.interp.setattr(a.layer, n, v))
        cx.prove(how == 'ok', f'{what}: accepted', r)
        if how != 'ok':
            return
        p.all_same(what, but=[tr.tag])
        tr.check({n: want}, what)
        if n in ('offset', 'scale'):
            how, got = run(cx, lambda: attr(cx, a.layer, n))
            cx.prove(how == 'ok', f'{what}: can be read', got)
            if how == 'ok':
                reading_vector(cx, got, want, f'{what}: {n}')
        cx.cover('set')
    return g


def read_shortcut_goal(n, cls):
    def g(cx):
        kind = {'offset': 'vector', 'scale': 'vector'}.get(n, 'angle')
        v = any_value_tag(cx, kind)
        tr = Trans(cx, param=False, made={n: v})
        a = ALayer(cx, cls, 'transformation', tr.tag)
        p = Picture(cx, a.refs + tr.all())
        for how_, f in (('shortcut', lambda: attr(cx, a.layer, n)),
                        ('part', lambda: cx.interp.getitem(attr(cx, a.layer, 'transformation'), n)),
                        ('attribute', lambda: attr(cx, attr(cx, a.layer, 'transformation'), n)),
                        ('get()', lambda: call(cx, attr(cx, attr(cx, a.layer, 'transformation'), 'get'), n))):
            what = 'reading a part of a transformation'
            how, r = run(cx, f)
            cx.prove(how == 'ok' and isinstance(r, Ref) and isinstance(cx.rec(r), InstRec), f'{what}: can be read: {how_}', r)
            if how != 'ok':
                continue
            cx.prove(is_kind(cx, r, kinds()[kind]), f'{what}: the class of its value: {how_}', cx.rec(r).cls)
            cx.prove(attr(cx, r, 'tag') == tr.values[n], f'{what}: it is the one in the document: {how_}')
        p.all_same('reading a part of a transformation')
        cx.cover('read')
    return g


for n in PARTS:
    for cls in shortcut_classes():
        for words, f in (('setting', shortcut_goal), ('reading', read_shortcut_goal)):
            g = f(n, cls)
            g.__name__ = f'{words}_{n}_of_{cls.__name__}'
            goal(f'{words} the {n} of a {cls.__name__} by its shortcut acts on exactly that part of its own transformation')(g)
