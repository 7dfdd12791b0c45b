from .ly import *
from vf.engine.interp import SLen
from .c01 import PARSE, PARSES, parse_contract
from .c08 import str_contract, MILLIONTH
from .c12 import list_of
from . import c14
import sangfroid.layer as sl
import sangfroid.value as v
from sangfroid.animation import Animation
from sangfroid.keyframe import Keyframe

GOALS, goal = goals()
F, A, K = 'sangfroid.field.', 'sangfroid.animation.', 'sangfroid.keyframe.'
UNDER_CONTRACT = [F+x for x in ('TagAttrField.__get__', 'TagAttrField.__set__', 'TypeNameField.__set__', 'SynfigVersionField.__get__',
                                'DescField.__get__', 'DescField.__set__', 'TagField.__get__', 'NamedChildField.get_subtag_for_obj',
                                'NamedChildField.__get__', 'NamedChildField.__set__')] + \
                 [A+x for x in ('TagTimeAttrField.__get__', 'TagTimeAttrField.__set__', 'Animation.size', 'Animation.viewbox',
                                'Animation.framecount', 'Animation.background', 'Animation.keyframes')] + \
                 [K+x for x in ('Keyframe.__init__', 'Keyframe.time', 'Keyframe.name', 'Keyframe.active', 'Keyframe.all_in_animation',
                                'Keyframes.__len__', 'Keyframes.__iter__')]
ASSUMPTIONS = ['an attribute or text is the same after saving and reloading (C15)',
               'keyframes are only at the top of a document, and have times and activity',
               'an attribute of a number type has the text of a number']
ATTRS = ('desc', 'active', 'exclude_from_rendering', 'version', 'tag', '__getattribute__', '__getattr__', '__setattr__', '__init__')


def classes(names):
    seen = {}
    for c in all_classes():
        seen.setdefault(tuple(id(find_in(c, n)) for n in names), c)
    return list(seen.values())


def text_is(cx, got, t, name):
    """obligation: got is the text of that term"""
    cx.prove(S.is_str(got) and cx.interp.eq(got, S.from_term(t)), name, repr(got))


def number_is(cx, got, z, name, whole=False):
    """obligation: got is that number, and of the right type"""
    ok = isinstance(got, (SInt, int) if whole else (SReal, float)) and not isinstance(got, bool)
    cx.prove(ok and zreal(got) == z, name, repr(got))


class Before:
    """what the tag was like; what else changed of it"""
    def __init__(self, cx, tag, refs=()):
        self.cx, self.tag = cx, tag
        self.attrs, self.known = dict(cx.rec(tag).attrs), cx.rec(tag).known
        self.p = Picture(cx, [tag, *refs])

    def value(self, attrs, k):
        if k in attrs:
            return attrs[k]
        if self.known:
            return B.ABSENT
        sh = self.cx.rec(self.tag).sh
        if k in attrs:
            return attrs[k]
        if self.cx.entails(z3.Not(B.HAS(k)(sh))):
            return B.ABSENT
        if self.cx.entails(B.HAS(k)(sh)):
            return S.from_term(B.ATTR(k)(sh))
        return None

    def check(self, what, but=None, kids=True):
        cx = self.cx
        rec = cx.rec(self.tag)
        ok = rec.known == self.known
        for k in set(rec.attrs) | set(self.attrs):
            if k != but:
                a, b = self.value(self.attrs, k), self.value(rec.attrs, k)
                ok = ok and (a is B.ABSENT and b is B.ABSENT or a is not None and b is not None and
                             a is not B.ABSENT and b is not B.ABSENT and (Q.same(a, b) or S.is_str(a) and S.is_str(b) and eqv(cx, a, b)))
        cx.prove(ok, f'{what}: the other attributes stay as they are')
        for r in self.p.refs:
            a, b = self.p.before[r.id], self.p.take(r)
            if r == self.tag:
                b = (b[0], a[1], a[2], *b[3:])
            saved = self.p.before[r.id]
            if not (kids or r != self.tag):
                b = b[:3] + (a[3],) + b[4:]
            self.p.before[r.id] = b if r == self.tag else saved
            if r == self.tag:
                same = Q.same(a[0], b[0]) and Q.same(a[5], b[5]) and (a[4] is b[4] or a[4] == b[4]) and self.kids_same(a[3], b[3])
            else:
                same = self.p.same(r)
            self.p.before[r.id] = saved
            cx.prove(same, f'{what}: nothing else changes', repr(r))

    def kids_same(self, a, b):
        cx = self.cx
        if a is None or b is None:
            if a is b:
                return True
            pr = Q.norm(cx, B.pristine(cx, self.tag, cx.rec(self.tag)))
            return B.same_chunks(Q.norm(cx, a), pr) if a is not None else B.same_chunks(Q.norm(cx, b), pr)
        return same_seq(cx, Q.norm(cx, a), Q.norm(cx, b))


########################################################################
# layers

def a_layer(cx, cls):
    tag = B.node(cx, 'tag', 'layer', base='layer', parent=B.Above('above'))
    e = cx.rec(tag).sh
    cx.assume(B.HAS('type')(e))
    cx.assume(z3.Implies(B.HAS('version')(e), S.FVALID(B.ATTR('version')(e)) == 1))
    return tag, call(cx, cls, tag), e


def is_true(cx, text):
    return cx.branch(cx.interp.eq(S.case(cx, text, 'lower'), 'true'))


def check_attr(cx, cls, k, got, has, t, what, default_version=None):
    """obligation: that's what an attribute should read as, whose text is t if it's there"""
    name = f'{what}: the value in the document, or the default'
    there = has if isinstance(has, bool) else cx.branch(has)
    if k in ('active', 'exclude_from_rendering'):
        want = is_true(cx, S.from_term(t)) if there else k == 'active'
        if isinstance(got, SBool):
            got = cx.branch(got)
        cx.prove(got is want, name, repr(got))
    elif k == 'desc':
        if there:
            text_is(cx, got, t, name)
        else:
            cx.prove(got is None, name, repr(got))
    elif k == 'type_':
        text_is(cx, got, t, name)
    elif k == 'version':
        if there:
            number_is(cx, got, S.FNUM(t), name)
        elif default_version is not None:
            cx.prove(isinstance(got, float) and got == default_version, name, repr(got))


def xml_name(k):
    return {'type_': 'type'}.get(k, k)


def reading(cls, k):
    def g(cx):
        tag, layer, e = a_layer(cx, cls)
        b = Before(cx, tag)
        what = f"reading a layer's {k}"
        how, r = run(cx, lambda: attr(cx, layer, k))
        cx.prove(how == 'ok', f'{what}: can be done', r)
        if how != 'ok':
            return
        check_attr(cx, cls, k, r, B.HAS(xml_name(k))(e), B.ATTR(xml_name(k))(e), what)
        b.check(what)
        cx.cover('read')
    g.__name__ = f'read_{k}_of_{cls.__name__}'
    return g


def written(cx, x):
    """the text by which a value is saved"""
    return x if S.is_str(x) else S.num_to_str(cx, x)


def a_new_value(cx, ty):
    """any value of a type: (value, whether something read is it)"""
    if ty is bool:
        z = cx.bool('new')
        if cx.choose(2, 'as a number?'):
            return SInt(z3.If(z, z3.IntVal(1), z3.IntVal(0))), lambda got: prove_bool_is(cx, got, z)
        return SBool(z), lambda got: prove_bool_is(cx, got, z)
    if ty is int:
        n = cx.int('new')
        return SInt(n), lambda got: isinstance(got, (SInt, int)) and not isinstance(got, bool) and zreal(got) == z3.ToReal(n)
    if ty is float:
        if cx.choose(2, 'a whole number?'):
            n = cx.int('new')
            return SInt(n), lambda got: isinstance(got, (SReal, float)) and zreal(got) == z3.ToReal(n)
        x = cx.real('new')
        return SReal(x), lambda got: isinstance(got, (SReal, float)) and zreal(got) == x
    s = S.opaque(cx, 'new')
    return s, lambda got: S.is_str(got) and cx.interp.eq(got, s)


def prove_bool_is(cx, got, z):
    if isinstance(got, bool):
        return z if got else z3.Not(z)
    if isinstance(got, SBool):
        return got.z == z
    return False


TYPES = {'active': bool, 'exclude_from_rendering': bool, 'desc': str, 'version': float}


def check_set(cx, obj, k, x, tag, is_, what, remake):
    """obligations after setting: it reads back, now and when saved and reloaded"""
    how, got = run(cx, lambda: attr(cx, obj, k))
    cx.prove(how == 'ok', f'{what}: reads back', got)
    if how == 'ok':
        cx.prove(is_(got), f'{what}: reads back', repr(got))
    val = B.attr_value(cx, tag, x) if cx.branch(B.attr_has(cx, tag, x)) else None
    cx.prove(val is not None, f'{what}: survives saving')
    if val is None:
        return
    how, got = run(cx, lambda: attr(cx, remake({x: written(cx, val)}), k))
    cx.prove(how == 'ok', f'{what}: survives saving', got)
    if how == 'ok':
        cx.prove(is_(got), f'{what}: survives saving', repr(got))


def setting(cls, k):
    def g(cx):
        tag, layer, e = a_layer(cx, cls)
        b = Before(cx, tag)
        what = f"setting a layer's {k}"
        val, is_ = a_new_value(cx, TYPES[k])
        how, r = run(cx, lambda: cx.interp.setattr(layer, k, val))
        cx.prove(how == 'ok', f'{what}: can be done', r)
        if how != 'ok':
            return

        def remake(attrs):
            return call(cx, cls, B.node(cx, 'tag', 'layer', dict(attrs, type='x'), base='reloaded'))
        check_set(cx, layer, k, k, tag, is_, what, remake)
        b.check(what, k)
        cx.cover('set')
    g.__name__ = f'set_{k}_of_{cls.__name__}'
    return g


def removing_desc(cls):
    def g(cx):
        tag, layer, e = a_layer(cx, cls)
        b = Before(cx, tag)
        what = "setting a layer's desc to None"
        how, r = run(cx, lambda: cx.interp.setattr(layer, 'desc', None))
        cx.prove(how == 'ok', f'{what}: can be done', r)
        if how != 'ok':
            return
        cx.prove(attr(cx, layer, 'desc') is None, f'{what}: reads back')
        h = B.attr_has(cx, tag, 'desc')
        cx.prove(h is False, f'{what}: survives saving')
        b.check(what, 'desc')
        cx.cover('set')
    g.__name__ = f'remove_desc_of_{cls.__name__}'
    return g


def type_kept(cls):
    def g(cx):
        tag, layer, e = a_layer(cx, cls)
        b = Before(cx, tag)
        what = "setting a layer's type"
        how, r = run(cx, lambda: cx.interp.setattr(layer, 'type_', S.opaque(cx, 'new')))
        cx.prove(how == 'raise' and issubclass(r, ValueError), f'{what}: raises ValueError', r)
        b.check(what)
        cx.cover('refused')
    g.__name__ = f'type_kept_of_{cls.__name__}'
    return g


for cls in classes(ATTRS):
    for k in TYPES:
        goal(f"reading the {k} of any {cls.__name__} gives what is in the document, or the default, and changes nothing")(reading(cls, k))
        goal(f"setting the {k} of any {cls.__name__} to anything makes it read back, survives saving, and changes nothing else")(setting(cls, k))
    goal(f'setting the description of any {cls.__name__} to None removes it, and changes nothing else')(removing_desc(cls))
for cls in classes(ATTRS + ('type_',)):
    if find_in(cls, 'type_') is find_in(Layer, 'type_'):
        goal(f"reading the type of any {cls.__name__} gives what is in the document")(reading(cls, 'type_'))
        goal(f"the type of any {cls.__name__} cannot be set")(type_kept(cls))


@goal('a layer without a version has that of its type', budget=200)
def default_versions(cx):
    names = sorted(n for n, e in c14.TABLE['layers'].items() if 'attrs' in e)
    n = names[cx.choose(len(names), 'type of layer')]
    cls = Layer.handles_type.handlers.get(n)
    if cls is None:
        cls = next((c for m, c in Layer.handles_type.handlers.items() if c14.plain(m) == n), None)
    cx.prove(cls is not None, 'default versions: each type has a class', n)
    if cls is None:
        return
    tag = B.node(cx, 'tag', 'layer', {'type': n, 'version': B.ABSENT}, base='layer')
    how, r = run(cx, lambda: attr(cx, call(cx, cls, tag), 'version'))
    cx.prove(how == 'ok' and isinstance(r, float) and r == float(c14.TABLE['layers'][n]['attrs']['version']),
             'default versions: that of the type of layer', f'{n} {r}')
    cx.cover('read')


@goal('the tag of a layer is the one it was made of')
def tags(cx):
    cs = classes(ATTRS)
    cls = cs[cx.choose(len(cs), 'class')]
    tag, layer, e = a_layer(cx, cls)
    cx.prove(attr(cx, layer, 'tag') == tag, 'the tag of a layer')
    cx.cover('read')


########################################################################
# animations

ANIM = {  # python name -> (xml name, type, default)
    'width': ('width', int, 480), 'height': ('height', int, 270), 'xres': ('xres', float, 2834.645669), 'yres': ('yres', float, 2834.645669),
    'gamma_r': ('gamma-r', float, 1.0), 'gamma_g': ('gamma-g', float, 1.0), 'gamma_b': ('gamma-b', float, 1.0),
    'view_box': ('view-box', str, '-4.0 2.25 4.0 -2.25'), 'antialias': ('antialias', int, 1), 'fps': ('fps', float, 24.0),
    'bgcolor': ('bgcolor', str, '0.5 0.5 0.5 1.0'), 'version': ('version', float, 1.2),
}
TIMES = {'begin_time': ('begin-time', 0.0), 'end_time': ('end-time', 5.0)}


class AnAnimation:
    def __init__(self, cx, kids=None, numbers=True, base='root'):
        self.cx = cx
        cx.interp.contracts['sangfroid.t.T._parse_time_spec'] = parse_contract
        cx.interp.contracts['sangfroid.t.T.__str__'] = str_contract
        self.root = B.node(cx, 'tag', 'canvas', base=base, chunks=kids)
        self.soup = B.node(cx, 'doc', '[document]', {}, True, base='doc', chunks=(Elem(self.root),))
        self.anim = an_animation(cx, Animation, self.soup, self.root)
        self.e = e = cx.rec(self.root).sh
        for k, (x, ty, d) in ANIM.items():
            if ty is int:
                cx.assume(z3.Implies(B.HAS(x)(e), S.IVALID(B.ATTR(x)(e))))
            elif ty is float:
                cx.assume(z3.Implies(B.HAS(x)(e), S.FVALID(B.ATTR(x)(e)) == 1))
        self.b = Before(cx, self.root, [self.soup])

    def has_times(self):
        """a positive frame rate, and times which can be read"""
        cx, e = self.cx, self.e
        self.fps = S.FNUM(B.ATTR('fps')(e))
        cx.assume(z3.And(B.HAS('fps')(e), self.fps > 0))
        cx.memo.setdefault('fps_terms', []).append(self.fps)
        for x, d in TIMES.values():
            cx.assume(z3.Implies(B.HAS(x)(e), PARSES(B.ATTR(x)(e), self.fps)))

    def there(self, *xs):
        for x in xs:
            self.cx.assume(B.HAS(x)(self.e))

    def time(self, x):
        return PARSE(B.ATTR(x)(self.e), self.fps)


def remade(cx, attrs):
    root = B.node(cx, 'tag', 'canvas', attrs, base='reloaded')
    soup = B.node(cx, 'doc', '[document]', {}, True, base='redoc', chunks=(Elem(root),))
    return an_animation(cx, Animation, soup, root)


def anim_reading(k):
    x, ty, default = ANIM[k]

    def g(cx):
        a = AnAnimation(cx)
        what = f"reading an animation's {k}"
        how, r = run(cx, lambda: attr(cx, a.anim, k))
        cx.prove(how == 'ok', f'{what}: can be done', r)
        if how != 'ok':
            return
        name = f'{what}: the value in the document, or the default'
        if not cx.branch(B.HAS(x)(a.e)):
            cx.prove(type(r) is ty and r == default, name, repr(r))
        elif ty is str:
            text_is(cx, r, B.ATTR(x)(a.e), name)
        elif ty is int:
            number_is(cx, r, z3.ToReal(S.INUM(B.ATTR(x)(a.e))), name, True)
        else:
            number_is(cx, r, S.FNUM(B.ATTR(x)(a.e)), name)
        a.b.check(what)
        cx.cover('read')
    g.__name__ = f'read_animation_{k}'
    return g


def anim_setting(k):
    x, ty, default = ANIM[k]

    def g(cx):
        a = AnAnimation(cx)
        what = f"setting an animation's {k}"
        val, is_ = a_new_value(cx, ty)
        how, r = run(cx, lambda: cx.interp.setattr(a.anim, k, val))
        cx.prove(how == 'ok', f'{what}: can be done', r)
        if how != 'ok':
            return
        check_set(cx, a.anim, k, x, a.root, is_, what, lambda attrs: remade(cx, attrs))
        a.b.check(what, x)
        cx.cover('set')
    g.__name__ = f'set_animation_{k}'
    return g


for k in ANIM:
    goal(f"reading the {k} of any animation gives what is in the document, or the default, and changes nothing")(anim_reading(k))
    goal(f"setting the {k} of any animation makes it read back, survives saving, and changes nothing else")(anim_setting(k))


def a_time(cx, r):
    return isinstance(r, Ref) and isinstance(cx.rec(r), InstRec) and cx.rec(r).cls is T


def time_reading(k):
    x, default = TIMES[k]

    def g(cx):
        a = AnAnimation(cx)
        a.has_times()
        what = f"reading an animation's {k}"
        how, r = run(cx, lambda: attr(cx, a.anim, k))
        cx.prove(how == 'ok', f'{what}: can be done', r)
        if how != 'ok':
            return
        name = f'{what}: the time in the document, or the default'
        cx.prove(a_time(cx, r), name, repr(r))
        if not a_time(cx, r):
            return
        f = zreal(attr(cx, r, 'frames'))
        if cx.branch(B.HAS(x)(a.e)):
            cx.prove(f == a.time(x), name)
        elif k == 'begin_time':
            cx.prove(f == 0, name)
        else:
            cx.prove(f == 5*a.fps, name)
        p = attr(cx, r, 'fps')
        cx.prove(p is not None and zreal(p) == a.fps, f'{what}: its frame rate')
        a.b.check(what)
        cx.cover('read')
    g.__name__ = f'read_animation_{k}'
    return g


def time_setting(k, how_given):
    x, default = TIMES[k]

    def g(cx):
        a = AnAnimation(cx)
        a.has_times()
        what = f"setting an animation's {k}"
        tolerance = MILLIONTH
        if how_given == 'text':
            t = cx.str('new')
            cx.assume(PARSES(t, a.fps))
            val, f = S.from_term(t), PARSE(t, a.fps)
        elif how_given == 'T':
            f = cx.real('new')
            fps = SReal(a.fps) if cx.choose(2, 'does it know its frame rate?') else None
            val = cx.new(InstRec(T, {'_frames': SReal(f), '_fps': fps}))
        elif how_given == 'whole':
            n = cx.int('new')
            cx.assume(n >= 0)
            val, f = SInt(n), z3.ToReal(n)
        else:
            f = cx.real('new')
            cx.assume(f >= 0)
            val = SReal(f)
        how, r = run(cx, lambda: cx.interp.setattr(a.anim, k, val))
        cx.prove(how == 'ok', f'{what}: can be done', r)
        if how != 'ok':
            return

        def is_(got):
            if not a_time(cx, got):
                return False
            d = zreal(attr(cx, got, 'frames')) - f
            p = attr(cx, got, 'fps')
            return z3.And(d <= tolerance, -d <= tolerance, (zreal(p) == a.fps) if p is not None else False)
        fps = S.from_term(B.ATTR('fps')(a.e))
        check_set(cx, a.anim, k, x, a.root, is_, what, lambda attrs: remade(cx, dict(attrs, fps=fps)))
        a.b.check(what, x)
        cx.cover('set')
    g.__name__ = f'set_animation_{k}_to_{how_given}'
    return g


for k in TIMES:
    goal(f'reading the {k} of any animation gives what is in the document, or the default, and changes nothing')(time_reading(k))
    for h in ('text', 'T', 'whole', 'real'):
        goal(f'setting the {k} of any animation ({h}) makes it read back, survives saving, and changes nothing else')(time_setting(k, h))


@goal('the frame count is the whole number of frames from begin to end, and one')
def framecount(cx):
    a = AnAnimation(cx)
    a.has_times()
    a.there('begin-time', 'end-time')
    d = a.time('end-time') - a.time('begin-time')
    cx.assume(d >= 0)
    how, r = run(cx, lambda: attr(cx, a.anim, 'framecount'))
    cx.prove(how == 'ok', 'the frame count: can be read', r)
    if how != 'ok':
        return
    ok = isinstance(r, (SInt, int)) and not isinstance(r, bool)
    cx.prove(ok and zreal(r) == z3.ToReal(z3.ToInt(d)) + 1, 'the frame count: whole frames from begin to end, and one', repr(r))
    a.b.check('reading the frame count')
    cx.cover('read')


@goal('the size of any animation is its width and height')
def size(cx):
    a = AnAnimation(cx)
    how, r = run(cx, lambda: attr(cx, a.anim, 'size'))
    cx.prove(how == 'ok' and isinstance(r, tuple) and len(r) == 2, 'the size: a pair', repr(r))
    if how != 'ok' or not isinstance(r, tuple) or len(r) != 2:
        return
    for x, k in zip(r, ('width', 'height')):
        z = z3.ToReal(S.INUM(B.ATTR(k)(a.e))) if cx.branch(B.HAS(k)(a.e)) else rv(ANIM[k][2])
        number_is(cx, x, z, 'the size: the width and height of the document, or the default ones', True)
    a.b.check('reading the size')
    cx.cover('read')


def four_numbers(cx, base, tag, k, default):
    """an attribute with four numbers, with a space between each, or none such: the numbers it means"""
    if cx.choose(2, f'is there a {k}?') == 0:
        cx.rec(tag).attrs[k] = B.ABSENT
        return [rv(x) for x in default]
    ts = [cx.str(f'{base}{i}') for i in range(4)]
    for t in ts:
        cx.assume(S.FVALID(t) == 1)
        S.token(cx, t)
    cx.rec(tag).attrs[k] = S.concat(*[x for i, t in enumerate(ts) for x in ([' '] if i else []) + [S.from_term(t)]])
    return [S.FNUM(t) for t in ts]


@goal('the view box of any animation is the four numbers in the document, or the default ones')
def viewbox(cx):
    a = AnAnimation(cx)
    zs = four_numbers(cx, 'edge', a.root, 'view-box', (-4.0, 2.25, 4.0, -2.25))
    b = Before(cx, a.root, [a.soup])
    how, r = run(cx, lambda: attr(cx, a.anim, 'viewbox'))
    ok = how == 'ok' and isinstance(r, tuple) and len(r) == 4
    cx.prove(ok, 'the view box: four numbers', repr(r))
    if not ok:
        return
    for x, z in zip(r, zs):
        number_is(cx, x, z, 'the view box: the numbers in the document, or the default ones')
    b.check('reading the view box')
    cx.cover('read')


@goal('the background of any animation is the colour in the document, or the default one')
def background(cx):
    a = AnAnimation(cx)
    zs = four_numbers(cx, 'part', a.root, 'bgcolor', (0.5, 0.5, 0.5, 1.0))
    b = Before(cx, a.root, [a.soup])
    how, r = run(cx, lambda: attr(cx, a.anim, 'background'))
    cx.prove(how == 'ok' and is_kind(cx, r, v.Color), 'the background: a colour', repr(r))
    if how != 'ok' or not is_kind(cx, r, v.Color):
        return
    got = call(cx, attr(cx, r, 'as_tuple'))
    ok = isinstance(got, tuple) and len(got) == 4
    cx.prove(ok, 'the background: a colour', repr(got))
    if not ok:
        return
    for x, z in zip(got, zs):
        d = zreal(x) - z
        cx.prove(z3.And(d <= MILLIONTH, -d <= MILLIONTH), 'the background: the colour in the document, or the default one')
    b.check('reading the background')
    cx.cover('read')


########################################################################
# name and description

def named_kids(cx, k, contents):
    """(what is in the root, the tag of that name or None)"""
    before, after = B.some_nodes(cx, 'before'), B.some_nodes(cx, 'after')
    for s in (before, after):
        Q.forall(cx, s.src, s.src.e0, z3.Not(z3.And(B.ISTAG(s.src.e0), B.NAME(s.src.e0) == cx.lit(k))))
    if contents == 'absent':
        return (before,), None
    inner = ()
    if contents == 'text':
        inner = (Elem(B.node(cx, 'text', base='words')),)
    elif contents == 'anything':
        inner = (B.some_nodes(cx, 'inner'),)
    tag = B.node(cx, 'tag', k, base=k, chunks=inner)
    return (before, Elem(tag), after), tag


def named_reading(k, contents):
    def g(cx):
        kids, tag = named_kids(cx, k, contents)
        a = AnAnimation(cx, kids)
        b = Before(cx, a.root, [a.soup] + ([tag] if tag is not None else []))
        what = f"reading an animation's {k}"
        how, r = run(cx, lambda: attr(cx, a.anim, k))
        cx.prove(how == 'ok', f'{what}: can be done', r)
        if how != 'ok':
            return
        name = f'{what}: the text in the document, or an empty one'
        if contents == 'text':
            (c,) = Q.norm(cx, B.children(cx, tag))
            cx.prove(S.is_str(r) and cx.interp.eq(r, B.text_of(cx, c.v)), name, repr(r))
        else:
            cx.prove(S.is_str(r) and cx.interp.eq(r, ''), name, repr(r))
        b.check(what)
        cx.cover('read')
    g.__name__ = f'read_animation_{k}_{contents}'
    return g


def named_setting(k, contents):
    def g(cx):
        kids, tag = named_kids(cx, k, contents)
        a = AnAnimation(cx, kids)
        b = Before(cx, a.root, [a.soup])
        what = f"setting an animation's {k}"
        val = S.opaque(cx, 'new')
        if cx.choose(2, 'empty?'):
            val = ''
        how, r = run(cx, lambda: cx.interp.setattr(a.anim, k, val))
        cx.prove(how == 'ok', f'{what}: can be done', r)
        if how != 'ok':
            return
        how, r = run(cx, lambda: attr(cx, a.anim, k))
        cx.prove(how == 'ok' and S.is_str(r) and cx.interp.eq(r, val), f'{what}: reads back', repr(r))
        now = list(Q.norm(cx, B.children(cx, a.root)))
        mine = [c for c in now if isinstance(c, Elem)]
        cx.prove(len(mine) == 1, f'{what}: one tag of that name', repr(mine))
        if len(mine) != 1:
            return
        m = mine[0].v
        cx.prove(B.tag_p(cx, m) and cx.interp.eq(B.name_of(cx, m), k), f'{what}: one tag of that name')
        inner = Q.norm(cx, B.children(cx, m))
        t = inner[0].v if len(inner) == 1 and isinstance(inner[0], Elem) else None
        ok = t is not None and not B.tag_p(cx, t) and cx.interp.eq(B.text_of(cx, t), val) or not inner and val == ''
        cx.prove(ok, f'{what}: survives saving', repr(inner))
        rest = [c for c in now if c is not mine[0]]
        was = [c for c in Q.norm(cx, kids) if tag is None or not (isinstance(c, Elem) and c.v == tag)]
        cx.prove(same_seq(cx, rest, was), f'{what}: the rest of the document stays as it is')
        b.check(what, kids=False)
        cx.cover('set')
    g.__name__ = f'set_animation_{k}_{contents}'
    return g


for k in ('name', 'desc'):
    for c in ('absent', 'text', 'empty'):
        goal(f'reading the {k} of any animation ({c}) gives what is in the document')(named_reading(k, c))
    for c in ('absent', 'text', 'empty', 'anything'):
        goal(f'setting the {k} of any animation ({c} before) makes it read back, survives saving, and changes nothing else')(named_setting(k, c))


########################################################################
# keyframes

def keyframe_doc(cx):
    kids = B.some_nodes(cx, 'kids')
    s = kids.src
    a = AnAnimation(cx, (kids,))
    a.has_times()
    e = s.e0
    Q.forall(cx, s, e, z3.Implies(z3.And(B.ISTAG(e), B.NAME(e) == cx.lit('keyframe')),
                                  z3.And(B.HAS('time')(e), B.HAS('active')(e), PARSES(B.ATTR('time')(e), a.fps))))
    # those within others aren't keyframes
    cx.memo['every_node'] = lambda e: z3.Not(z3.And(B.ISTAG(e), B.NAME(e) == cx.lit('keyframe')))
    return a, kids


def is_keyframe(cx, node):
    return B.tag_p(cx, node) and cx.branch(cx.interp.eq(B.name_of(cx, node), 'keyframe'))


@goal('the keyframes of any animation are those of the document, in order')
def keyframes(cx):
    a, kids = keyframe_doc(cx)
    b = Before(cx, a.root, [a.soup])
    how, r = run(cx, lambda: list_of(cx, attr(cx, a.anim, 'keyframes')))
    cx.prove(how == 'ok', 'keyframes: can be listed', r)
    if how != 'ok':
        return
    each_keyframe(cx, a, B.children(cx, a.root), r)
    b.check('listing the keyframes')
    cx.cover('listed')


def each_keyframe(cx, a, nodes, got):
    name = 'keyframes: each one once, in document order'
    got = [c for c in Q.norm(cx, got) if not (isinstance(c, Seg) and not any(p.values for p in c.paths))]
    for c in Q.norm(cx, nodes):
        if isinstance(c, Elem):
            if is_keyframe(cx, c.v):
                ok = bool(got) and isinstance(got[0], Elem)
                cx.prove(ok, name)
                if ok:
                    one_keyframe(cx, a, got.pop(0).v, c.v)
            continue
        mine = None
        if got and isinstance(got[0], Seg) and got[0].src is c.src:
            mine = got.pop(0)
            cx.prove(mine.rev == c.rev, name)

        def one(e, c=c, mine=mine):
            each_keyframe(cx, a, Q.seg_elem(cx, c, e), Q.seg_elem(cx, mine, e) if mine is not None else [])
        Q.open_elem(cx, c.src, one)
    # the rest may be there, if it's of nothing
    for c in got:
        if isinstance(c, Elem):
            cx.prove(False, 'keyframes: nothing else', repr(c))
        else:
            Q.open_elem(cx, c.src, lambda e, c=c: each_keyframe(cx, a, [], Q.seg_elem(cx, c, e)))


def one_keyframe(cx, a, k, node):
    e = cx.rec(node).sh
    ok = isinstance(k, Ref) and isinstance(cx.rec(k), InstRec) and cx.rec(k).cls is Keyframe
    cx.prove(ok, 'keyframes: each is one')
    if not ok:
        return
    how, t = run(cx, lambda: attr(cx, k, 'time'))
    ok = how == 'ok' and a_time(cx, t)
    cx.prove(ok and zreal(attr(cx, t, 'frames')) == PARSE(B.ATTR('time')(e), a.fps), 'keyframes: the time in the document', t)
    if ok:
        p = attr(cx, t, 'fps')
        cx.prove(p is not None and zreal(p) == a.fps, 'keyframes: the frame rate of the document')
    how, n = run(cx, lambda: attr(cx, k, 'name'))
    cx.prove(how == 'ok' and S.is_str(n) and cx.interp.eq(n, B.all_text(cx, node)), 'keyframes: the name in the document', n)
    how, x = run(cx, lambda: attr(cx, k, 'active'))
    t = S.from_term(B.ATTR('active')(e))
    for word, want in (('true', True), ('false', False)):
        if cx.branch(cx.interp.eq(t, word)):
            if isinstance(x, SBool):
                x = cx.branch(x)
            cx.prove(how == 'ok' and x is want, 'keyframes: active if the document says so', x)


@goal('the number of keyframes is that of the document')
def keyframe_count(cx):
    a, kids = keyframe_doc(cx)
    b = Before(cx, a.root, [a.soup])
    how, r = run(cx, lambda: call(cx, len, attr(cx, a.anim, 'keyframes')))
    cx.prove(how == 'ok', 'the number of keyframes: can be read', r)
    if how != 'ok':
        return
    if not isinstance(r, SLen):
        raise Unsupported('a length which is not that of a list')
    counted(cx, B.children(cx, a.root), r.chunks)
    b.check('counting the keyframes')
    cx.cover('counted')


def counted(cx, nodes, got):
    """obligation: as many values as there are keyframes, for each node"""
    name = 'the number of keyframes: one for each in the document'
    got = list(Q.norm(cx, got))
    n = sum(1 for c in Q.norm(cx, nodes) if isinstance(c, Elem) and is_keyframe(cx, c.v)) - sum(1 for c in got if isinstance(c, Elem))
    cx.prove(n == 0, name)
    done = []
    for c in list(Q.norm(cx, nodes)) + got:
        if isinstance(c, Seg) and not any(c.src is d for d in done):
            done.append(c.src)

            def one(e, src=c.src):
                counted(cx, [x for d in Q.norm(cx, nodes) if isinstance(d, Seg) and d.src is src for x in Q.seg_elem(cx, d, e)],
                        [x for d in got if isinstance(d, Seg) and d.src is src for x in Q.seg_elem(cx, d, e)])
            Q.open_elem(cx, c.src, one)
