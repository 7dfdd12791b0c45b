from .lib import *
from .c01 import PARSE, PARSES, parse_contract
from sangfroid.value.value import Waypoint, Value

GOALS, goal = goals()
UNDER_CONTRACT = ['sangfroid.value.value.Waypoint.__init__', 'sangfroid.value.value.Waypoint.before', 'sangfroid.value.value.Waypoint.after',
                  'sangfroid.value.value.Waypoint._check_interpolation_type', 'sangfroid.value.value.Waypoint.tag',
                  'sangfroid.value.value.Waypoint.from_tag', 'sangfroid.value.value.Value.from_tag',
                  'sangfroid.value.value.Value.__init__', 'sangfroid.value.value.Value.is_animated']
# from the documentation of Synfig: the names in files, and those in its user interface
CANON = {'auto': 'tcb', 'tcb': 'tcb', 'clamped': 'clamped', 'constant': 'constant', 'linear': 'linear', 'ease': 'ease', 'halt': 'ease'}
# things which aren't names at all
MILLIONTH = z3.RealVal('1/1000000')
ODD = [None, 5, 0, 1.5, True, (), ('tcb',)]


def an_interpolation(cx):
    """(argument, canonical name or None if it should be refused)"""
    k = cx.choose(len(CANON) + len(ODD) + 1, 'interpolation')
    if k < len(CANON):
        a = list(CANON)[k]
        return a, CANON[a]
    k -= len(CANON)
    if k < len(ODD):
        return ODD[k], None
    t = cx.str('interpolation')
    for c in CANON:
        cx.assume(t != cx.lit(c))
    return S.from_term(t), None


def canon_term(cx, t):
    r = t
    for c, n in CANON.items():
        if c != n:
            r = z3.If(t == cx.lit(c), cx.lit(n), r)
    return r


def interpolation_contract(cx, args, kw):
    """Waypoint._check_interpolation_type of any text, as constructor_names and setting_names say"""
    v = args[1]
    if not isinstance(v, SStr):
        return NotImplemented
    t = S.term(cx, v)
    if not cx.branch(z3.Or(*[t == cx.lit(c) for c in CANON])):
        raise PyRaise(ValueError, ())
    return S.from_term(canon_term(cx, t))


def a_value(cx, base='value', kind=None):
    """any value of a documented type, un-animated, of any contents"""
    name, cls = kind or pick_kind(cx)
    tag = value_tag(cx, name, base)
    return name, cls, tag, value_of(cx, cls, tag)


@goal('exactly the documented interpolation names are accepted when a waypoint is made, and reported canonically')
def constructor_names(cx):
    b, wb = an_interpolation(cx)
    a, wa = an_interpolation(cx) if wb else ('linear', 'linear')
    name, cls, tag, v = a_value(cx, kind=('real', kinds()['real']))
    t = new_T(cx)
    how, w = attempt(cx, Waypoint, t, v, before=b, after=a)
    if wb is None or wa is None:
        cx.prove(how == 'raise' and w is ValueError, 'making a waypoint: other interpolations refused with ValueError', f'{b!r} {a!r} {how}')
        cx.cover('refused')
        return
    cx.prove(how == 'ok', 'making a waypoint: documented interpolations accepted', f'{b!r} {a!r} {w}')
    if how != 'ok':
        return
    cx.prove(attr(cx, w, 'before') == wb, 'making a waypoint: before is canonical')
    cx.prove(attr(cx, w, 'after') == wa, 'making a waypoint: after is canonical')
    cx.prove(attr(cx, w, 'time') == t and attr(cx, w, 'value') == v, 'making a waypoint: keeps its time and value')
    cx.cover('accepted')


@goal('exactly the documented interpolation names are accepted when they are set, and a refusal changes nothing')
def setting_names(cx):
    b, wb = an_interpolation(cx)
    name, cls, tag, v = a_value(cx, kind=('real', kinds()['real']))
    k = cx.choose(len(CANON), 'before and after')
    first = list(CANON)[k], list(CANON)[(k+3) % len(CANON)]
    w = call(cx, Waypoint, new_T(cx), v, first[0], first[1])
    field, other = (('before', 'after'), ('after', 'before'))[cx.choose(2, 'which')]
    was = {'before': CANON[first[0]], 'after': CANON[first[1]]}
    how, r = run(cx, lambda: cx.interp.setattr(w, field, b))
    if wb is None:
        cx.prove(how == 'raise' and r is ValueError, 'setting: other interpolations refused with ValueError', repr(b))
        cx.prove(attr(cx, w, field) == was[field], 'setting: a refusal changes nothing')
    else:
        cx.prove(how == 'ok', 'setting: documented interpolations accepted')
        cx.prove(attr(cx, w, field) == wb, 'setting: reads back canonically')
    cx.prove(attr(cx, w, other) == was[other], 'setting: leaves the other one alone')
    cx.cover('set')


@goal('values which are not library values, or are animated, are refused')
def constructor_values(cx):
    t = new_T(cx)
    k = cx.choose(10, 'what')
    bad = [SReal(cx.real('x')), SInt(cx.int('n')), True, None, S.from_term(cx.str('s')), (1, 2), T, B.node(cx, 'tag', 'real'), new_T(cx)]
    if k < len(bad):
        how, r = attempt(cx, Waypoint, t, bad[k])
        cx.prove(how == 'raise' and r is TypeError, 'making a waypoint: what is not a value is refused with TypeError', repr(bad[k]))
        cx.cover('not a value')
        return
    name, cls = pick_kind(cx)
    tag = B.node(cx, 'tag', 'animated', {'type': name})
    how, r = attempt(cx, Waypoint, t, value_of(cx, cls, tag))
    cx.prove(how == 'raise' and r is ValueError, 'making a waypoint: animated values are refused with ValueError', name)
    cx.cover('animated')


@goal('a waypoint written to XML and read back has the same instant, interpolations and value, and shares nothing with the original', budget=120)
def xml_round_trip(cx):
    name, cls, tag, v = a_value(cx)
    doc = bool(cx.choose(2, 'in a document?'))
    if doc:
        root, d, fps = fps_ref(cx)
    t = new_T(cx, fps=None)
    F = fields(cx, t)['_frames'].z
    if doc and cx.choose(2, 'does the time know its frame rate?'):
        fields(cx, t)['_fps'] = SReal(fps)
    names = list(CANON)
    b = names[cx.choose(len(names), 'before')]
    a = names[(names.index(b)+3) % len(names)]
    w = call(cx, Waypoint, t, v, b, a)
    before = cx.rec(tag).copy()
    how, x = run(cx, lambda: attr(cx, w, 'tag'))
    cx.prove(how == 'ok', 'writing a waypoint: never fails')
    if how != 'ok':
        return
    rec = cx.rec(x)
    cx.prove(rec.name == 'waypoint', 'writing a waypoint: the name of the tag')
    cx.prove({k for k, y in rec.attrs.items() if y is not B.ABSENT} == {'time', 'before', 'after'} and rec.known,
             'writing a waypoint: its attributes')
    cx.prove(rec.parent is None, 'writing a waypoint: a tag of its own')
    kids = Q.norm(cx, B.children(cx, x))
    cx.prove(len(kids) == 1 and isinstance(kids[0], Elem), 'writing a waypoint: holds one value')
    cx.prove(len(kids) == 1 and same_contents(cx, kids[0].v, tag), 'writing a waypoint: the value')
    cx.prove(kids[0].v != tag and cx.rec(kids[0].v).ident is None, 'writing a waypoint: the value is a copy')
    # the time is written as its text, if the document is saved
    if cx.choose(2, 'saved?'):
        # by C02, which says so of every time
        text = cx.str('timetext')
        z = fps if doc else z3.RealVal(-1)
        cx.assume(z3.And(PARSES(text, z), PARSE(text, z) - F <= MILLIONTH, F - PARSE(text, z) <= MILLIONTH))
        cx.interp.contracts['sangfroid.t.T._parse_time_spec'] = parse_contract
        cx.prove(S.is_str(rec.attrs['time']) or rec.attrs['time'] == t, 'writing a waypoint: its time')
        rec.attrs['time'] = S.from_term(text)
        tolerance = True
    else:
        tolerance = False
    if doc:
        anim = B.node(cx, 'tag', 'animated', {'type': name}, parent=B.Above('above', (root, d)))
        cx.rec(anim).set_chunks((Elem(x),))
        rec.parent = anim
    our_type = name if cx.choose(2, 'with a type?') else None
    how, w2 = attempt(cx, Waypoint.from_tag, x, our_type=our_type)
    cx.prove(how == 'ok', 'reading a waypoint back: never fails', w2)
    if how != 'ok':
        return
    G = zreal(attr(cx, attr(cx, w2, 'time'), 'frames'))
    if tolerance:
        cx.prove(z3.And(G-F <= MILLIONTH, F-G <= MILLIONTH), 'reading a waypoint back: its time, if it was saved')
    else:
        cx.prove(G == F, 'reading a waypoint back: its time')
    cx.prove(attr(cx, w2, 'before') == CANON[b] and attr(cx, w2, 'after') == CANON[a], 'reading a waypoint back: its interpolations')
    v2 = attr(cx, w2, 'value')
    cx.prove(is_kind(cx, v2, cls), 'reading a waypoint back: the class of its value')
    t2 = attr(cx, v2, 'tag')
    cx.prove(same_contents(cx, t2, tag), 'reading a waypoint back: its value')
    cx.prove(t2 != tag and cx.rec(t2).ident is None, 'reading a waypoint back: shares nothing with the original')
    now = cx.rec(tag)
    cx.prove(now.fields() == before.fields() or all(Q.same(now.fields().get(k), y) for k, y in before.fields().items()),
             'writing a waypoint: leaves the original alone')
    cx.cover('read back')


def from_tag_case(cx, shape):
    """any tag called anything; shape says what tags are in it"""
    root, d, fps = fps_ref(cx)
    cx.interp.contracts['sangfroid.t.T._parse_time_spec'] = parse_contract
    ks = list(kinds())
    time, before, after = cx.str('time'), cx.str('before'), cx.str('after')
    attrs = {'time': S.from_term(time), 'before': S.from_term(before), 'after': S.from_term(after)}

    def texts(n):
        return B.some_nodes(cx, f'texts{n}', kind='text')
    name = S.from_term(cx.str('name'))
    ty = ks[cx.choose(len(ks), 'the type of the timeline')]
    our_type = ty if cx.choose(2, 'is the type given?') else None
    kids, good_kids, cls, kid = None, False, None, None
    if shape == 'none':
        kids = (texts(0),)
    elif shape == 'one':
        k = cx.choose(len(ks)+1, 'the value')
        n = (ks + ['animated'])[k]
        kid = value_tag(cx, n, 'kid') if n != 'animated' else B.node(cx, 'tag', n, base='kid')
        kids = (texts(0), Elem(kid), texts(1))
        good_kids = n != 'animated' and (our_type is None or n == our_type)
        cls = kinds().get(n)
    else:
        first = B.node(cx, 'tag', base='kid1')
        second = B.node(cx, 'tag', base='kid2')
        kids = (texts(0), Elem(first), texts(1), Elem(second), B.some_nodes(cx, 'rest'))
    tag = B.node(cx, 'tag', name, attrs, base='waypoint', chunks=kids, parent=B.Above('above', (root, d)))
    how, w = attempt(cx, Waypoint.from_tag, tag, our_type=our_type)
    ok_time = PARSES(time, fps)
    ok_b = z3.Or(*[before == cx.lit(c) for c in CANON])
    ok_a = z3.Or(*[after == cx.lit(c) for c in CANON])
    ok_name = S.term(cx, name) == cx.lit('waypoint')
    good = z3.And(ok_time, ok_b, ok_a, ok_name, z3.BoolVal(good_kids))
    if how == 'raise':
        cx.prove(w is ValueError, 'reading a waypoint: refused with ValueError', w.__name__)
        cx.prove(z3.Not(good), 'reading a waypoint: refused only if there is something wrong with it')
        cx.cover('refused')
        return
    cx.prove(good, 'reading a waypoint: accepted only if there is nothing wrong with it')
    if not good_kids:
        return
    cx.prove(zreal(attr(cx, attr(cx, w, 'time'), 'frames')) == PARSE(time, fps), 'reading a waypoint: its time')
    v = attr(cx, w, 'value')
    cx.prove(is_kind(cx, v, cls) and attr(cx, v, 'tag') == kid, 'reading a waypoint: its value')
    for f, term in (('before', before), ('after', after)):
        r = attr(cx, w, f)
        want = [z3.Implies(term == cx.lit(c), S.term(cx, r) == cx.lit(CANON[c])) for c in CANON if cx.check(term == cx.lit(c)) != z3.unsat]
        cx.prove(z3.And(*want), f'reading a waypoint: its interpolation {f}')
    cx.cover('accepted')


for shape, words in (('none', 'no tag in it'), ('one', 'one tag in it'), ('several', 'several tags in it')):
    def g(cx, shape=shape):
        from_tag_case(cx, shape)
    g.__name__ = f'from_tag_{shape}'
    goal(f'a tag with {words} is read as a waypoint exactly if it is one, and refused with ValueError if not', budget=200, max_paths=20000)(g)
