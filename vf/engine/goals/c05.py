from .tl import *
from .c04 import timeline, KINDS

GOALS, goal = goals()
V = 'sangfroid.value.value.'
UNDER_CONTRACT = [V+x for x in ('Timeline.add', 'Timeline.__iadd__', 'Value.timeline', 'Value._waypoints', 'Value._waypoint_tags',
                                'Value._set_waypoints', 'Value._set_animated', 'Waypoint.tag', 'Waypoint.from_tag', 'Waypoint.__lt__')]


def per_case(name, statement, fn, kinds, **kw):
    for kind in kinds:
        for doc in (True, False):
            def g(cx, kind=kind, doc=doc):
                fn(cx, kind, doc)
            g.__name__ = f'{name}_{kind}_{"in_document" if doc else "alone"}'
            goal(f'{statement} ({kind}, {"in a document" if doc else "in no document"})', **kw)(g)


def a_waypoint(cx, line, base='new', kind=None, knows=None):
    """(waypoint, instant, before, after, tag of its value)"""
    kind = kind or line.kind
    tag = value_tag(cx, kind, base)
    v = call(cx, kinds()[kind], tag)
    b, a = cx.str('b'), cx.str('a')
    for t in (b, a):
        cx.assume(z3.Or(*[t == cx.lit(c) for c in CANON]))
    F = cx.real(base + '_frames')
    fps = SReal(line.fps) if line.in_doc and (knows if knows is not None else cx.choose(2, 'does its time know its frame rate?')) else None
    t = cx.new(InstRec(T, {'_frames': SReal(F), '_fps': fps}))
    w = call(cx, Waypoint, t, v, S.from_term(b), S.from_term(a))
    return w, F, canon_term(cx, b), canon_term(cx, a), tag


def some_waypoints(cx, line, n):
    """(list of them, expected)"""
    # if there are several, the first doesn't know its frame rate, and the second does
    ws = [a_waypoint(cx, line, f'new{i}', knows=i > 0 if n > 1 else None) for i in range(n)]
    for i in range(n):
        for j in range(i):
            cx.assume(ws[i][1] != ws[j][1])
    return [w[0] for w in ws], [w[1:] for w in ws]


def a_list(cx, ws):
    return cx.new(ListRec(tuple(Elem(w) for w in ws)))


def is_animated(cx, line, what):
    tag = attr(cx, line.value, 'tag')
    cx.prove(B.name_of(cx, tag) == 'animated', f'{what}: the value is animated')
    cx.prove({k: v for k, v in cx.rec(tag).attrs.items() if v is not B.ABSENT} == {'type': line.kind}, f'{what}: the type of the animation')


def adding(n, overwrite, iadd=False, animated=True):
    def fn(cx, kind, doc):
        line = Line(cx, kind, doc, animated=animated)
        ws, want = some_waypoints(cx, line, n)
        arg = ws[0] if n == 1 and cx.choose(2, 'in a list?') == 0 else a_list(cx, ws)
        tl = timeline(cx, line)
        if iadd:
            how, r = run(cx, lambda: call(cx, attr(cx, tl, '__iadd__'), arg))
        elif overwrite:
            how, r = attempt(cx, attr(cx, tl, 'add'), arg, overwrite=True)
        else:
            how, r = attempt(cx, attr(cx, tl, 'add'), arg)
        K = [w[0] for w in want]
        if how == 'raise':
            cx.prove(r is ValueError and not overwrite, 'adding: refused with ValueError, unless overwriting', r.__name__)
            cx.prove(any(not isinstance(p, Q.Src) and cx.entails(z3.And(B.ISTAG(p), z3.Or(*[line.time(p) == k for k in K]))) for p in
                         Q.pieces_of(cx, line.src)), 'adding: refused only if there is a clash')
            unchanged(line, 'adding, refused')
            cx.cover('refused')
            return
        if not overwrite:
            line.old(lambda e: cx.prove(z3.And(*[line.time(e) != k for k in K]), 'adding: clashes are refused'))
        is_animated(cx, line, 'adding')
        expect(line, lambda e: z3.And(*[line.time(e) != k for k in K]), want, 'adding')
        surroundings(line, 'adding')
        cx.cover('added')
    return fn


for n in (1, 2):
    ks = KINDS if n == 1 else ['real']
    few = ['real', 'vector'] if n == 1 else ks
    cost = 20 if n == 1 else 100
    per_case(f'add_{n}', f'adding {n} without overwriting adds all or refuses', adding(n, False), ks, budget=200)
    per_case(f'overwrite_{n}', f'adding {n} with overwriting replaces those which clash', adding(n, True), ks, budget=300, cost=cost)
    per_case(f'iadd_{n}', f'+= of {n} replaces those which clash', adding(n, True, True), few, budget=300, cost=cost)
    per_case(f'add_{n}_static', f'adding {n} to an un-animated value animates it', adding(n, False, animated=False), ks, budget=200)


@goal('adding nothing changes nothing')
def add_none(cx):
    line = Line(cx, 'real', bool(cx.choose(2, 'in a document?')))
    how, r = attempt(cx, attr(cx, timeline(cx, line), 'add'), a_list(cx, []))
    if line.none_known():
        return
    cx.prove(how == 'ok', 'adding nothing: never fails')
    tag = attr(cx, line.value, 'tag')
    if B.name_of(cx, tag) == 'animated':
        expect(line, lambda e: z3.BoolVal(True), [], 'adding nothing')
    cx.cover('added')


def any_number(cx, kind, doc):
    """assigning a list of any length"""
    line = Line(cx, kind, doc, animated=bool(cx.choose(2, 'animated before?')))
    fps = line.fps if doc and cx.choose(2, 'do the times know their frame rate?') else None
    given = Given(cx, line, fps)
    k = cx.choose(2, 'list or dict?')
    arg = given.as_list()
    if k:
        d = cx.new(DictRec(()))
        def put(w):
            r = cx.rec(d)
            r.set_chunks(r.chunks() + (Elem((attr(cx, w, 'time'), w)),))
        Q.loop(cx, (given.seg,), put)
        arg = d
    how, r = run(cx, lambda: cx.interp.setattr(line.value, 'timeline', arg))
    some = any(not isinstance(p, Q.Src) for p in Q.pieces_of(cx, given.src))
    if not some:
        if not line.animated or not line.none_known():
            tag = attr(cx, line.value, 'tag')
            cx.prove(how == 'ok', 'assigning none: never fails', r)
            cx.prove(B.name_of(cx, tag) == line.kind, 'assigning none: the value is un-animated')
            surroundings(line, 'assigning none')
            cx.cover('none')
        return
    cx.prove(how == 'ok', 'assigning: never fails', r)
    if how != 'ok':
        return
    is_animated(cx, line, 'assigning')
    expect(line, lambda e: z3.BoolVal(False), [], 'assigning', others=[Group(given)])
    surroundings(line, 'assigning')
    cx.cover('assigned')


per_case('assign', 'assigning a list or dict of any length makes the timeline hold exactly those', any_number, KINDS, budget=200)


def from_other(cx, kind, doc):
    line = Line(cx, kind, doc, animated=bool(cx.choose(2, 'animated before?')))
    other = Line(cx, kind, bool(cx.choose(2, 'is the other one in a document?')))
    how, r = run(cx, lambda: cx.interp.setattr(line.value, 'timeline', timeline(cx, other)))
    if other.none_known():
        cx.cover('none')
        return
    cx.prove(how == 'ok', 'assigning a timeline: never fails', r)
    if how != 'ok':
        return
    is_animated(cx, line, 'assigning a timeline')
    expect(line, lambda e: z3.BoolVal(False), [], 'assigning a timeline', others=[Group(other)])
    surroundings(line, 'assigning a timeline')
    unchanged(other, 'assigning a timeline: the other one')
    cx.cover('assigned')


per_case('assign_timeline', 'assigning another value\'s timeline makes this one hold exactly the same waypoints', from_other, KINDS, budget=200)


@goal('assigning its own timeline changes nothing', budget=100)
def assign_own(cx):
    line = Line(cx, 'real', bool(cx.choose(2, 'in a document?')), animated=bool(cx.choose(2, 'animated?')))
    how, r = run(cx, lambda: cx.interp.setattr(line.value, 'timeline', timeline(cx, line)))
    cx.prove(how == 'ok', 'assigning its own timeline: never fails')
    unchanged(line, 'assigning its own timeline')


def not_waypoints(cx, line):
    """things which aren't waypoints"""
    return [3, SReal(cx.real('x')), S.from_term(cx.str('text')), None, new_T(cx, fps=None), line.value, (1, 2), attr(cx, line.value, 'tag'), True]


def wrong_type(cx, line):
    ks = list(kinds())
    return ks[(ks.index(line.kind) + 1 + cx.choose(2, 'which other type')) % len(ks)]


def refusals(cx, kind, doc):
    line = Line(cx, kind, doc, animated=bool(cx.choose(2, 'animated before?')))
    bad = not_waypoints(cx, line)
    if kind != 'real':
        bad = bad[:2]
    good = a_waypoint(cx, line, knows=True)
    F = good[1]
    what = cx.choose(6, 'what') if kind == 'real' else [0, 2, 5][cx.choose(3, 'what')]
    if what == 0:
        # by itself
        arg = bad[cx.choose(len(bad), 'which')]
    elif what == 1:
        arg = (good[0],)
    elif what == 2:
        arg = a_list(cx, [good[0], bad[cx.choose(len(bad), 'which')]])
    elif what == 3:
        arg = a_list(cx, [bad[cx.choose(len(bad), 'which')], good[0]])
    else:
        other, G, _, _, _ = a_waypoint(cx, line, 'other', wrong_type(cx, line), knows=False)
        cx.assume(F != G)
        arg = a_list(cx, [good[0], other] if what == 4 else [other, good[0]])
    tl = timeline(cx, line)
    op = cx.choose(3, 'how')
    if op == 0:
        how, r = attempt(cx, attr(cx, tl, 'add'), arg)
    elif op == 1:
        how, r = attempt(cx, attr(cx, tl, '__iadd__'), arg)
    else:
        how, r = run(cx, lambda: cx.interp.setattr(line.value, 'timeline', arg))
    if op == 0 and what > 3 and how == 'raise' and r is ValueError:
        # it clashes as well
        cx.prove(any(not isinstance(p, Q.Src) and cx.entails(z3.And(B.ISTAG(p), z3.Or(line.time(p) == F, line.time(p) == G))) for p in
                     Q.pieces_of(cx, line.src)), 'what is no waypoint of this type: refused with TypeError')
    else:
        cx.prove(how == 'raise' and r is TypeError, 'what is no waypoint of this type: refused with TypeError', f'{what} {op} {arg} {how} {r}')
    unchanged(line, 'what is refused')
    cx.cover('refused')


per_case('refuse', 'what is not a waypoint of this type is refused, and nothing changes', refusals, KINDS, budget=200, cost=50)


def adding_any(cx, kind, doc):
    line = Line(cx, kind, doc, animated=bool(cx.choose(2, 'animated before?')))
    given = Given(cx, line, line.fps if doc and cx.choose(2, 'do the times know their frame rate?') else None)
    how, r = attempt(cx, attr(cx, timeline(cx, line), 'add'), given.as_list())
    if how == 'raise':
        if not line.animated or line.none_known():
            if not any(not isinstance(p, Q.Src) for p in Q.pieces_of(cx, given.src)):
                # nothing was added to an animated value without waypoints
                return
        cx.prove(r is ValueError, 'adding any number: refused with ValueError', r.__name__)
        known = [[p for p in Q.pieces_of(cx, s) if not isinstance(p, Q.Src)] for s in (line.src, given.src)]
        cx.prove(any(cx.entails(z3.And(B.ISTAG(e), line.time(e) == given.F(g))) for e in known[0] for g in known[1]),
                 'adding any number: refused only if there is a clash')
        unchanged(line, 'adding any number, refused')
        cx.cover('refused')
        return
    if any(not isinstance(p, Q.Src) for p in Q.pieces_of(cx, given.src)) or not line.none_known():
        def old(e):
            def new(g):
                cx.prove(line.time(e) != given.F(g), 'adding any number: clashes are refused')
            for p in Q.pieces_of(cx, given.src):
                if isinstance(p, Q.Src):
                    Q.open_elem(cx, p, new)
                else:
                    new(p)
        line.old(old)
        is_animated(cx, line, 'adding any number')
        expect(line, lambda e: z3.BoolVal(True), [], 'adding any number', others=[Group(given)])
        cx.cover('added')
    surroundings(line, 'adding any number')


per_case('add_any', 'adding any number without overwriting adds all or refuses', adding_any, ['real', 'vector'], budget=200, cost=30)
