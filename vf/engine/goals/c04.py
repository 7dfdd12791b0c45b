from .tl import *

GOALS, goal = goals()
V = 'sangfroid.value.value.'
UNDER_CONTRACT = [V+x for x in ('Timeline.__getitem__', 'Timeline.__setitem__', 'Timeline.__delitem__', 'Timeline.__iter__', 'Timeline.__len__',
                                'Timeline.keys', 'Timeline.values', 'Timeline.items', 'Timeline._ensure_fps', 'Value._waypoints',
                                'Value._waypoint_tags', 'Value._set_waypoints', 'Value._set_animated', 'Waypoint.tag', 'Waypoint.from_tag')]
KINDS = ['real', 'integer', 'bool', 'angle', 'time', 'string', 'color', 'vector', 'gradient']


def timeline(cx, line):
    return attr(cx, line.value, 'timeline')


def per_case(name, statement, fn, kinds, animated=True, keys=True, **kw):
    """
    A goal for each type of value, and in a document or in none. How the
    instant is written is independent of the type of the values, but both
    are gone through where there's time: all notations for the first type,
    and a T for the others.
    """
    for kind in kinds:
        notations = NOTATIONS if keys and kind == kinds[0] else ['T'] if keys else [None]
        for doc in (True, False):
            for notation in notations:
                def g(cx, kind=kind, doc=doc, notation=notation):
                    line = Line(cx, kind, doc, animated=animated)
                    line.notation = notation
                    fn(cx, line)
                g.__name__ = f'{name}_{kind}_{"in_document" if doc else "alone"}' + (f'_by_{notation}' if notation else '')
                goal(f'{statement} ({kind}, {"in a document" if doc else "in no document"}' + (f', key: {notation}' if notation else '') + ')',
                     **kw)(g)


def lookup(cx, line):
    key, K = line.a_key()
    tl = timeline(cx, line)
    how, w = run(cx, lambda: cx.interp.getitem(tl, key))
    if how == 'raise':
        cx.prove(w is KeyError, 'looking up: a missing instant raises KeyError', w.__name__)
        line.old(lambda e: cx.prove(line.time(e) != K, 'looking up: KeyError only if it is missing'))
        cx.cover('missing')
    else:
        d = waypoint_is(line, w)
        cx.prove(d[0] == K, 'looking up: finds the waypoint of that instant')
        cx.cover('found')
    unchanged(line, 'looking up')


def waypoint_is(line, w):
    """obligations: w is one of the original waypoints. Returns (time, ...) """
    cx = line.cx
    t = zreal(attr(cx, attr(cx, w, 'time'), 'frames'))
    v = attr(cx, w, 'value')
    sh = cx.rec(attr(cx, v, 'tag')).sh
    ok = sh is not None and sh.decl().eq(line.val_fn)
    cx.prove(ok, 'a waypoint found: its value is that of a waypoint')
    if ok:
        e = sh.arg(0)
        cx.prove(t == line.time(e), 'a waypoint found: its time')
        cx.prove(z3.And(S.term(cx, attr(cx, w, 'before')) == line.interp(e, 'before'), S.term(cx, attr(cx, w, 'after')) == line.interp(e, 'after')),
                 'a waypoint found: its interpolations')
        cx.prove(same_value(cx, attr(cx, v, 'tag'), line.kind, sh), 'a waypoint found: its value')
        return t, e
    return t, None



def a_new(cx, line):
    """
    (what to assign, before, after, tag of the same contents as the value):
    a waypoint, a value, or a plain number
    """
    n = 3 if line.kind == 'real' else 2
    k = cx.choose(n, 'what is assigned')
    if k == 2:
        x = SReal(cx.real('new'))
        return x, 'clamped', 'clamped', attr(cx, call(cx, line.cls, x), 'tag')
    tag = value_tag(cx, line.kind, 'new')
    v = call(cx, line.cls, tag)
    if k == 1:
        return v, 'clamped', 'clamped', tag
    b, a = cx.str('b'), cx.str('a')
    for t in (b, a):
        cx.assume(z3.Or(*[t == cx.lit(c) for c in CANON]))
    # its own time is any, and is to be replaced
    fps = SReal(line.fps) if line.in_doc and cx.choose(2, 'does its own time know its frame rate?') else None
    w = call(cx, Waypoint, new_T(cx, fps=fps), v, S.from_term(b), S.from_term(a))
    return w, canon_term(cx, b), canon_term(cx, a), tag


def lit(cx, x):
    return cx.lit(x) if isinstance(x, str) else x


def setting(cx, line):
    key, K = line.a_key()
    new, b, a, vtag = a_new(cx, line)
    vfields = cx.rec(vtag).fields()
    tl = timeline(cx, line)
    how, r = run(cx, lambda: cx.interp.setitem(tl, key, new))
    cx.prove(how == 'ok', 'setting an entry: never fails', r)
    if how != 'ok':
        return
    cx.prove(truth(cx, attr(cx, line.value, 'is_animated')) is True, 'setting an entry: the value is animated')
    tag = attr(cx, line.value, 'tag')
    cx.prove(B.name_of(cx, tag) == 'animated', 'setting an entry: the value is animated')
    cx.prove({k: v for k, v in cx.rec(tag).attrs.items() if v is not B.ABSENT} == {'type': line.kind}, 'setting an entry: the type of the animation')
    expect(line, lambda e: line.time(e) != K, [(K, lit(cx, b), lit(cx, a), vtag)], 'setting an entry')
    surroundings(line, 'setting an entry')
    cx.prove(all(Q.same(vfields.get(k), v) for k, v in cx.rec(vtag).fields().items() if k != 'chunks'), 'setting an entry: the value given is left alone')
    cx.cover('set')


def deleting(cx, line):
    key, K = line.a_key()
    tl = timeline(cx, line)
    how, r = run(cx, lambda: cx.interp.delitem(tl, key))
    if how == 'raise':
        cx.prove(r is KeyError, 'deleting: a missing instant raises KeyError', r.__name__)
        line.old(lambda e: cx.prove(line.time(e) != K, 'deleting: KeyError only if it is missing'))
        unchanged(line, 'deleting a missing entry')
        cx.cover('missing')
        return
    tag = attr(cx, line.value, 'tag')
    if B.name_of(cx, tag) == 'animated':
        expect(line, lambda e: line.time(e) != K, [], 'deleting an entry')
        # there was one
        cx.prove(any(not isinstance(p, Q.Src) and cx.entails(z3.And(B.ISTAG(p), line.time(p) == K)) for p in Q.pieces_of(cx, line.src)),
                 'deleting an entry: there was one')
        cx.prove(any(not isinstance(p, Q.Src) and cx.entails(z3.And(B.ISTAG(p), line.time(p) != K)) for p in Q.pieces_of(cx, line.src)),
                 'deleting an entry: still animated only if there are others')
        cx.cover('deleted')
    else:
        line.old(lambda e: cx.prove(line.time(e) == K, 'deleting the last entry: un-animated only if there are no others'))
        sh = cx.rec(tag).sh
        ok = sh is not None and sh.decl().eq(line.val_fn)
        cx.prove(ok and same_value(cx, tag, line.kind, sh), 'deleting the last entry: leaves its value')
        if ok:
            cx.prove(line.time(sh.arg(0)) == K, 'deleting the last entry: leaves its value')
        cx.prove(truth(cx, attr(cx, line.value, 'is_animated')) is False, 'deleting the last entry: un-animated')
        cx.cover('last')
    surroundings(line, 'deleting an entry')


def one_each(line, chunks, check, which, what):
    """
    obligation: the sequence has one value for each waypoint, and nothing
    else; check(value, e). which(value) is a term which says whose it is.
    """
    cx = line.cx
    flat = []
    for c in Q.norm(cx, chunks):
        flat.extend(c.flat() if isinstance(c, Bag) else [c])
    elems = [c.v for c in flat if isinstance(c, Elem)]
    pieces = Q.pieces_of(cx, line.src)
    for p in pieces:
        if isinstance(p, Q.Src):
            def on(e):
                vals = []
                for c in flat:
                    if isinstance(c, Seg) and c.src is p:
                        vals += Q.seg_elem(cx, c, e)
                want = cx.branch(B.ISTAG(e))
                cx.prove(len(vals) == (1 if want else 0) and all(isinstance(v, Elem) for v in vals), f'{what}: one for each waypoint')
                if vals and want:
                    check(vals[0].v, e)
            Q.open_elem(cx, p, on)
        else:
            mine = [v for v in elems if which(v) is not None and cx.entails(which(v) == line.time(p))]
            want = cx.branch(B.ISTAG(p))
            cx.prove(len(mine) == (1 if want else 0), f'{what}: one for each waypoint')
            for v in mine:
                elems.remove(v)
                check(v, p)
    cx.prove(not elems, f'{what}: nothing else')
    for c in flat:
        if isinstance(c, Seg) and not any(c.src is p for p in pieces):
            cx.prove(not any(p.values for p in c.paths), f'{what}: nothing else')


def views(cx, line):
    tl = timeline(cx, line)

    def is_time(t, e):
        cx.prove(zreal(attr(cx, t, 'frames')) == line.time(e), 'the keys are the instants')

    def is_waypoint(w, e):
        t, x = waypoint_is(line, w)
        cx.prove(x is not None and x.eq(e), 'the values are the waypoints')

    def is_item(p, e):
        cx.prove(isinstance(p, tuple) and len(p) == 2, 'the items are pairs')
        is_time(p[0], e)
        is_waypoint(p[1], e)
    it = cx.interp

    def by_time(t):
        return zreal(attr(cx, t, 'frames')) if isinstance(t, Ref) and isinstance(cx.rec(t), InstRec) and cx.rec(t).cls is T else None

    def by_waypoint(w):
        return by_time(attr(cx, w, 'time')) if isinstance(w, Ref) and isinstance(cx.rec(w), InstRec) and cx.rec(w).cls is Waypoint else None

    def by_first(p):
        return by_time(p[0]) if isinstance(p, tuple) else None
    k = cx.choose(5, 'which view')
    if k == 0:
        one_each(line, it.chunks(call(cx, attr(cx, tl, 'keys'))), is_time, by_time, 'keys')
    elif k == 1:
        one_each(line, it.chunks(call(cx, attr(cx, tl, 'values'))), is_waypoint, by_waypoint, 'values')
    elif k == 2:
        one_each(line, it.chunks(call(cx, attr(cx, tl, 'items'))), is_item, by_first, 'items')
    elif k == 3:
        one_each(line, it.chunks(tl), is_waypoint, by_waypoint, 'iteration')
    else:
        n = call(cx, len, tl)
        from vf.engine.interp import SLen
        if isinstance(n, SLen):
            def what(v):
                if isinstance(v, tuple):
                    return by_first(v)
                t = by_time(v)
                return t if t is not None else by_waypoint(v)
            one_each(line, n.chunks, lambda v, e: None, what, 'length')
        else:
            m = 0
            for p in Q.pieces_of(cx, line.src):
                if isinstance(p, Q.Src):
                    Q.open_elem(cx, p, lambda e: cx.prove(z3.Not(B.ISTAG(e)), 'length: the number of waypoints'))
                elif cx.branch(B.ISTAG(p)):
                    m += 1
            cx.prove(n == m, 'length: the number of waypoints')
    unchanged(line, 'looking')
    cx.cover('looked')


def emptiness(cx, line):
    tl = timeline(cx, line)
    r = truth(cx, tl)
    if r:
        cx.prove(any(not isinstance(p, Q.Src) and cx.entails(B.ISTAG(p)) for p in Q.pieces_of(cx, line.src)), 'true only if there are waypoints')
        cx.cover('some')
    else:
        line.old(lambda e: cx.prove(False, 'false only if there are no waypoints'))
        cx.cover('none')
    unchanged(line, 'looking')


def static(cx, line):
    tl = timeline(cx, line)
    for f in ('keys', 'values', 'items'):
        cx.prove(len(cx.interp.concrete(call(cx, attr(cx, tl, f)))) == 0, 'an un-animated value has no waypoints')
    cx.prove(len(cx.interp.concrete(tl)) == 0 and call(cx, len, tl) == 0, 'an un-animated value has no waypoints')
    key, K = line.a_key()
    how, r = run(cx, lambda: cx.interp.getitem(tl, key))
    cx.prove(how == 'raise' and r is KeyError, 'an un-animated value has no waypoints: KeyError')
    how, r = run(cx, lambda: cx.interp.delitem(tl, key))
    cx.prove(how == 'raise' and r is KeyError, 'an un-animated value has no waypoints: KeyError')
    cx.prove(attr(cx, line.value, 'tag') == line.tag, 'looking: nothing changes')
    cx.prove(cx.rec(line.tag).name == line.kind and not cx.rec(line.tag).attrs and not cx.rec(line.tag).known, 'looking: nothing changes')
    surroundings(line, 'looking')
    cx.cover('looked')


per_case('lookup', 'looking an instant up finds the waypoint there, or raises KeyError exactly if there is none', lookup, KINDS, budget=100)
per_case('setting', 'setting an entry makes that instant map to the value given, leaves the others, and keeps them in order', setting, KINDS, budget=100)
per_case('deleting', 'deleting removes exactly that entry, and the last one leaves its value', deleting, KINDS, budget=100)
per_case('views', 'length, iteration, keys, values and items have one for each waypoint', views, KINDS, keys=False, budget=100)
per_case('emptiness', 'a timeline is true exactly if there are waypoints', emptiness, ['real'], keys=False, budget=100)
per_case('setting_static', 'setting an entry of an un-animated value animates it, with that entry alone', setting, KINDS, animated=False, budget=100)
per_case('static', 'an un-animated value has no waypoints', static, KINDS, animated=False, budget=100)
