from .tl import *
from .c04 import timeline, KINDS

GOALS, goal = goals()
V = 'sangfroid.value.value.'
UNDER_CONTRACT = [V+x for x in ('Value.is_animated', 'Value._set_animated', 'Value._get_empty_tag', 'Value._waypoints', 'Value._set_waypoints',
                                'Timeline.__setitem__', 'Timeline.values', 'Waypoint.tag', 'Waypoint.from_tag')]


def per_case(name, statement, fn, kinds, **kw):
    for kind in kinds:
        for where in ('in_document', 'in_a_tag', 'alone'):
            def g(cx, kind=kind, where=where):
                fn(cx, kind, where == 'in_document', where != 'alone')
            g.__name__ = f'{name}_{kind}_{where}'
            goal(f'{statement} ({kind}, {where.replace("_", " ")})', **kw)(g)


def set_to(cx, line, whether):
    v = [True, 1][cx.choose(2, 'how')] if whether else [False, 0, None][cx.choose(3, 'how')]
    return run(cx, lambda: cx.interp.setattr(line.value, 'is_animated', v))


def turn_on(cx, kind, doc, attached):
    line = Line(cx, kind, doc, attached, animated=False)
    sh = cx.rec(line.tag).sh
    how, r = set_to(cx, line, True)
    cx.prove(how == 'ok', 'animating: never fails', r)
    if how != 'ok':
        return
    cx.prove(truth(cx, attr(cx, line.value, 'is_animated')) is True, 'animating: it is animated')
    tag = attr(cx, line.value, 'tag')
    cx.prove(B.name_of(cx, tag) == 'animated', 'animating: it is animated')
    cx.prove({k: v for k, v in cx.rec(tag).attrs.items() if v is not B.ABSENT} == {'type': kind}, 'animating: the type of the animation')
    tags = tags_in(cx, Q.norm(cx, B.children(cx, tag)))
    cx.prove(len(tags) == 1, 'animating: exactly one waypoint')
    if len(tags) == 1:
        d = line.describe(tags[0])
        cx.prove(d is not None, 'animating: exactly one waypoint')
        if d is not None:
            cx.prove(d[0] == 0, 'animating: the waypoint is at frame zero')
            cx.prove(same_value(cx, d[3], kind, sh), 'animating: the waypoint has the value it had')
    # as the timeline says it
    how, w = run(cx, lambda: cx.interp.getitem(timeline(cx, line), 0))
    cx.prove(how == 'ok', 'animating: the timeline has it at zero')
    if how == 'ok':
        cx.prove(same_value(cx, attr(cx, attr(cx, w, 'value'), 'tag'), kind, sh), 'animating: the waypoint has the value it had')
    surroundings(line, 'animating')
    cx.cover('animated')


def turn_off(cx, kind, doc, attached):
    line = Line(cx, kind, doc, attached, in_order=True)
    how, r = set_to(cx, line, False)
    if line.none_known():
        return
    cx.prove(how == 'ok', 'un-animating: never fails', r)
    if how != 'ok':
        return
    cx.prove(truth(cx, attr(cx, line.value, 'is_animated')) is False, 'un-animating: it is not animated')
    tag = attr(cx, line.value, 'tag')
    sh = cx.rec(tag).sh
    ok = sh is not None and sh.decl().eq(line.val_fn)
    cx.prove(ok and same_value(cx, tag, kind, sh), 'un-animating: it has the value of a waypoint')
    if ok:
        first = sh.arg(0)
        cx.prove(B.ISTAG(first), 'un-animating: it has the value of a waypoint')
        line.old(lambda e: cx.prove(line.time(first) <= line.time(e), 'un-animating: it has the value of the first waypoint'))
    surroundings(line, 'un-animating')
    cx.cover('un-animated')


def no_change(cx, kind, doc, attached):
    animated = bool(cx.choose(2, 'animated?'))
    line = Line(cx, kind, doc, attached, animated=animated)
    how, r = set_to(cx, line, animated)
    cx.prove(how == 'ok', 'setting it to what it is: never fails', r)
    cx.prove(truth(cx, attr(cx, line.value, 'is_animated')) is animated, 'setting it to what it is: keeps it')
    unchanged(line, 'setting it to what it is')
    cx.cover('kept')


def on_and_off(cx, kind, doc, attached):
    line = Line(cx, kind, doc, attached, animated=False)
    sh = cx.rec(line.tag).sh
    cx.interp.setattr(line.value, 'is_animated', True)
    how, r = set_to(cx, line, False)
    cx.prove(how == 'ok', 'on and off again: never fails', r)
    if how != 'ok':
        return
    tag = attr(cx, line.value, 'tag')
    cx.prove(same_value(cx, tag, kind, sh), 'on and off again: the value it had')
    surroundings(line, 'on and off again')
    cx.cover('restored')


per_case('turn_on', 'animating a value gives it one waypoint at zero with that value', turn_on, KINDS)
per_case('turn_off', 'un-animating a value leaves the value of its first waypoint', turn_off, KINDS)
per_case('no_change', 'setting it to what it is changes nothing', no_change, KINDS)
per_case('on_and_off', 'animating and un-animating gives the value it had', on_and_off, KINDS)
