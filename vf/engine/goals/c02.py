from .lib import *
from .c01 import simple_ref

GOALS, goal = goals()
UNDER_CONTRACT = ['sangfroid.t.T.__str__', 'sangfroid.t.T._format_frames', 'sangfroid.t.T.__init__', 'sangfroid.t.T._parse_time_spec']
MILLIONTH = z3.RealVal('1/1000000')


def whole_seconds(cx, s, F, P, negative, also):
    """a lemma, if true: the hours, minutes and seconds written are together the whole seconds of the time"""
    ps = S.parts_of(s)
    n = z3.RealVal(0)
    for a, u in zip(ps, ps[1:]):
        if isinstance(a, NumAtom) and isinstance(u, str) and u[0] in 'hms':
            n = n + a.val*{'h': 3600, 'm': 60, 's': 1}[u[0]]
    q = cx.interp.div(F, P)
    if negative:
        q = -q
    k = z3.ToReal(cx.interp.floor(q))
    if cx.entails(n == k):
        cx.hold(z3.simplify(n*P) == k*P)
        if cx.entails(also == P):
            # the same, of the same number by another name
            cx.hold(z3.simplify(n*also) == k*P)
            cx.hold(z3.simplify(also*n, som=True) == k*P)


def back(cx, fps, whole, which):
    cx.linear()
    F = cx.real('frames')
    if which == 'negative':
        cx.assume(F < 0)
    elif which == 'positive':
        cx.assume(F >= 0)
    if whole:
        n = cx.int('n')
        F = z3.ToReal(n)
        cx.assume(n < 0 if which == 'negative' else n >= 0)
    if fps is None:
        ref = None
        t = cx.new(InstRec(T, {'_frames': SReal(F), '_fps': None}))
    else:
        if whole:
            pn = cx.int('p')
            P = z3.ToReal(pn)
            cx.assume(pn > 0)
        else:
            P = cx.real('fps')
            cx.assume(P > 0)
        text = cx.str('fpstext')
        cx.assume(S.FVALID(text) == 1)
        cx.assume(S.FNUM(text) == P)
        ref, doc = rootcanvas(cx, attrs={'fps': S.from_term(text)})
        t = cx.new(InstRec(T, {'_frames': SReal(F), '_fps': SReal(P) if fps == 'some' else None}))
    how, s = attempt(cx, str, t)
    cx.prove(how == 'ok', 'writing: never fails', s)
    if how != 'ok':
        return
    cx.prove(S.is_str(s), 'writing: gives a text')
    if fps == 'some':
        whole_seconds(cx, s, F, P, which == 'negative', S.FNUM(text))
    how, r = attempt(cx, T, s, ref)
    cx.prove(how == 'ok', 'reading back: accepted', f'{s!r} {r}')
    if how != 'ok':
        return
    G = zreal(attr(cx, r, 'frames'))
    if whole:
        cx.prove(G == F, 'reading back: whole numbers exactly', repr(s))
    else:
        cx.prove(z3.And(G - F <= MILLIONTH, F - G <= MILLIONTH), 'reading back: to a millionth of a frame', repr(s))
    cx.cover('read back')


for sign in ('negative', 'positive'):
    for whole in (False, True):
        for fps in (None, 'some', 'elsewhere'):
            def g(cx, sign=sign, whole=whole, fps=fps):
                back(cx, fps, whole, sign)
            g.__name__ = f'roundtrip_{sign}_{"whole" if whole else "any"}_{dict(some="fps", elsewhere="nofps_in_document").get(fps, "nofps")}'
            goal(f'the text of every {sign} time ({"whole numbers" if whole else "any number"} of frames, {dict(some="any", elsewhere="no").get(fps, "no")} frame rate{", read in a document of any" if fps == "elsewhere" else ""}) reads back as that time',
                 budget=240, timeout_ms=20000)(g)
