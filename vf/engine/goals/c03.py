from .lib import *
import operator

GOALS, goal = goals()
OPS = [('<', operator.lt, 'Lt'), ('<=', operator.le, 'LtE'), ('>', operator.gt, 'Gt'), ('>=', operator.ge, 'GtE'),
       ('==', operator.eq, 'Eq'), ('!=', operator.ne, 'NotEq')]
UNDER_CONTRACT = ['sangfroid.t.T._compare', 'sangfroid.t.T.__lt__', 'sangfroid.t.T.__eq__', 'sangfroid.t.T.__hash__',
                  'functools.total_ordering (its own source)']


def two(cx):
    a, b = new_T(cx, base='a'), new_T(cx, base='b')
    fa, fb = fields(cx, a)['_frames'].z, fields(cx, b)['_frames'].z
    pa, pb = fields(cx, a)['_fps'], fields(cx, b)['_fps']
    if pa is None or pb is None:
        clash = z3.BoolVal(False)
    else:
        clash = z3.And(pa.z != pb.z, fa != 0, fb != 0)
    return a, b, fa, fb, clash


def compare_goal(sym, f, op):
    def g(cx):
        a, b, fa, fb, clash = two(cx)
        how, r = run(cx, lambda: compare(cx, op, a, b))
        if how == 'ok':
            cx.prove(z3.Not(clash), f'{sym} of two times: raises when the frame rates differ')
            prove_bool(cx, truth_value(cx, r), f(fa, fb), f'{sym} of two times: compares their frame counts')
            cx.cover('an answer')
        else:
            cx.prove(clash, f'{sym} of two times: raises only when the frame rates differ', r.__name__)
            cx.prove(r is ValueError, f'{sym} of two times: raises ValueError', r.__name__)
            cx.cover('a refusal')
    return g


def truth_value(cx, r):
    if isinstance(r, (bool, SBool)):
        return r
    return cx.interp.truth(r)


def number_goal(sym, f, op, swapped):
    def g(cx):
        a = new_T(cx, base='a')
        fa = fields(cx, a)['_frames'].z
        if cx.choose(2, 'a float or an int?'):
            n = SInt(cx.int('n'))
        else:
            n = SReal(cx.real('n'))
        zn = zreal(n)
        how, r = run(cx, lambda: compare(cx, op, n, a) if swapped else compare(cx, op, a, n))
        name = f'number {sym} time' if swapped else f'time {sym} number'
        if how == 'ok':
            z = f(zn, fa) if swapped else f(fa, zn)
            prove_bool(cx, truth_value(cx, r), z, f'{name}: compares the frame count')
            cx.cover('an answer')
        else:
            cx.prove(False, f'{name}: never raises', r.__name__)
    return g


for sym, f, op in OPS:
    g = compare_goal(sym, f, op)
    g.__name__ = f'compare_{op}'
    goal(f'for all times a and b, (a {sym} b) is that of their frame counts; or ValueError, exactly if both are non-zero with different known frame rates')(g)
    g = number_goal(sym, f, op, False)
    g.__name__ = f'number_{op}'
    goal(f'for all times a and numbers n, (a {sym} n) is that of the frame count')(g)
    g = number_goal(sym, f, op, True)
    g.__name__ = f'number_swapped_{op}'
    goal(f'for all times a and numbers n, (n {sym} a) is that of the frame count')(g)


@goal('equal times have equal hashes')
def hashes(cx):
    a, b, fa, fb, clash = two(cx)
    how, r = run(cx, lambda: compare(cx, 'Eq', a, b))
    if how == 'ok' and cx.interp.truth(r):
        ha, hb = call(cx, hash, a), call(cx, hash, b)
        cx.prove(cx.interp.eq(ha, hb), 'equal times: equal hashes')
        cx.cover('equal times')


@goal('a time which equals a number has its hash')
def hash_number(cx):
    a = new_T(cx, base='a')
    n = SReal(cx.real('n'))
    how, r = run(cx, lambda: compare(cx, 'Eq', a, n))
    if how == 'ok' and cx.interp.truth(r):
        cx.prove(cx.interp.eq(call(cx, hash, a), call(cx, hash, n)), 'a time equal to a number: equal hashes')
        cx.cover('equal')
