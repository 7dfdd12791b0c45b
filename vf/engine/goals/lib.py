"""Things goals are made of."""
import z3
from vf.engine.core import *
from vf.engine import strings as S, seqs as Q, soup as B
from vf.engine.seqs import Elem, Seg, Bag
from vf.engine.interp import ListRec, DictRec, Opaque, Slice
from vf.engine.goal import goals

import sangfroid
from sangfroid.t import T


def call(cx, fn, *args, **kw):
    return cx.interp.call(fn, list(args), kw)


def attempt(cx, fn, *args, **kw):
    """('ok', result) or ('raise', exception class)"""
    try:
        return 'ok', cx.interp.call(fn, list(args), kw)
    except PyRaise as e:
        # the frames of what raised it are gone
        return 'raise', e.cls


def run(cx, fn):
    """the same, for anything"""
    try:
        return 'ok', fn()
    except PyRaise as e:
        return 'raise', e.cls


def attr(cx, obj, name):
    return cx.interp.getattr(obj, name)


def truth(cx, v):
    return cx.interp.truth(v)


def real(cx, base='x'):
    return SReal(cx.real(base))


def new_T(cx, frames=None, fps='maybe', base='t'):
    """any T at all: an instance which satisfies the invariant proved of the constructor"""
    f = frames if frames is not None else cx.real(base + '_frames')
    if fps == 'maybe':
        fps = 'some' if cx.choose(2, 'does it know its fps?') else None
    if fps == 'some':
        p = cx.real(base + '_fps')
        cx.assume(p > 0)
        fps = SReal(p)
    return cx.new(InstRec(T, {'_frames': SReal(f), '_fps': fps}))


def fields(cx, ref):
    return cx.rec(ref).attrs


def prove_bool(cx, v, z, name):
    """that v, which Python got, is the truth of z"""
    if isinstance(v, bool):
        cx.prove(z if v else z3.Not(z), name)
    elif isinstance(v, SBool):
        cx.prove(v.z == z, name)
    else:
        cx.prove(False, name, f'not a bool: {v!r}')


def rootcanvas(cx, fps=None, attrs=None, chunks=None):
    """(root canvas, document) of some file; fps may be a value"""
    root = B.node(cx, 'tag', 'canvas', attrs or {}, base='root', chunks=chunks)
    doc = B.node(cx, 'doc', '[document]', {}, True, base='doc', chunks=(Elem(root),))
    return root, doc


def compare(cx, op, a, b):
    import ast
    return cx.interp.compare(getattr(ast, op)(), a, b)


########################################################################
# representations: what the goals which make objects directly rely on

def needs(cls, made, keys):
    """
    Goals which make an instance directly rely on its fields. If they're
    otherwise in this tree, that's out of reach, and not a mistake in it.
    """
    if set(vars(made)) != set(keys):
        raise Unsupported(f'{cls.__name__} is represented by {sorted(vars(made))}')


def check_shapes():
    import sangfroid.value as v
    from sangfroid.value.value import Waypoint
    needs(T, T(0), ['_frames', '_fps'])
    needs(v.Real, v.Real(1.0), ['_tag'])
    needs(Waypoint, Waypoint(T(0), v.Real(1.0)), ['time', '_before', '_after', 'value'])


def kinds():
    """name of tag -> class, for the documented types of value"""
    import sangfroid.value as v
    return {'real': v.Real, 'integer': v.Integer, 'bool': v.Bool, 'angle': v.Angle, 'time': v.Time,
            'string': v.String, 'color': v.Color, 'vector': v.Vector, 'gradient': v.Gradient}


def pick_kind(cx):
    ks = list(kinds().items())
    return ks[cx.choose(len(ks), 'type of value')]


def value_of(cx, cls, tag):
    """the library value for a tag"""
    return call(cx, cls, tag)


def fps_ref(cx, positive=True):
    """(root, doc, fps term): a document of any frame rate"""
    fps = cx.real('fps')
    text = cx.str('fpstext')
    cx.assume(S.FVALID(text) == 1)
    cx.assume(S.FNUM(text) == fps)
    if positive:
        cx.assume(fps > 0)
        cx.memo.setdefault('fps_terms', []).append(S.FNUM(text))
    root, doc = rootcanvas(cx, attrs={'fps': S.from_term(text)})
    return root, doc, fps


def same_contents(cx, a, b):
    """
    Whether two nodes certainly have the same name, attributes and contents,
    by structure: a host bool, or Unsupported if it isn't plain.
    """
    ra, rb = cx.rec(a), cx.rec(b)
    if a == b:
        return True
    if ra.kind != rb.kind:
        return False
    same_sh = ra.sh is not None and rb.sh is not None and ra.sh.eq(rb.sh)
    if ra.kind == 'text' or ra.text is not None or rb.text is not None:
        return eqv(cx, B.text_of(cx, a), B.text_of(cx, b))
    na = ra.name if ra.name is not None else ('f', None if same_sh else ra.sh)
    nb = rb.name if rb.name is not None else ('f', None if same_sh else rb.sh)
    if not eqv(cx, na, nb):
        return False
    if ra.known != rb.known or not ra.known and not same_sh:
        return False
    keys = set(ra.attrs) | set(rb.attrs)
    for k in keys:
        def get(r, k):
            if k in r.attrs:
                return r.attrs[k]
            return B.ABSENT if r.known else ('f', None if same_sh else r.sh)
        if not eqv(cx, get(ra, k), get(rb, k)):
            return False
    if ra._chunks is None and rb._chunks is None:
        return same_sh
    ca = Q.norm(cx, B.children(cx, a))
    cb = Q.norm(cx, B.children(cx, b))
    return same_chunk_contents(cx, ca, cb)


def same_chunk_contents(cx, ca, cb):
    if len(ca) != len(cb):
        return False
    for x, y in zip(ca, cb):
        if type(x) is not type(y):
            return False
        if isinstance(x, Elem):
            if not same_contents(cx, x.v, y.v):
                return False
        elif isinstance(x, Seg):
            if x.src is not y.src or x.rev != y.rev or len(x.paths) != len(y.paths):
                return False
            for p, q in zip(x.paths, y.paths):
                if len(p.conds) != len(q.conds) or not all(c.eq(d) for c, d in zip(p.conds, q.conds)):
                    return False
                if not same_chunk_contents(cx, p.values, q.values):
                    return False
        else:
            raise Unsupported('comparing bags')
    return True


def eqv(cx, a, b):
    """equal, by form or according to the solver"""
    if Q.same(a, b):
        return True
    if S.is_str(a) and S.is_str(b):
        v = cx.interp.eq(a, b)
        return v if isinstance(v, bool) else cx.entails(v.z)
    return False


def texts(cx, name='texts'):
    """any number of texts"""
    return B.some_nodes(cx, name, kind='text')


def value_tag(cx, kind, base='value', parent=None, sh=None):
    """the tag of any un-animated value of that type; a vector has to have its members"""
    if kind != 'vector':
        return B.node(cx, 'tag', kind, base=base, parent=parent, sh=sh)
    kids = [texts(cx)]
    for f in 'xy':
        kids += [Elem(B.node(cx, 'tag', f, base=base + '_' + f)), texts(cx)]
    return B.node(cx, 'tag', kind, base=base, parent=parent, chunks=tuple(kids), sh=sh)


def is_kind(cx, v, cls):
    """whether a library value is of that class"""
    c = cx.rec(v).cls
    return isinstance(c, type) and issubclass(c, cls)
