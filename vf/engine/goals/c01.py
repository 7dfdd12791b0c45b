import re
from .lib import *
import itertools

GOALS, goal = goals()
UNDER_CONTRACT = ['sangfroid.t.T.__init__', 'sangfroid.t.T._parse_time_spec', 'sangfroid.t._canvas_root',
                  'sangfroid.t.T.frames', 'sangfroid.t.T.seconds', 'sangfroid.t.T.fps', 'sangfroid.t.T.__int__', 'sangfroid.t.T.__float__']
ASSUMPTIONS = ['the fps of a document is a numeral for a finite number',
               'what is found in a text is defined by the repository\'s own regular expression; a separate goal says what it finds in well-formed texts']
SIZES = {'h': 3600, 'm': 60, 's': 1}


def expected(parts):
    """
    parts: {unit: z3 real}. What the documentation says: (bad sign, seconds, frames),
    where the instant is seconds*fps + frames.
    """
    order = [u for u in 'hmsf' if u in parts]
    bad = []
    for i, u in enumerate(order):
        for w in order[:i]:
            bad.append(z3.And(parts[w] != 0, parts[u] < 0))
    # the sign of the whole is that of the largest non-zero unit
    neg = z3.BoolVal(False)
    for u in reversed(order):
        neg = z3.If(parts[u] != 0, parts[u] < 0, neg)
    mag = lambda z: z3.If(z < 0, -z, z)
    sec = sum([mag(parts[u])*SIZES[u] for u in order if u in SIZES], z3.RealVal(0))
    fr = mag(parts['f']) if 'f' in parts else z3.RealVal(0)
    return (z3.Or(*bad) if bad else z3.BoolVal(False)), z3.If(neg, -sec, sec), z3.If(neg, -fr, fr)


def a_ref(cx, with_ref):
    """(ref argument, fps term or None): no document; or any tag in a document of any frame rate"""
    if not with_ref:
        k = cx.choose(3, 'no document')
        if k == 0:
            return None, None
        tag = B.node(cx, 'tag', base='tag')
        if k == 1:
            return tag, None                     # a tag of its own
        root = B.node(cx, 'tag', base='root')    # a tag within something which isn't an animation
        doc = B.node(cx, 'doc', '[document]', {}, True, base='doc', chunks=(Elem(root),))
        cx.assume(B.NAME(cx.rec(root).sh) != cx.lit('canvas'))
        cx.rec(tag).parent = B.Above('above', (root, doc))
        return tag, None
    fps = cx.real('fps')
    text = cx.str('fpstext')
    cx.assume(S.FVALID(text) == 1)
    cx.assume(S.FNUM(text) == fps)
    root, doc = rootcanvas(cx, attrs={'fps': S.from_term(text)})
    k = cx.choose(4, 'where the ref is')
    if k == 0:
        return root, fps
    tag = B.node(cx, 'tag', base='tag', parent=B.Above('above', (root, doc)))
    if k == 1:
        return tag, fps
    if k == 2:
        # something which has a tag
        class Holder:
            pass
        Holder.__module__ = 'vf.holder'
        return cx.new(InstRec(Holder, {'tag': tag})), fps
    tag = B.node(cx, 'tag', base='tag')
    cx.rec(root).set_chunks((some_before(cx), Elem(tag)))
    cx.rec(tag).parent = root
    return tag, fps


def some_before(cx):
    return B.some_nodes(cx, 'before')


def simple_ref(cx, with_ref):
    if not with_ref:
        return None, None
    fps = cx.real('fps')
    text = cx.str('fpstext')
    cx.assume(S.FVALID(text) == 1)
    cx.assume(S.FNUM(text) == fps)
    root, doc = rootcanvas(cx, attrs={'fps': S.from_term(text)})
    return root, fps


def invariant(cx, t, fps, name):
    a = fields(cx, t)
    cx.prove(isinstance(a.get('_frames'), (float, SReal)), name + ': frames is a float')
    if fps is None:
        cx.prove(a.get('_fps') is None, name + ': no frame rate without a document')
    else:
        cx.prove(is_num(a.get('_fps')) and not isinstance(a['_fps'], (int, SInt)), name + ': frame rate is a float')
        cx.prove(zreal(a['_fps']) == fps, name + ': frame rate is the document\'s')
        cx.prove(fps > 0, name + ': frame rate positive')


def judge(cx, how, r, parts, fps, name, junk=False):
    """how T(text) went, where the text has those parts and nothing else (unless junk)"""
    bad, sec, fr = expected(parts)
    if not parts:
        bad = z3.BoolVal(True)
    if fps is None:
        if any(u in parts for u in SIZES):
            bad = z3.Or(bad, sec != 0, fr != 0)
    else:
        bad = z3.Or(bad, fps <= 0)
    if junk:
        bad = z3.BoolVal(True)
    if how == 'ok':
        cx.prove(z3.Not(bad), f'{name}: accepted only if it is a time')
        want = fr if fps is None else sec*fps + fr
        got = call(cx, T.frames.fget, r)
        cx.prove(zreal(got) == want, f'{name}: denotes the documented instant')
        invariant(cx, r, fps, name)
        cx.cover('accepted')
    else:
        cx.prove(bad, f'{name}: refused only if it is no time', r.__name__)
        cx.prove(r is ValueError, f'{name}: refused with ValueError', r.__name__)
        cx.cover('refused')


########################################################################
# any text at all

PIECE = z3.Function('piece', Node, Str)


def blanks(cx):
    src = Q.Src(cx, 'blanks')
    v = S.from_term(PIECE(src.e0))
    t = S.term(cx, S.strip(cx, v))
    Q.forall(cx, src, src.e0, t == cx.lit(''))
    return Q.full_seg(cx, src, v)


def anything(n, with_ref):
    def g(cx):
        ref, fps = simple_ref(cx, with_ref)
        spec = S.from_term(cx.str('spec'))
        seen = cx.memo.setdefault('seen', [])
        del seen[:]

        def split(cx, pat, v):
            if pat is not sangfroid.t.TIMESPEC_RE:
                return None
            chunks = [blanks(cx)]
            for i in range(min(n, 5)):
                body = cx.str('body')
                k = cx.choose(5, 'unit')
                u = 'hmsf?'[k]
                if u == '?':
                    x = cx.str('piece')
                    p = S.from_term(x)
                    last = S.term(cx, S.apply_fn(cx, 'last', p))
                    cx.assume(S.term(cx, S.strip(cx, p)) != cx.lit(''))
                    cx.assume(x != cx.lit(''))
                    for c in 'hmsf':
                        cx.assume(last != cx.lit(c))
                    cx.assume(last != cx.lit(''))
                    seen.append(('?', None))
                else:
                    p = mkstr([StrAtom(body), u])
                    seen.append((u, body))
                chunks.append(Elem(p))
                chunks.append(blanks(cx))
                if u == '?' or u in [w for w, _ in seen[:-1]]:
                    # whatever else there is
                    break
            else:
                if n <= 4:
                    return cx.new(ListRec(chunks))
            src = Q.Src(cx, 'rest')
            chunks.append(Q.full_seg(cx, src, S.from_term(PIECE(src.e0))))
            return cx.new(ListRec(chunks))
        cx.memo['regex.split'] = split
        how, r = attempt(cx, T, spec, ref)
        if fps is not None and how == 'raise' and not seen and n:
            cx.prove(fps <= 0, 'any text: refused before it is read only if the frame rate is not positive')
            cx.prove(r is ValueError, 'any text: refused with ValueError')
            return
        if n and not seen:
            raise Unsupported('the text is not read with the known regular expression')
        junk = len(seen) > 4 or any(u == '?' for u, _ in seen) or len({u for u, _ in seen}) < len(seen)
        bad = [S.FVALID(b) != 1 for u, b in seen if b is not None]
        parts = {u: S.FNUM(b) for u, b in seen if b is not None}
        for b in [b for u, b in seen if b is not None]:
            cx.axiom(S.FVALID(b) >= 0, S.FVALID(b) <= 3)
        if not junk and bad and cx.branch(z3.Or(*bad)):
            junk = True
        judge(cx, how, r, parts, fps, 'any text', junk)
    return g


for n in range(6):
    for with_ref in (False, True):
        g = anything(n, with_ref)
        g.__name__ = f'any_text_{n}{"_more" if n == 5 else ""}_{"in_document" if with_ref else "alone"}'
        goal(f'every text with {n}{" or more" if n == 5 else ""} non-blank pieces denotes the documented instant, or is refused with ValueError exactly when it should be',
             max_paths=20000, budget=200)(g)


########################################################################
# what the regular expression finds

def arrangements():
    for k in range(1, 5):
        yield from itertools.permutations('hmsf', k)


def wellformed(first):
    def g(cx):
        ref, fps = simple_ref(cx, True)
        arr = [a for a in arrangements() if a[0] == first]
        a = arr[cx.choose(len(arr), 'order of units')]
        sep = ['', ' ', ' \t '][cx.choose(3, 'spaces')]
        signed = cx.choose(len(a)+1, 'which is negative') - 1
        parts = {}
        rope = []
        for i, u in enumerate(a):
            z = cx.real('v_' + u)
            cx.assume(z >= 0)
            if rope:
                rope.append(sep)
            if i == signed:
                rope.append('-')
            rope.append(NumAtom('num', z))
            rope.append(u)
            parts[u] = -z if i == signed else z
        if cx.choose(2, 'spaces around it'):
            rope = [' '] + rope + ['\n']
        how, r = attempt(cx, T, mkstr(rope), ref)
        judge(cx, how, r, parts, fps, 'well-formed text')
    return g


for u in 'hmsf':
    g = wellformed(u)
    g.__name__ = f'wellformed_{u}_first'
    goal(f'every text made of numerals with units, beginning with {u}, in any order and spacing, denotes the documented instant',
         max_paths=20000, budget=200)(g)


########################################################################
# references, numbers and other times

@goal('the frame rate is found from any tag of a document, or anything which has one; and only from documents')
def reference(cx):
    with_ref = bool(cx.choose(2, 'is there a document?'))
    ref, fps = a_ref(cx, with_ref)
    x = cx.real('frames')
    cx.assume(x >= 0)
    if fps is not None:
        cx.assume(fps > 0)
    how, r = attempt(cx, T, SReal(x), ref)
    cx.prove(how == 'ok', 'reference: accepted', r)
    if how == 'ok':
        invariant(cx, r, fps, 'reference')
        p = call(cx, T.fps.fget, r)
        if fps is None:
            cx.prove(p is None, 'reference: reports no frame rate')
        else:
            cx.prove(zreal(p) == fps, 'reference: reports the frame rate')
        cx.prove(zreal(attr(cx, r, 'frames')) == x, 'reference: the number of frames')
        cx.cover('with document' if with_ref else 'without')


PARSE = z3.Function('parse', Str, z3.RealSort(), z3.RealSort())
_PARSES = z3.Function('parses', Str, z3.RealSort(), z3.BoolSort())


def PARSES(t, fps):
    return z3.And(_PARSES(t, fps), t != z3.Const('lit:', Str))


def literal_time(cx, s, t, fps):
    """what a text such as "1m 5s" means, by the goals about texts of that form"""
    if re.fullmatch(r'\d+(\.\d+)?[hmsf]( \d+(\.\d+)?[hmsf])*', s):
        unit = {'h': fps*3600, 'm': fps*60, 's': fps, 'f': z3.RealVal(1)}
        cx.axiom(PARSES(t, fps), PARSE(t, fps) == z3.Sum(*[z3.RealVal(x[:-1])*unit[x[-1]] for x in s.split()]))


def parse_contract(cx, args, kw):
    """
    T._parse_time_spec of a text we know nothing of: by any_text, it's a
    function of the text and the frame rate, or ValueError
    """
    self, s = args
    if not S.is_str(s):
        raise Unsupported('parsing something other than a text')
    fps = fields(cx, self)['_fps']
    t = S.term(cx, s)
    z = z3.RealVal(-1) if fps is None else zreal(fps)
    if isinstance(s, str) and fps is not None:
        literal_time(cx, s, t, z)
    if not cx.branch(PARSES(t, z)):
        raise PyRaise(ValueError, ())
    return SReal(PARSE(t, z))


@goal('a number denotes that many frames; if it is negative, it counts back from the end; without a document that is refused')
def numbers(cx):
    with_ref = bool(cx.choose(2, 'is there a document?'))
    ref, fps = simple_ref(cx, with_ref)
    v = SInt(cx.int('n')) if cx.choose(2, 'an int?') else SReal(cx.real('x'))
    z = zreal(v)
    if with_ref:
        b, e = cx.str('begin'), cx.str('end')
        root = cx.rec(ref)
        root.attrs['begin-time'] = S.from_term(b)
        root.attrs['end-time'] = S.from_term(e)
        cx.assume(z3.And(PARSES(b, fps), PARSES(e, fps)))
        cx.interp.contracts['sangfroid.t.T._parse_time_spec'] = parse_contract
    how, r = attempt(cx, T, v, ref)
    if how == 'raise':
        cx.prove(r is ValueError, 'a number: refused with ValueError', r.__name__)
        if with_ref:
            cx.prove(fps <= 0, 'a number: refused only for a bad frame rate')
        else:
            cx.prove(z < 0, 'a number: refused without a document only if negative')
        cx.cover('refused')
        return
    want = z
    if with_ref:
        want = z3.If(z < 0, PARSE(e, fps) - PARSE(b, fps) + 1 + z, z)
        cx.prove(fps > 0, 'a number: the frame rate is positive')
    else:
        cx.prove(z >= 0, 'a number: not negative without a document')
    cx.prove(zreal(attr(cx, r, 'frames')) == want, 'a number: denotes that frame')
    invariant(cx, r, fps, 'a number')
    cx.cover('accepted')


@goal('a time made from another time is that same time')
def from_time(cx):
    with_ref = bool(cx.choose(2, 'is there a document?'))
    ref, fps = simple_ref(cx, with_ref)
    t = new_T(cx)
    old = dict(fields(cx, t))
    how, r = attempt(cx, T, t, ref)
    if how == 'raise':
        cx.prove(r is ValueError, 'from a time: refused with ValueError', r.__name__)
        cx.prove(fps <= 0 if with_ref else False, 'from a time: refused only for a bad frame rate')
        return
    cx.prove(zreal(attr(cx, r, 'frames')) == old['_frames'].z, 'from a time: the same instant')
    p = attr(cx, r, 'fps')
    if with_ref:
        cx.prove(is_num(p) and zreal(p) == fps, 'from a time: the frame rate of the document')
    elif old['_fps'] is None:
        cx.prove(p is None, 'from a time: no frame rate')
    else:
        cx.prove(is_num(p) and zreal(p) == old['_fps'].z, 'from a time: its frame rate')
    cx.prove(all(Q.same(old[k], fields(cx, t)[k]) for k in old), 'from a time: which does not change')
    cx.cover('made')


@goal('the seconds, the integer and the float of a time')
def views(cx):
    t = new_T(cx)
    f, p = fields(cx, t)['_frames'].z, fields(cx, t)['_fps']
    how, r = run(cx, lambda: attr(cx, t, 'seconds'))
    if p is None:
        if how == 'ok':
            cx.prove(z3.And(f == 0, zreal(r) == 0), 'seconds: without a frame rate, only zero')
        else:
            cx.prove(z3.And(z3.BoolVal(r is ValueError), f != 0), 'seconds: ValueError without a frame rate')
    elif how == 'ok':
        cx.prove(zreal(r)*p.z == f, 'seconds: frames divided by the frame rate')
    else:
        cx.prove(False, 'seconds: known with a frame rate')
    how, r = attempt(cx, int, t)
    cx.prove(how == 'ok', 'int: never fails')
    if how == 'ok':
        n = zint(r)
        cx.prove(z3.If(f >= 0, z3.And(z3.ToReal(n) <= f, f < z3.ToReal(n)+1), z3.And(z3.ToReal(n) >= f, f > z3.ToReal(n)-1)),
                 'int: the frames, truncated')
    how, r = attempt(cx, float, t)
    cx.prove(how == 'ok' and zreal(r) == f, 'float: the frames')
    cx.cover('all')
