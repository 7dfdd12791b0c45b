"""Timelines of any length, for C04 to C06."""
from .lib import *
from .c01 import PARSE, PARSES, parse_contract
from .c07 import CANON, canon_term, interpolation_contract
import sangfroid.value as sv
from sangfroid.value.value import Waypoint, Value, Timeline


NOTATIONS = ['whole', 'real', 'text', 'T']


class Line:
    """
    An animated value of some type: <animated> with any number of waypoints,
    all well-formed and at different times, in any order, with any texts
    between and in them; in a document of any frame rate, or in none.
    """
    def __init__(self, cx, kind, doc, attached=True, animated=True, in_order=False, within=None):
        self.cx = cx
        self.kind = kind
        self.cls = kinds()[kind]
        cx.interp.contracts['sangfroid.t.T._parse_time_spec'] = parse_contract
        cx.interp.contracts['sangfroid.value.value.Waypoint._check_interpolation_type'] = interpolation_contract
        check_shapes()
        if doc:
            self.root, self.doc, self.fps = fps_ref(cx)
            self.z = self.fps
            b, e = cx.str('begin'), cx.str('end')
            self.b, self.e = b, e
            cx.rec(self.root).attrs.update({'begin-time': S.from_term(b), 'end-time': S.from_term(e)})
            cx.assume(z3.And(PARSES(b, self.fps), PARSES(e, self.fps)))
            above = B.Above('above', (self.root, self.doc))
        elif within is not None:
            # it'll be put into that document
            self.root, self.doc, self.fps = within
            self.z = self.fps
            above = None
        else:
            self.root, self.fps = None, None
            self.z = z3.RealVal(-1)
            above = None
        self.in_doc = doc
        src = Q.Src(cx, 'waypoints')
        self.src = src
        cx.memo.setdefault('generics', {})[src.e0.get_id()] = src.e0
        e = src.e0
        cx.generic = [e]
        val = value_tag(cx, kind, 'val')
        self.val_fn = cx.rec(val).sh.decl()
        kids = (texts(cx, 'inner'), Elem(val), texts(cx, 'inner'))
        w = cx.new(B.NodeRec(None, e, e, chunks=kids))
        cx.rec(w).register(cx, w)
        cx.rec(val).parent = w
        for c in kids:
            B.adopt(cx, w, c)
        cx.generic = []
        Q.forall(cx, src, e, self.well_formed(e))
        v1, v2 = z3.Const('tl1', Node), z3.Const('tl2', Node)
        Q.forall_pairs(cx, src, v1, v2, z3.Implies(z3.And(B.ISTAG(v1), B.ISTAG(v2)), self.time(v1) != self.time(v2)))
        if in_order:
            # as they always are in files
            Q.forall_pairs(cx, src, v1, v2, z3.Implies(z3.And(B.ISTAG(v1), B.ISTAG(v2)), self.time(v1) < self.time(v2)))
        seg = Q.full_seg(cx, src, w)
        if animated:
            self.tag = B.node(cx, 'tag', 'animated', {'type': kind}, True, base='animated', chunks=(seg,))
        else:
            # no waypoints at all
            Q.forall(cx, src, e, z3.BoolVal(False))
            self.tag = value_tag(cx, kind, 'static')
        self.animated = animated
        self.attached = doc or attached
        if self.attached:
            self.before, self.after = B.some_nodes(cx, 'before'), B.some_nodes(cx, 'after')
            self.param = B.node(cx, 'tag', base='param', chunks=(self.before, Elem(self.tag), self.after), parent=above)
        else:
            self.param = None
        self.value = call(cx, self.cls, self.tag)
        self.fields0 = cx.rec(self.tag).fields()

    def time(self, e):
        return PARSE(B.ATTR('time')(e), self.z)

    def interp(self, e, which):
        """the canonical interpolation of an element: a term"""
        return canon_term(self.cx, B.ATTR(which)(e))

    def well_formed(self, e):
        cx = self.cx
        names = [z3.Or(*[B.ATTR(k)(e) == cx.lit(c) for c in CANON]) for k in ('before', 'after')]
        return z3.Implies(B.ISTAG(e), z3.And(B.NAME(e) == cx.lit('waypoint'), B.HAS('time')(e), B.HAS('before')(e), B.HAS('after')(e),
                                             PARSES(B.ATTR('time')(e), self.z), *names))

    def exists(self, e):
        return B.ISTAG(e)

    def none_known(self):
        """whether none is known to exist"""
        return not any(not isinstance(p, Q.Src) and self.cx.entails(B.ISTAG(p)) for p in Q.pieces_of(self.cx, self.src))

    def describes(self, e):
        return self.time(e), self.interp(e, 'before'), self.interp(e, 'after')

    # -- what there was
    def old(self, fn):
        """fn(e) for every waypoint there was: known elements, and a generic one of each leaf"""
        cx = self.cx
        for p in Q.pieces_of(cx, self.src):
            if isinstance(p, Q.Src):
                def g(e):
                    cx.assume(B.ISTAG(e))
                    fn(e)
                Q.open_elem(cx, p, g)
            else:
                def g(p=p):
                    cx.assume(B.ISTAG(p))
                    fn(p)
                cx.nested(g)

    # -- keys
    def a_key(self, how=None):
        """(argument, its instant as a term): any notation for a time which means something here"""
        cx = self.cx
        how = how or getattr(self, 'notation', None)
        k = NOTATIONS.index(how) if how is not None else cx.choose(4, 'notation')
        if k == 0:
            n = cx.int('key')
            z = z3.ToReal(n)
            v = SInt(n)
        elif k == 1:
            z = cx.real('key')
            v = SReal(z)
        elif k == 2:
            t = cx.str('key')
            cx.assume(PARSES(t, self.z))
            return S.from_term(t), PARSE(t, self.z)
        else:
            f = cx.real('key')
            fps = SReal(self.fps) if self.in_doc and cx.choose(2, 'does it know its frame rate?') else None
            return cx.new(InstRec(T, {'_frames': SReal(f), '_fps': fps})), f
        if self.in_doc:
            z = z3.If(z < 0, PARSE(self.e, self.z) - PARSE(self.b, self.z) + 1 + z, z)
        else:
            cx.assume(z >= 0)
        return v, z

    # -- what there is now
    def shown(self, tag):
        """
        The chunks of waypoint tags among the children, and whether they're
        certainly in order of time (after obligations which say so).
        """
        return Q.norm(self.cx, B.children(self.cx, tag))

    def describe(self, w):
        """what a waypoint tag says: (time, before, after, value tag) or None if it's no such tag"""
        cx = self.cx
        rec = cx.rec(w)
        if not all(k in rec.attrs for k in ('time', 'before', 'after')):
            # an original one
            if rec.sh is None:
                return None
            t = self.time(rec.sh)
            b, a = self.interp(rec.sh, 'before'), self.interp(rec.sh, 'after')
        else:
            t = rec.attrs['time']
            if isinstance(t, Ref) and isinstance(cx.rec(t), InstRec) and cx.rec(t).cls is T:
                t = zreal(attr(cx, t, 'frames'))
            elif S.is_str(t):
                how, t2 = attempt(cx, T, t, w)
                if how != 'ok':
                    return None
                t = zreal(attr(cx, t2, 'frames'))
            else:
                return None
            if not S.is_str(rec.attrs['before']) or not S.is_str(rec.attrs['after']):
                return None
            b, a = (canon_term(cx, S.term(cx, rec.attrs[k])) for k in ('before', 'after'))
        tags = []
        for c in Q.norm(cx, B.children(cx, w)):
            if isinstance(c, Elem) and cx.rec(c.v).kind == 'tag':
                tags.append(c.v)
        if len(tags) != 1:
            return None
        return t, b, a, tags[0]

    def waypoints(self, tag=None):
        """
        The waypoints the tag has now. Each is (conditions' source or None, function); see expect().
        """
        return self.shown(tag if tag is not None else attr(self.cx, self.value, 'tag'))


def tags_in(cx, values):
    """among chunks: the tags, which must be plain to see"""
    out = []
    for c in values:
        if not isinstance(c, Elem):
            raise Unsupported('waypoints within waypoints')
        if B.tag_p(cx, c.v):
            out.append(c.v)
    return out


class Group:
    """
    Some waypoints, any number of them: elements of a source. kept(e) says
    which of them should be there.
    """
    def __init__(self, line, kept=lambda e: z3.BoolVal(True)):
        self.line = line
        self.src = line.src
        self.kept = kept
        self.exists = line.exists
        self.describes = line.describes
        self.val_fn = line.val_fn


def expect(line, keep, new, what, tag=None, others=()):
    """
    Obligations: the children of the tag, as far as they're tags, are
    waypoints; one for each old element e of which keep(e) is true (a z3
    formula), as it was; the same for the other groups; and those in new:
    tuples (instant, before, after, value tag); nothing else; in order of time.
    """
    cx = line.cx
    tag = tag if tag is not None else attr(cx, line.value, 'tag')
    chunks = Q.norm(cx, B.children(cx, tag))
    flat = []
    for c in chunks:
        flat.extend(c.flat() if isinstance(c, Bag) else [c])
    for c in flat:
        if not isinstance(c, (Elem, Seg)):
            raise Unsupported('what is in the timeline')
    groups = [Group(line, keep)] + list(others)
    segs = [c for c in flat if isinstance(c, Seg) and any(p.values for p in c.paths)]
    claimed = []

    def check_old(d, e, g):
        t, b, a = g.describes(e)
        cx.prove(d[0] == t, f'{what}: the other waypoints keep their times')
        cx.prove(z3.And(d[1] == b, d[2] == a), f'{what}: the other waypoints keep their interpolations')
        cx.prove(same_value(cx, d[3], line.kind, g.val_fn(e)), f'{what}: the other waypoints keep their values')

    # whole leaves
    for g in groups:
        for leaf in Q.pieces_of(cx, g.src):
            if not isinstance(leaf, Q.Src):
                continue
            mine = [c for c in segs if c.src is leaf]
            claimed.extend(mine)

            def on(e):
                tags = []
                for c in mine:
                    tags += tags_in(cx, Q.seg_elem(cx, c, e))
                if not cx.branch(g.exists(e)):
                    cx.prove(not tags, f'{what}: nothing appears from nowhere')
                    return
                want = cx.branch(g.kept(e))
                cx.prove(len(tags) == (1 if want else 0), f'{what}: exactly the other waypoints are there', f'{len(tags)} {want}')
                for t in tags:
                    d = line.describe(t)
                    cx.prove(d is not None, f'{what}: they are waypoints')
                    if d is not None and want:
                        check_old(d, e, g)
            Q.open_elem(cx, leaf, on)
    for c in segs:
        if not any(c is m for m in claimed):
            def other(v):
                cx.prove(not B.tag_p(cx, v), f'{what}: nothing appears from nowhere')
            Q.each(cx, [c], other)
    # single ones
    found = []
    for c in flat:
        if isinstance(c, Elem) and B.tag_p(cx, c.v):
            d = line.describe(c.v)
            cx.prove(d is not None, f'{what}: they are waypoints')
            if d is None:
                return
            found.append(d)
    olds = {}
    news = []
    for d in found:
        sh = cx.rec(d[3]).sh
        if sh is not None and any(sh.decl().eq(g.val_fn) for g in groups):
            cx.prove(sh.get_id() not in olds, f'{what}: each waypoint once')
            olds[sh.get_id()] = d
        else:
            news.append(d)
    for g in groups:
        for e in Q.pieces_of(cx, g.src):
            if isinstance(e, Q.Src):
                continue
            d = olds.pop(g.val_fn(e).get_id(), None)
            if not cx.branch(g.exists(e)):
                cx.prove(d is None, f'{what}: nothing appears from nowhere')
                continue
            want = cx.branch(g.kept(e))
            cx.prove((d is not None) == want, f'{what}: exactly the other waypoints are there')
            if d is not None and want:
                check_old(d, e, g)
    cx.prove(not olds, f'{what}: nothing appears from nowhere')
    cx.prove(len(news) == len(new), f'{what}: exactly the new waypoints are there', f'{len(news)} instead of {len(new)}')
    if len(news) == len(new):
        # whichever order they're in
        for t, b, a, v in new:
            k = [i for i, d in enumerate(news) if same_contents(cx, d[3], v)]
            cx.prove(len(k) > 0, f'{what}: the new value')
            if not k:
                return
            d = news[k[0]]
            for i in k[1:]:
                if not cx.entails(d[0] == t):
                    d = news[i]
            cx.prove(d[0] == t, f'{what}: the new instant')
            cx.prove(z3.And(d[1] == b, d[2] == a), f'{what}: the new interpolations')
    in_order(line, chunks, what)


def same_value(cx, ref, kind, sh):
    """whether a node is a copy of (or is) the original value with that shadow, unchanged"""
    rec = cx.rec(ref)
    if rec.sh is None or not rec.sh.eq(sh):
        return False
    if rec.name is not None and rec.name != kind or rec.attrs or rec.known:
        return False
    if kind != 'vector':
        return rec._chunks is None or B.same_chunks(rec._chunks, B.pristine(cx, ref, rec))
    # texts, x, texts, y, texts
    names = [cx.rec(c.v).name for c in rec._chunks if isinstance(c, Elem)]
    return names == ['x', 'y'] and all(not cx.rec(c.v).attrs and cx.rec(c.v)._chunks is None for c in rec._chunks if isinstance(c, Elem))


def in_order(line, chunks, what):
    """obligation: the waypoints among these chunks are in order of time"""
    cx = line.cx
    bags = [c for c in chunks if isinstance(c, Bag) and c.order is not None]
    rest = [c for c in chunks if not any(c is b for b in bags)]
    name = f'{what}: in order of time'

    def when(w):
        if not B.tag_p(cx, w):
            return None
        d = line.describe(w)
        return d[0] if d else None

    if len(bags) == 1 and not any(tags_exist(cx, c) for c in rest):
        bag = bags[0]
        cx.prove(not bag.order.reverse, name)
        # the order compares the keys; it has to be by the times of the tags

        def pair(k1, c1, k2, c2):
            t1, t2 = first_time(c1), first_time(c2)
            if t1 is None or t2 is None:
                return
            r = bag.order.lt(k1, k2)
            r = cx.interp.truth(r) if not isinstance(r, (bool, SBool)) else r
            z = r.z if isinstance(r, SBool) else z3.BoolVal(r)
            cx.prove(z3.Implies(z3.Not(z), t2 <= t1), name)

        def first_time(values):
            for c in values:
                if not isinstance(c, Elem):
                    raise Unsupported('what is in the timeline')
                t = when(c.v)
                if t is not None:
                    return t
            return None
        items = list(zip(bag.keys, bag.chunks))

        def values_of(c):
            return c.values if isinstance(c, Q.Grp) else (c,)

        def on_item(k, c, fn):
            """fn(key value, chunks) for the item, or a generic element of it"""
            if isinstance(c, Seg):
                def g(e):
                    kv = Q.seg_elem(cx, k, e)
                    cv = Q.seg_elem(cx, c, e)
                    if not cv:
                        return
                    if len(kv) != 1:
                        raise Unsupported('keys')
                    fn(kv[0].v, cv)
                Q.open_elem(cx, c.src, g)
            else:
                cx.nested(lambda: fn(k.v, values_of(c)))
        for i, (k1, c1) in enumerate(items):
            for k2, c2 in items[i+1:]:
                on_item(k1, c1, lambda kv, cv: on_item(k2, c2, lambda kw, cw: (pair(kv, cv, kw, cw), pair(kw, cw, kv, cv))))
            if isinstance(c1, Seg):
                def two(g1, g2):
                    a, b = (Q.seg_elem(cx, k1, g) for g in (g1, g2))
                    c, d = (Q.seg_elem(cx, c1, g) for g in (g1, g2))
                    if c and d:
                        pair(a[0].v, c, b[0].v, d)
                        pair(b[0].v, d, a[0].v, c)
                Q.open_pair(cx, c1.src, two)
        return
    # otherwise, by themselves
    flat = []
    for c in chunks:
        flat.extend(c.flat() if isinstance(c, Bag) else [c])
    bagged = any(isinstance(c, Bag) for c in chunks)

    def le(a, b):
        ta, tb = when(a), when(b)
        if ta is None or tb is None:
            return
        cx.prove(ta <= tb, name)
        if bagged:
            cx.prove(ta >= tb, name)
    for i, a in enumerate(flat):
        for b in flat[i+1:]:
            if isinstance(a, Elem) and isinstance(b, Elem):
                cx.nested(lambda: le(a.v, b.v))
            else:
                Q.each(cx, [a], lambda x: Q.each(cx, [b], lambda y: le(x, y)))
        if isinstance(a, Seg):
            def two(g1, g2):
                if a.rev:
                    g1, g2 = g2, g1
                for x in Q.seg_elem(cx, a, g1):
                    for y in Q.seg_elem(cx, a, g2):
                        le(x.v, y.v)
            Q.open_pair(cx, a.src, two)


def tags_exist(cx, c):
    if isinstance(c, Bag):
        return any(tags_exist(cx, d) for d in c.flat())
    if isinstance(c, Elem):
        return B.tag_p(cx, c.v)
    if isinstance(c, Seg):
        return any(p.values for p in c.paths)
    return True


def surroundings(line, what):
    """obligation: nothing else in the document changed"""
    cx = line.cx
    if line.param is None:
        return
    ch = Q.norm(cx, B.children(cx, line.param))
    tag = attr(cx, line.value, 'tag')
    kids = [c for c in ch if isinstance(c, Elem)]
    cx.prove(len(ch) == 3 and ch[0] is line.before and ch[2] is line.after, f'{what}: nothing else changes')
    cx.prove(len(kids) == 1 and kids[0].v == tag, f'{what}: the value is still the one in the document')
    r = cx.rec(line.param)
    cx.prove(r.name is None and not r.attrs and not r.known, f'{what}: nothing else changes')


def unchanged(line, what):
    """obligation: the value is exactly as it was"""
    cx = line.cx
    tag = attr(cx, line.value, 'tag')
    cx.prove(tag == line.tag, f'{what}: nothing changes')
    now = cx.rec(tag).fields()
    a = {k: v for k, v in line.fields0.items() if k != 'chunks'}
    b = {k: v for k, v in now.items() if k != 'chunks'}
    pristine = B.pristine(cx, line.tag, cx.rec(line.tag)) if cx.rec(line.tag).sh is not None and 'chunks' not in line.fields0 else None
    ch = Q.norm(cx, now.get('chunks', pristine))
    want = Q.norm(cx, line.fields0.get('chunks', pristine))
    ok = set(a) == set(b) and all(Q.same(a[k], b[k]) for k in a) and same_seq(cx, ch, want)
    cx.prove(ok, f'{what}: nothing changes')
    surroundings(line, what)


def same_seq(cx, a, b):
    return len(a) == len(b) and all(
        isinstance(x, Elem) and isinstance(y, Elem) and B.same_ref(cx, x.v, y.v)
        or isinstance(x, Seg) and isinstance(y, Seg) and x.src is y.src and x.rev == y.rev and
        len(x.paths) == len(y.paths) == 1 and len(x.paths[0].values) == len(y.paths[0].values) == 1 and
        B.same_ref(cx, x.paths[0].values[0].v, y.paths[0].values[0].v)
        for x, y in zip(a, b))


class Given:
    """
    A list of any number of waypoints with values of the same type, at
    different times, which belong to no timeline yet.
    """
    def __init__(self, cx, line, fps=None, name='given'):
        self.cx = cx
        src = Q.Src(cx, name)
        self.src = src
        e = src.e0
        cx.memo.setdefault('generics', {})[e.get_id()] = e
        cx.generic = [e]
        val = value_tag(cx, line.kind, 'gval')
        self.val_fn = cx.rec(val).sh.decl()
        F, b, a = cx.real('gframes'), cx.str('gbefore'), cx.str('gafter')
        self.F, self.b, self.a = F.decl(), b.decl(), a.decl()
        t = cx.new(InstRec(T, {'_frames': SReal(F), '_fps': SReal(fps) if fps is not None else None}))
        v = cx.new(InstRec(line.cls, {'_tag': val}))
        w = cx.new(InstRec(Waypoint, {'time': t, '_before': S.from_term(b), '_after': S.from_term(a), 'value': v}))
        cx.generic = []
        Q.forall(cx, src, e, z3.And(*[z3.Or(*[x == cx.lit(c) for c in set(CANON.values())]) for x in (b, a)]))
        v1, v2 = z3.Const(name + '1', Node), z3.Const(name + '2', Node)
        Q.forall_pairs(cx, src, v1, v2, self.F(v1) != self.F(v2))
        self.seg = Q.full_seg(cx, src, w)

    def exists(self, e):
        return z3.BoolVal(True)

    def describes(self, e):
        return self.F(e), self.b(e), self.a(e)

    def as_list(self):
        return self.cx.new(ListRec((self.seg,)))
