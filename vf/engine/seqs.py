"""
Sequences of any length.

A sequence is a tuple of chunks:

  Elem(v)              one value
  Seg(src, paths)      for each element e of the source src, in order, the
                       values of whichever of the paths has conditions that
                       hold of e. The paths are exclusive and exhaustive. Terms
                       and objects in them mention the source's generic
                       element, src.e0.
  Bag(chunks, order)   the values of the chunks, in another order
  Hole()               whatever earlier iterations of a loop put there

A loop over a Seg runs its body once, on the generic element, along all its
paths (Ctx.nested), and generalises the result; that is the loop rule. What
the body does to variables is forgotten; what it appends becomes another Seg;
anything else it does to objects which don't belong to the element is outside
our reach. If it can leave the loop, there are two cases: either no element
makes it do so, or there is a first one which does, and the source is split
there.
"""
import z3
from .core import *


class Elem:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f'Elem({self.v!r})'


class Path:
    __slots__ = ('conds', 'facts', 'values')

    def __init__(self, conds, facts, values):
        self.conds = tuple(conds)
        self.facts = tuple(facts)
        self.values = tuple(values)      # chunks: Elem, Seg, Bag

    def cond(self):
        return z3.And(*self.conds) if self.conds else z3.BoolVal(True)

    def __repr__(self):
        return f'Path({self.conds} -> {self.values})'


class Seg:
    __slots__ = ('src', 'paths', 'rev')

    def __init__(self, src, paths, rev=False):
        self.src = src
        self.paths = tuple(paths)
        self.rev = rev

    def __repr__(self):
        return f'Seg({self.src.name}, {list(self.paths)})'


class Grp:
    """in a Bag: some values which stay together"""
    __slots__ = ('values',)

    def __init__(self, values):
        self.values = tuple(values)

    def __repr__(self):
        return f'Grp({list(self.values)})'


class Bag:
    """
    chunks: what it consists of: Elems, Segs (the values of each element stay
            together) and Grps
    order:  None if unknown, otherwise a SortOrder
    keys:   for each of the chunks an Elem, or a Seg over the same source, of
            what the order compares
    """
    __slots__ = ('chunks', 'order', 'keys')

    def __init__(self, chunks, order, keys=None):
        self.chunks = tuple(chunks)
        self.order = order
        self.keys = tuple(keys) if keys is not None else self.chunks
        assert len(self.keys) == len(self.chunks)

    def plain(self):
        return self.keys is self.chunks or self.order is None

    def flat(self):
        out = []
        for c in self.chunks:
            out.extend(c.values if isinstance(c, Grp) else [c])
        return tuple(out)

    def __repr__(self):
        return f'Bag({list(self.chunks)})'


class Hole:
    __slots__ = ()

    def __repr__(self):
        return 'Hole'


class SortOrder:
    """
    The values are sorted so that none is less than an earlier one.
    lt: a function of two values (of the sorted sequence), giving bool or SBool
    """
    def __init__(self, lt, reverse=False):
        self.lt = lt
        self.reverse = reverse

    def flipped(self):
        return SortOrder(self.lt, not self.reverse)


class Src:
    """A source of elements: a finite sequence of distinct Nodes."""
    _n = 0

    def __init__(self, cx, name, root=None, e0=None):
        self.name = name
        self.root = root or self
        self.e0 = e0 if e0 is not None else cx.node('e_' + name)
        self.gen = tuple(cx.generic)
        self.key = ('src', id(self))
        self.of = None          # (which of a node's nodes, the node's term)
        self.id = id(self)
        cx.keep.append(self)
        if self.root is self:
            cx.src[self.id] = ((self,), (), ())     # pieces, facts, pairs
        cx.src[('leaf', self.id)] = ()

    def __repr__(self):
        return f'Src({self.name})'


_subs = {}


def sub(z, a, b):
    key = (z.get_id(), a.get_id(), b.get_id())
    r = _subs.get(key)
    if r is None:
        r = (z3.substitute(z, (a, b)), z, a, b)
        _subs[key] = r
    return r[0]


def forall(cx, src, var, formula):
    """formula (about var) holds of every element of src"""
    if src.root is src and len(cx.src[src.id][0]) >= 1 and (cx.src[src.id][0] == (src,) or True) and is_root_like(cx, src):
        pieces, facts, pairs = cx.src[src.id]
        cx.src[src.id] = (pieces, facts + ((var, formula),), pairs)
        for p in pieces:
            if not isinstance(p, Src):
                cx.hold(sub(formula, var, p))
    else:
        cx.src[('leaf', src.id)] = cx.src[('leaf', src.id)] + ((var, formula),)


def is_root_like(cx, src):
    return src.root is src


def forall_pairs(cx, src, v1, v2, formula):
    """formula holds whenever v1 comes before v2 in src"""
    pieces, facts, pairs = cx.src[src.root.id]
    cx.src[src.root.id] = (pieces, facts, pairs + ((v1, v2, formula),))


def pieces_of(cx, src):
    """the leaves (Src) and elements (terms) this source consists of now"""
    all_ = cx.src[src.root.id][0]
    if src.root is src:
        return all_
    # a leaf which may itself have been split: find by containment
    kids = cx.src.get(('split', src.id))
    if kids is None:
        return (src,)
    out = []
    for k in kids:
        if isinstance(k, Src):
            out.extend(pieces_of(cx, k))
        else:
            out.append(k)
    return tuple(out)


def leaf_facts(cx, leaf):
    pieces, facts, pairs = cx.src[leaf.root.id]
    return facts + cx.src[('leaf', leaf.id)]


def hold_facts(cx, leaf, g, pos=None):
    """everything known about an element g of this leaf"""
    pieces, facts, pairs = cx.src[leaf.root.id]
    for var, f in leaf_facts(cx, leaf):
        cx.hold(sub(f, var, g))
    # order relative to the known elements
    where = None
    for i, p in enumerate(pieces):
        if p is leaf:
            where = i
    if where is not None:
        for i, p in enumerate(pieces):
            if isinstance(p, Src):
                continue
            cx.hold(p != g)
            for v1, v2, f in pairs:
                if i < where:
                    cx.hold(z3.substitute(f, (v1, p), (v2, g)))
                elif i > where:
                    cx.hold(z3.substitute(f, (v1, g), (v2, p)))
        for leaf2, g2 in getattr(cx, 'open', []):
            if leaf2.root is leaf.root and leaf2 is not leaf:
                j = [i for i, p in enumerate(pieces) if p is leaf2]
                if j:
                    cx.hold(g2 != g)
                    for v1, v2, f in pairs:
                        if j[0] < where:
                            cx.hold(z3.substitute(f, (v1, g2), (v2, g)))
                        else:
                            cx.hold(z3.substitute(f, (v1, g), (v2, g2)))


def split(cx, leaf, name='x'):
    """splits a leaf at some element: returns (A, x, B)"""
    for l, g in getattr(cx, 'open', []):
        if l is leaf:
            raise Unsupported('splitting a source which is being looped over')
    if ('split', leaf.id) in cx.src:
        raise Unsupported('splitting a source which is already split')
    if ('mut', leaf.id) in cx.src:
        raise Unsupported('splitting a source whose elements have been changed')
    x = cx.node(name)
    # the splitting is done outside any generic elements which the source doesn't depend on
    root = leaf.root
    pieces, facts, pairs = cx.src[root.id]
    A = Src(cx, leaf.name + '<', root=root)
    B = Src(cx, leaf.name + '>', root=root)
    lf = cx.src[('leaf', leaf.id)]
    cx.src[('leaf', A.id)] = lf
    cx.src[('leaf', B.id)] = lf
    cx.src[('split', leaf.id)] = (A, x, B)
    at = [i for i, p in enumerate(pieces) if p is leaf][0]
    # facts about x, before it's put there
    hold_facts(cx, leaf, x)
    pieces = pieces[:at] + (A, x, B) + pieces[at+1:]
    cx.src[root.id] = (pieces, facts, pairs)
    return A, x, B


########################################################################
# substitution

def subst_value(cx, v, e0, x):
    if isinstance(v, SReal):
        return SReal(sub(v.z, e0, x))
    if isinstance(v, SInt):
        return SInt(sub(v.z, e0, x))
    if isinstance(v, SBool):
        return SBool(sub(v.z, e0, x))
    if isinstance(v, SStr):
        out = []
        for p in v.parts:
            if isinstance(p, StrAtom):
                out.append(StrAtom(sub(p.z, e0, x), p.char))
            elif isinstance(p, NumAtom):
                out.append(NumAtom(p.kind, sub(p.val, e0, x), p.integral))
            else:
                out.append(p)
        return SStr(out)
    if isinstance(v, Ref):
        return subst_ref(cx, v, e0, x)
    if isinstance(v, tuple):
        return tuple(subst_value(cx, y, e0, x) for y in v)
    if isinstance(v, (Elem, Seg, Bag, Hole)):
        return subst_chunk(cx, v, e0, x)
    if isinstance(v, Bound):
        return Bound(v.fn, subst_value(cx, v.self, e0, x))
    if z3.is_expr(v):
        return sub(v, e0, x)
    if isinstance(v, Src):
        return subst_src(cx, v, e0, x)
    return v


def has_gen(rec, e0):
    return any(g.get_id() == e0.get_id() for g in rec.gen)


def subst_ref(cx, ref, e0, x):
    rec = cx.heap[ref.id]
    if not has_gen(rec, e0):
        return ref
    key = (ref.id, e0.get_id(), x.get_id())
    if key in cx.inst:
        return Ref(cx.inst[key])
    if hasattr(rec, 'existing'):
        old = rec.existing(cx, e0, x)
        if old is not None:
            cx.inst[key] = old.id
            cx.keep.append((e0, x))
            return old
    gen = []
    for g in rec.gen:
        if g.get_id() != e0.get_id():
            # (an inner generic element may be a function of an outer one)
            gen.append(sub(g, e0, x))
        elif any(h.get_id() == x.get_id() for h in gens_of(cx, x)):
            gen.append(x)
    new = cx.new(Rec(), gen=gen)
    cx.inst[key] = new.id
    cx.keep.append((e0, x))
    nr = rec.subst(lambda y: subst_value(cx, y, e0, x))
    nr.gen = tuple(gen)
    nr.when = tuple(sub(z, e0, x) for z in rec.when)
    cx.heap[new.id] = nr
    if hasattr(nr, 'register'):
        nr.register(cx, new)
    return new


def gens_of(cx, x):
    """x itself, if it's the generic element of some source"""
    return [x] if x.get_id() in cx.memo.get('generics', {}) else []


def subst_src(cx, src, e0, x):
    if e0.eq(x):
        return src
    if not any(g.get_id() == e0.get_id() for g in src.gen):
        return src
    key = ('srcinst', src.id, e0.get_id(), x.get_id())
    if key in cx.inst:
        return cx.inst[key]
    of = None
    if src.of is not None:
        # what's in a node: the same for whoever asks
        of = (src.of[0], sub(src.of[1], e0, x))
        old = cx.noderefs.get((of[0], of[1].get_id()))
        if old is not None:
            cx.inst[key] = old
            cx.keep.append((e0, x))
            return old
    if src.root is not src or pieces_of(cx, src) != (src,):
        raise Unsupported('an instance of a source which is already split')
    ne0 = sub(src.e0, e0, x)
    new = Src(cx, src.name, e0=ne0)
    new.gen = tuple(sub(g, e0, x) if g.get_id() != e0.get_id() else x for g in src.gen)
    cx.inst[key] = new
    cx.keep.append((e0, x))
    if of is not None:
        new.of = of
        cx.noderefs[(of[0], of[1].get_id())] = new
        cx.keep.append(of[1])
    cx.memo.setdefault('generics', {})[ne0.get_id()] = ne0
    pieces, facts, pairs = cx.src[src.id]
    cx.src[new.id] = ((new,), tuple((v, sub(f, e0, x)) for v, f in facts),
                      tuple((a, b, sub(f, e0, x)) for a, b, f in pairs))
    return new


def subst_chunk(cx, c, e0, x):
    if e0.eq(x):
        return c
    if isinstance(c, Elem):
        return Elem(subst_value(cx, c.v, e0, x))
    if isinstance(c, Bag):
        chunks = [subst_chunk(cx, d, e0, x) for d in c.chunks]
        return Bag(chunks, c.order, None if c.keys is c.chunks else [subst_chunk(cx, d, e0, x) for d in c.keys])
    if isinstance(c, Grp):
        return Grp([subst_chunk(cx, d, e0, x) for d in c.values])
    if isinstance(c, Seg):
        src = subst_src(cx, c.src, e0, x)

        def both(z):
            z = sub(z, e0, x)
            return z
        paths = []
        for p in c.paths:
            paths.append(Path([both(z) for z in p.conds], [both(z) for z in p.facts],
                              [subst_chunk(cx, d, e0, x) for d in p.values]))
        return Seg(src, paths, c.rev)
    return c


def seg_at(cx, seg, leaf):
    """the same Seg, over a leaf of its source"""
    if leaf is seg.src:
        return seg
    cx.memo.setdefault('generics', {})[leaf.e0.get_id()] = leaf.e0
    e0, a0 = seg.src.e0, leaf.e0
    paths = [Path([sub(z, e0, a0) for z in p.conds], [sub(z, e0, a0) for z in p.facts],
                  [subst_chunk(cx, d, e0, a0) for d in p.values]) for p in seg.paths]
    return Seg(leaf, paths, seg.rev)


def seg_elem(cx, seg, x):
    """the chunks this Seg has for the element x. Branches."""
    e0 = seg.src.e0
    for i, p in enumerate(seg.paths):
        c = z3.And(*[sub(z, e0, x) for z in p.conds]) if p.conds else z3.BoolVal(True)
        if i == len(seg.paths)-1:
            if p.conds:
                cx.assume(c)
        elif not cx.branch(c):
            continue
        for z in p.facts:
            cx.fact(sub(z, e0, x))
        return [subst_chunk(cx, d, e0, x) for d in p.values]
    return []


def norm(cx, chunks):
    """expands the Segs whose sources have been split"""
    out = []
    for c in chunks:
        if isinstance(c, Seg):
            pieces = pieces_of(cx, c.src)
            if pieces == (c.src,):
                out.append(c)
                continue
            for p in (reversed(pieces) if c.rev else pieces):
                if isinstance(p, Src):
                    out.append(seg_at(cx, c, p))
                else:
                    out.extend(norm(cx, seg_elem(cx, c, p)))
        elif isinstance(c, Bag):
            out.append(norm_bag(cx, c))
        else:
            out.append(c)
    return tuple(out)


def norm_bag(cx, bag):
    chunks, keys = [], []
    changed = False
    for c, k in zip(bag.chunks, bag.keys):
        if isinstance(c, Grp):
            c2 = Grp(norm(cx, c.values))
            changed = changed or any(a is not b for a, b in zip(c.values, c2.values)) or len(c.values) != len(c2.values)
            chunks.append(c2)
            keys.append(k)
            continue
        if not isinstance(c, Seg):
            chunks.append(c)
            keys.append(k)
            continue
        pieces = pieces_of(cx, c.src)
        if pieces == (c.src,):
            chunks.append(c)
            keys.append(k)
            continue
        changed = True
        for p in pieces:
            if isinstance(p, Src):
                chunks.append(seg_at(cx, c, p))
                keys.append(seg_at(cx, k, p) if k is not c else chunks[-1])
                continue
            vals = norm(cx, seg_elem(cx, c, p))
            if not vals:
                continue
            kvals = norm(cx, seg_elem(cx, k, p)) if k is not c else vals
            if bag.order is not None and (len(kvals) != 1 or not isinstance(kvals[0], Elem)):
                raise Unsupported('sorted values which are not one for one')
            chunks.append(vals[0] if len(vals) == 1 and isinstance(vals[0], Elem) else Grp(vals))
            keys.append(kvals[0])
    if not changed:
        return bag
    if bag.keys is bag.chunks:
        return Bag(chunks, bag.order)
    return Bag(chunks, bag.order, keys)


def full_seg(cx, src, v):
    cx.memo.setdefault('generics', {})[src.e0.get_id()] = src.e0
    return Seg(src, [Path((), (), (Elem(v),))])


########################################################################
# taking elements from the front

def simple(chunks):
    return all(isinstance(c, Elem) for c in chunks)


def emits(cx, path):
    """whether this path of a Seg certainly has values (None: perhaps)"""
    if not path.values:
        return False
    if any(isinstance(c, Elem) for c in path.values):
        return True
    return None


def force(cx, chunks, n):
    """
    The chunks, of which the first n are Elems, unless there are fewer.
    """
    chunks = list(norm(cx, chunks))
    i = 0
    while i < len(chunks) and i < n:
        c = chunks[i]
        if isinstance(c, Elem):
            i += 1
            continue
        if isinstance(c, Hole):
            raise Unsupported('reading what earlier iterations of a loop wrote')
        if isinstance(c, Bag):
            if all(not isinstance(d, Seg) or all(not p.values for p in d.paths) for d in c.chunks) and \
                    sum(not isinstance(d, Seg) for d in c.chunks) <= 1:
                chunks[i:i+1] = [e for d in c.chunks if not isinstance(d, Seg) for e in (d.values if isinstance(d, Grp) else [d])]
                continue
            chunks[i:i+1] = force_bag(cx, c)
            continue
        # a Seg
        maybe = [p for p in c.paths if p.values]
        if not maybe:
            del chunks[i]
            continue
        if any(emits(cx, p) is None for p in maybe):
            chunks[i:i+1] = force_nested(cx, c)
            continue
        e0 = c.src.e0
        some = z3.Or(*[p.cond() for p in maybe])
        k = cx.choose(2, f'does {c.src.name} have any?')
        if k == 0:
            forall(cx, c.src, e0, z3.Not(some))
            probe_empty(cx, c.src)
            del chunks[i]
            continue
        A, x, B = split(cx, c.src, 'first')
        before, after = (B, A) if c.rev else (A, B)
        forall(cx, before, e0, z3.Not(some))
        cx.assume(sub(some, e0, x))
        vals = norm(cx, seg_elem(cx, c, x))
        chunks[i:i+1] = list(vals) + [seg_at(cx, c, after)]
    return tuple(chunks)


def probe_empty(cx, src):
    pass


def force_bag(cx, bag):
    """takes the first of a Bag: some element which isn't after any other"""
    raise Unsupported('the first of an unordered collection')


def force_nested(cx, seg):
    """a Seg, some paths of which hold Segs of their own: is there anything in it?"""
    k = cx.choose(2, f'does {seg.src.name} have any, within?')
    if k == 0:
        nothing_within(cx, seg, seg.src)
        return []
    A, x, B = split(cx, seg.src, 'some')
    before, after = (B, A) if seg.rev else (A, B)
    nothing_within(cx, seg, before)
    vals = list(norm(cx, seg_elem(cx, seg, x)))
    if not vals:
        raise Infeasible()
    vals = list(force(cx, vals, 1))
    if not vals:
        raise Infeasible()
    return vals + [seg_at(cx, seg, after)]


def nothing_within(cx, seg, leaf):
    """for no element of the leaf, and no inner element, is there a value"""
    e0 = seg.src.e0
    for p in seg.paths:
        for v in p.values:
            if isinstance(v, Seg):
                some = [q.cond() for q in v.paths if q.values]
                if any(isinstance(d, Seg) for q in v.paths for d in q.values):
                    raise Unsupported('sequences within sequences within sequences')
                if some:
                    key = ('foralls2',)
                    cx.src[key] = cx.src.get(key, ()) + ((leaf, e0, v.src, v.src.e0, z3.Implies(p.cond(), z3.Not(z3.Or(*some)))),)
            elif isinstance(v, Elem):
                forall(cx, leaf, e0, z3.Not(p.cond()))
            else:
                raise Unsupported('nested bags')


def hold_foralls2(cx):
    """instantiates the facts about pairs from two sources, for the pairs open or known"""
    def members(s):
        out = []
        for p in pieces_of(cx, s):
            if not isinstance(p, Src):
                out.append(p)
            else:
                out.extend(g for l, g in getattr(cx, 'open', []) if l is p)
        return out
    for (s1, e1, s2, e2, f) in cx.src.get(('foralls2',), ()):
        for a in members(s1):
            inner = s2
            if any(g.get_id() == e1.get_id() for g in s2.gen) and a.get_id() != e1.get_id():
                inner = cx.inst.get(('srcinst', s2.id, e1.get_id(), a.get_id()))
                if inner is None and s2.of is not None:
                    inner = cx.noderefs.get((s2.of[0], sub(s2.of[1], e1, a).get_id()))
                if inner is None:
                    continue
            for b in members(inner):
                cx.hold(z3.substitute(z3.substitute(f, (e2, b)), (e1, a)))


def empty(cx, chunks):
    """is the sequence empty? Branches. Returns (bool, the chunks as they are now known)"""
    c = force(cx, chunks, 1)
    return len(c) == 0, c


########################################################################
# loops

class BreakLoop(Exception):
    pass


class ContinueLoop(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


def diff_chunks(old, new):
    """what was appended, or None if that isn't all that happened"""
    if len(new) < len(old) or any(a is not b for a, b in zip(old, new)):
        return None
    return new[len(old):]


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Ref):
        return a == b
    if isinstance(a, (SReal, SInt, SBool)):
        return a.z.eq(b.z)
    if isinstance(a, SStr):
        return a.key() == b.key()
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float, str, bool, bytes)):
        return a == b
    if isinstance(a, Elem):
        return same(a.v, b.v)
    if isinstance(a, Bound):
        return same(a.fn, b.fn) and same(a.self, b.self)
    return False


def loop(cx, chunks, run):
    """
    Runs run(value) for each value of the sequence, in order.
    run() may raise BreakLoop, ContinueLoop, ReturnEx or PyRaise.
    """
    queue = list(norm(cx, chunks))
    while queue:
        c = queue.pop(0)
        if isinstance(c, Elem):
            try:
                run(c.v)
            except ContinueLoop:
                pass
            if queue and any(isinstance(d, Seg) for d in queue):
                queue = list(norm(cx, queue))
        elif isinstance(c, Seg):
            seg_loop(cx, c, run)
            queue = list(norm(cx, queue))
        elif isinstance(c, Bag):
            bag_loop(cx, c, run)
        else:
            raise Unsupported('looping over what earlier iterations of a loop wrote')


class Effects:
    """what a loop body is known to change: variables, and records it appends to"""
    def __init__(self):
        self.vars = set()
        self.appends = set()


def body_paths(cx, seg, run, eff, gen=True):
    """explores the body on the generic element"""
    src = seg.src if isinstance(seg, Seg) else None

    def one():
        if gen:
            cx.generic.append(src.e0)
            cx.memo.setdefault('generics', {})[src.e0.get_id()] = src.e0
            cx.open = getattr(cx, 'open', []) + [(src, src.e0)]
        try:
            for f, name in eff.vars:
                if name in f.vars and not isinstance(f.vars[name], Poison):
                    f.vars[name] = Poison(name)
            for rid in eff.appends:
                rec = cx.heap[rid]
                rec.set_chunks(tuple(rec.chunks()) + (Hole(),))
            start = {rid: r.fields() for rid, r in cx.heap.items()}
            vars0 = [(f, dict(f.vars)) for f in cx.frames]
            ov0 = dict(cx.overlay)
            if gen:
                hold_facts(cx, src, src.e0)
                hold_foralls2(cx)
                if cx.check() == z3.unsat:
                    raise Infeasible()
                chunks = None
                for i, p in enumerate(seg.paths):
                    if i == len(seg.paths)-1:
                        if p.conds:
                            cx.assume(p.cond())
                    elif not cx.branch(p.cond()):
                        continue
                    for z in p.facts:
                        cx.fact(z)
                    chunks = p.values
                    break
            else:
                chunks = (seg,)
            kind = ('next', None)
            try:
                if gen:
                    loop(cx, chunks or (), run)
                else:
                    for v in (chunks[0].values if isinstance(chunks[0], Grp) else chunks):
                        if not isinstance(v, Elem):
                            raise Unsupported('bags of sequences')
                        try:
                            run(v.v)
                        except ContinueLoop:
                            pass
            except BreakLoop:
                kind = ('break', None)
            except ReturnEx as e:
                kind = ('return', e.value)
            except PyRaise as e:
                kind = ('raise', e)
            # what changed?
            changed_vars = set()
            for f, vs in vars0:
                for k in set(vs) | set(f.vars):
                    if k not in vs or k not in f.vars or not same(vs[k], f.vars[k]):
                        changed_vars.add((f, k))
            appended = {}
            other = {}
            for rid, fl in start.items():
                now = cx.heap[rid].fields()
                for k in set(fl) | set(now):
                    a, b = fl.get(k, None), now.get(k, None)
                    if k == 'chunks':
                        if a is None:
                            a = cx.interp.soup.pristine(cx, Ref(rid), cx.heap[rid])
                            if cx.interp.soup.same_chunks(a, b):
                                continue
                        if has_gen(cx.heap[rid], src.e0) if gen else False:
                            if not cx.interp.soup.same_chunks(a, b):
                                other[(rid, k)] = b
                            continue
                        d = diff_chunks(a, b)
                        if d is None:
                            other[(rid, k)] = b
                        elif d:
                            appended[rid] = d
                    elif k not in fl or k not in now or not same(a, b):
                        other[(rid, k)] = b
            if any(k not in ov0 or not same(ov0[k], cx.overlay[k]) for k in cx.overlay):
                raise Unsupported('a loop which changes classes')
            return kind, changed_vars, appended, other
        finally:
            if gen:
                cx.open = cx.open[:-1]
    return cx.nested(one)


def explore_body(cx, seg, run, gen=True, eff=None):
    eff = eff or Effects()
    for _ in range(6):
        results = body_paths(cx, seg, run, eff, gen)
        nv = set()
        na = set()
        for conds, facts, (kind, cv, ap, other), state in results:
            if kind[0] == 'next':
                nv |= cv
                na |= set(ap)
        nv = {(f, k) for f, k in nv if k in f.vars or True}
        if nv <= eff.vars and na <= eff.appends:
            return results, eff
        eff.vars |= nv
        eff.appends |= na
    raise Unsupported('the effects of a loop body do not settle')


def merge_new(cx, state, conds=()):
    heap, frames, overlay, noderefs, n, src, inst, generic = state
    for rid, rec in heap.items():
        if rid not in cx.heap:
            cx.heap[rid] = rec.copy()
            # it's only there for the elements of which these are true
            cx.heap[rid].when = tuple(rec.when) + tuple(conds)
    for k, v in noderefs.items():
        if k not in cx.noderefs:
            cx.noderefs[k] = v
    for k, v in src.items():
        if k not in cx.src and not (isinstance(k, tuple) and k[0] == 'foralls2'):
            if isinstance(k, tuple) and k[0] == 'split':
                continue
            cx.src[k] = v
    for k, v in inst.items():
        if k not in cx.inst:
            cx.inst[k] = v


def seg_loop(cx, seg, run, in_bag=False, stays=False):
    """stays: whether it's known that no element leaves the loop"""
    src = seg.src if isinstance(seg, Seg) else None
    if any(l is src for l, g in getattr(cx, 'open', [])):
        raise Unsupported('looping over a source within a loop over it')
    results, eff = explore_body(cx, seg, run)
    exits = [r for r in results if r[2][0][0] != 'next']
    nexts = [r for r in results if r[2][0][0] == 'next']
    if exits:
        ec = z3.Or(*[z3.And(*r[0]) if r[0] else z3.BoolVal(True) for r in exits])
        k = 0 if stays else cx.choose(2, f'does any of {src.name} leave the loop?')
        if k == 0:
            none_leaves(cx, src, ec, nexts)
        else:
            A, x, B = split(cx, src, 'exit')
            before, after = (B, A) if seg.rev else (A, B)
            forall(cx, before, src.e0, z3.Not(ec))
            for r in exits:
                for z in r[1]:
                    cx.fact(sub(z, src.e0, x))
            cx.assume(sub(ec, src.e0, x))
            seg_loop(cx, seg_at(cx, seg, before), run, in_bag, True)
            loop(cx, seg_elem(cx, seg, x), run)
            # this is the one which leaves it
            raise Infeasible()
    apply_effects(cx, seg, nexts, eff, in_bag)


def none_leaves(cx, src, ec, nexts):
    """each element of the source takes one of these paths"""
    forall(cx, src, src.e0, z3.And(z3.Not(ec), z3.Or(*[z3.And(*r[0], *r[1]) for r in nexts])))
    # and so do those of the sources looped over within it
    for conds, facts, what, state in nexts:
        for k, v in state[5].items():
            if k not in cx.src or cx.src[k] is v:
                continue
            if isinstance(k, int):
                if v[0] != cx.src[k][0]:
                    continue
                inner, old, new = v[0][0] if len(v[0]) == 1 else None, cx.src[k][1], v[1]
            elif isinstance(k, tuple) and k[0] == 'leaf':
                inner = next((l for l in cx.keep if isinstance(l, Src) and l.id == k[1]), None)
                old, new = cx.src[k], v
            else:
                continue
            if not isinstance(inner, Src):
                continue
            for var, f in new[len(old):]:
                key = ('foralls2',)
                cx.src[key] = cx.src.get(key, ()) + ((src, src.e0, inner, var, z3.Implies(z3.And(*conds), f)),)


def apply_effects(cx, seg, nexts, eff, in_bag):
    src = seg.src if isinstance(seg, Seg) else None
    for r in nexts:
        merge_new(cx, r[3], r[0])
    for f, k in eff.vars:
        if f in cx.frames:
            f.vars[k] = Poison(k)
    # changes to objects which belong to the element
    changes = {}
    for r in nexts:
        for key, v in r[2][3].items():
            changes.setdefault(key, []).append((r, v))
    for (rid, k), vs in changes.items():
        rec = cx.heap[rid]
        if not has_gen(rec, src.e0):
            raise Unsupported(f'a loop which changes {k} of something outside it')
        if any(not same(vs[0][1], v) for _, v in vs):
            raise Unsupported('a loop which changes elements in different ways')
        if len(vs) != len(nexts):
            # then the others have to be for elements which don't have this object
            did = [r for r, _ in vs]
            for r in nexts:
                if not any(r is x for x in did) and not never(cx, src, r[0] + list(rec.when)):
                    raise Unsupported('a loop which changes some elements')
        cx.src[('mut', src.id)] = True
        if k == 'chunks':
            rec.set_chunks(vs[0][1])
        else:
            rec.set_field(k, vs[0][1])
    out = {}
    for rid in sorted(eff.appends):
        paths = []
        for conds, facts, (kind, cv, ap, other), state in nexts:
            paths.append(Path(conds, facts, ap.get(rid, ())))
        if not any(p.values for p in paths):
            continue
        rec = cx.heap[rid]
        new = Seg(src, merge_paths(paths), seg.rev)
        out[rid] = new
        if hasattr(rec, 'check_append'):
            rec.check_append(cx, new)
        rec.set_chunks(tuple(rec.chunks()) + (new,))
    return out


def never(cx, src, conds):
    """whether these conditions contradict each other, for any element of the source"""
    out = []

    def one():
        cx.generic.append(src.e0)
        hold_facts(cx, src, src.e0)
        out.append(cx.check(*conds) == z3.unsat)
    cx.nested(one)
    return all(out)


def merge_paths(paths):
    """paths without values are put together"""
    full = [p for p in paths if p.values]
    none = [p for p in paths if not p.values]
    if len(none) > 1:
        none = [Path([z3.Or(*[p.cond() for p in none])], [f for p in none for f in p.facts], ())]
    return full + none


def bag_loop(cx, bag, run):
    """
    The order is unknown (or depends on the values), so that everything the
    body wrote before is unknown to it, and what it appends is in that order.
    """
    eff = Effects()
    for _ in range(6):
        before = (len(eff.vars), len(eff.appends))
        for c in bag.chunks:
            explore_body(cx, c, run, gen=isinstance(c, Seg), eff=eff)
        if before == (len(eff.vars), len(eff.appends)):
            break
    starts = {}
    for rid in eff.appends:
        starts[rid] = len(cx.heap[rid].chunks())
    for f, k in eff.vars:
        if f in cx.frames:
            f.vars[k] = Poison(k)
    for rid in eff.appends:
        rec = cx.heap[rid]
        rec.set_chunks(tuple(rec.chunks()) + (Hole(),))
    items = {rid: ([], []) for rid in eff.appends}

    def collect(k):
        """what was appended since the last time"""
        for rid in eff.appends:
            rec = cx.heap[rid]
            ch = rec.chunks()
            n = starts[rid]
            if len(ch) <= n or not isinstance(ch[n], Hole):
                raise Unsupported('a loop of unknown order which rewrites what it wrote')
            new = ch[n+1:]
            rec.set_chunks(ch[:n+1])
            if new:
                items[rid][0].append(new[0] if len(new) == 1 and isinstance(new[0], (Elem, Seg)) else Grp(new))
                items[rid][1].append(k)
    for c, k in zip(bag.chunks, bag.keys):
        if isinstance(c, Seg):
            try:
                pieces = pieces_of(cx, c.src)
                if pieces != (c.src,):
                    raise Unsupported('a source split while it is looped over')
                seg_loop(cx, c, run, in_bag=True)
            except BreakLoop:
                raise Unsupported('break from a loop of unknown order')
            if pieces_of(cx, c.src) != (c.src,):
                raise Unsupported('a source split while it is looped over')
        else:
            for v in (c.values if isinstance(c, Grp) else [c]):
                try:
                    run(v.v)
                except ContinueLoop:
                    pass
                except BreakLoop:
                    raise Unsupported('break from a loop of unknown order')
                for f, name in eff.vars:
                    if f in cx.frames:
                        f.vars[name] = Poison(name)
        collect(k)
    for rid in eff.appends:
        rec = cx.heap[rid]
        n = starts[rid]
        chunks, keys = items[rid]
        rec.set_chunks(tuple(rec.chunks()[:n]) + (Bag(chunks, bag.order, keys),))


########################################################################
# goals

def each(cx, chunks, fn):
    """
    fn(value) for each value of the sequence; for Segs, on the generic element,
    along all paths. For stating obligations: fn must not change anything.
    """
    for c in norm(cx, chunks):
        if isinstance(c, Elem):
            fn(c.v)
        elif isinstance(c, Bag):
            each(cx, c.flat(), fn)
        elif isinstance(c, Seg):
            def run(v):
                fn(v)
            body_paths(cx, c, run, Effects())
        else:
            raise Unsupported('Hole')


def open_elem(cx, leaf, fn):
    """fn(g) for a generic element g of a leaf: for stating obligations"""
    def one():
        cx.generic.append(leaf.e0)
        cx.memo.setdefault('generics', {})[leaf.e0.get_id()] = leaf.e0
        cx.open = getattr(cx, 'open', []) + [(leaf, leaf.e0)]
        try:
            hold_facts(cx, leaf, leaf.e0)
            hold_foralls2(cx)
            if cx.check() == z3.unsat:
                raise Infeasible()
            return fn(leaf.e0)
        finally:
            cx.open = cx.open[:-1]
    return cx.nested(one)


def open_pair(cx, leaf, fn):
    """fn(g1, g2) for two different elements of a leaf, the first before the second"""
    def one():
        g1, g2 = cx.node('p1'), cx.node('p2')
        hold_facts(cx, leaf, g1)
        hold_facts(cx, leaf, g2)
        cx.hold(g1 != g2)
        for v1, v2, f in cx.src[leaf.root.id][2]:
            cx.hold(z3.substitute(f, (v1, g1), (v2, g2)))
        if cx.check() == z3.unsat:
            raise Infeasible()
        return fn(g1, g2)
    return cx.nested(one)
