"""
The model of Beautiful Soup: documents, as far as this code uses them.

A node is a NodeRec in the heap. What isn't known about it is a function of
its "shadow", a term; a copy of a node has the same shadow and so the same
contents, but another identity. Its children are read from a source (seqs.py)
belonging to the shadow, when they're first wanted.

Assumed of bs4 4.12: Tag and NavigableString do what is written here; names
have no prefixes; all texts are plain NavigableStrings (so that .text includes
them); and an attribute's value is one text, as it always is with the XML parser.
"""
import z3
import bs4
import bs4.element
from .core import *
from . import strings as S
from . import seqs as Q
from .seqs import Elem, Seg, Bag, Hole

B = z3.BoolSort()
ISTAG = z3.Function('istag', Node, B)
NAME = z3.Function('tagname', Node, Str)
TEXT = z3.Function('text', Node, Str)
ALLTEXT = z3.Function('alltext', Node, Str)
_has, _attr = {}, {}


def HAS(k):
    return _has.setdefault(k, z3.Function(f'has:{k}', Node, B))


def ATTR(k):
    return _attr.setdefault(k, z3.Function(f'attr:{k}', Node, Str))


class _Absent:
    def __repr__(self):
        return 'ABSENT'


ABSENT = _Absent()


class Above:
    """whatever is above a node: some ancestors we know nothing of, then known ones (Refs), root last"""
    def __init__(self, name='above', known=()):
        self.name = name
        self.known = tuple(known)


class NodeRec(Rec):
    def __init__(self, kind, sh=None, ident=None, name=None, attrs=None, known=False, text=None, chunks=None,
                 parent=None, fresh=False):
        self.kind = kind            # 'tag', 'text', None (either), 'doc'
        self.sh = sh
        self.ident = ident
        self.name = name            # None: a function of sh
        self.attrs = attrs if attrs is not None else {}
        self.known = known          # whether attrs is all there is
        self.text = text
        self._chunks = chunks       # None: not read yet
        self.parent = parent
        self.fresh = fresh          # children, when they're read, are copies too

    def blank(self):
        return NodeRec(self.kind, self.sh, self.ident, self.name, dict(self.attrs), self.known, self.text,
                       self._chunks, self.parent, self.fresh)

    def chunks(self):
        return self._chunks

    def set_chunks(self, c):
        self._chunks = tuple(c)

    def fields(self):
        d = {'name': self.name, 'text': self.text, 'parent': self.parent, 'known': self.known}
        for k, v in self.attrs.items():
            d[('attr', k)] = v
        if self._chunks is not None:
            d['chunks'] = self._chunks
        return d

    def set_field(self, k, v):
        if isinstance(k, tuple):
            self.attrs[k[1]] = v
        else:
            setattr(self, k, v)

    def subst(self, f):
        return NodeRec(self.kind, f(self.sh) if self.sh is not None else None,
                       f(self.ident) if self.ident is not None else None,
                       f(self.name), {k: f(v) for k, v in self.attrs.items()}, self.known, f(self.text),
                       tuple(f(c) for c in self._chunks) if self._chunks is not None else None,
                       f(self.parent), self.fresh)

    def existing(self, cx, e0, x):
        if self.ident is None:
            return None
        t = Q.sub(self.ident, e0, x)
        return cx.noderefs.get(('node', t.get_id()))

    def register(self, cx, ref):
        if self.ident is not None:
            cx.noderefs[('node', self.ident.get_id())] = ref
            cx.keep.append(self.ident)


########################################################################
# making nodes, for goals

def node(cx, kind='tag', name=None, attrs=None, known=False, chunks=None, parent=None, base='n', sh=None, text=None):
    """a node of the document before anything was done to it"""
    t = sh if sh is not None else cx.node(base)
    ref = cx.new(NodeRec(kind, t, t, name, attrs, known, text, chunks, parent))
    cx.rec(ref).register(cx, ref)
    for c in chunks or ():
        adopt(cx, ref, c)
    return ref


def adopt(cx, parent, c):
    if isinstance(c, Elem):
        cx.rec(c.v).parent = parent
    elif isinstance(c, Seg):
        for p in c.paths:
            for d in p.values:
                adopt(cx, parent, d)
    elif isinstance(c, Bag):
        for d in c.flat():
            adopt(cx, parent, d)


def every_node(cx, src):
    """what the goal says of every node in the document"""
    f = cx.memo.get('every_node')
    if f is not None:
        Q.forall(cx, src, src.e0, f(src.e0))


def some_nodes(cx, name, pred=None, kind=None):
    """
    A Seg of any number of nodes. pred(cx, ref) says what's known of each:
    a z3 formula about the generic node (its shadow is src.e0).
    """
    src = Q.Src(cx, name)
    cx.memo.setdefault('generics', {})[src.e0.get_id()] = src.e0
    g = list(cx.generic)
    cx.generic = g + [src.e0]
    ref = cx.new(NodeRec(kind, src.e0, src.e0))
    cx.generic = g
    cx.rec(ref).register(cx, ref)
    every_node(cx, src)
    if pred is not None:
        Q.forall(cx, src, src.e0, pred(src.e0))
    return Q.full_seg(cx, src, ref)


def new_tag(cx, name, **kw):
    return cx.new(NodeRec('tag', None, None, name, {}, True, None, (), None))


def new_text(cx, text):
    return cx.new(NodeRec('text', None, None, None, {}, True, text, (), None))


########################################################################
# basic questions

def is_tag(cx, ref):
    """bool or SBool"""
    rec = cx.rec(ref)
    if rec.kind is None:
        return SBool(ISTAG(rec.sh))
    return rec.kind in ('tag', 'doc')


def tag_p(cx, ref):
    """branches"""
    return cx.branch(is_tag(cx, ref))


def is_text(cx, ref):
    return not tag_p(cx, ref)


def name_of(cx, ref):
    rec = cx.rec(ref)
    if not tag_p(cx, ref):
        return None
    if rec.name is not None:
        return rec.name
    return S.from_term(NAME(rec.sh))


def text_of(cx, ref):
    rec = cx.rec(ref)
    if rec.text is not None:
        return rec.text
    return S.from_term(TEXT(rec.sh))


def attr_has(cx, ref, k):
    """bool or SBool"""
    rec = cx.rec(ref)
    if k in rec.attrs:
        return rec.attrs[k] is not ABSENT
    if rec.known:
        return False
    return SBool(HAS(k)(rec.sh))


def attr_value(cx, ref, k):
    rec = cx.rec(ref)
    if k in rec.attrs:
        return rec.attrs[k]
    return S.from_term(ATTR(k)(rec.sh))


def one_key(cx, k):
    if isinstance(k, str):
        return k
    if isinstance(k, SStr):
        raise Unsupported('an attribute with an unknown name')
    raise Unsupported('an attribute name which is not a text')


def attr_get(cx, ref, k, default=None):
    k = one_key(cx, k)
    if cx.branch(attr_has(cx, ref, k)):
        return attr_value(cx, ref, k)
    return default


def attr_set(cx, ref, k, v):
    cx.rec(ref).attrs[one_key(cx, k)] = v


def attr_del(cx, ref, k, strict=False):
    k = one_key(cx, k)
    if strict and not cx.branch(attr_has(cx, ref, k)):
        raise PyRaise(KeyError, (k,))
    cx.rec(ref).attrs[k] = ABSENT


########################################################################
# children

def children(cx, ref):
    rec = cx.rec(ref)
    if rec._chunks is None:
        rec._chunks = pristine(cx, ref, rec)
    return rec._chunks


def pristine(cx, ref, rec):
    """the children it had to begin with"""
    g = list(cx.generic)
    cx.generic = list(rec.gen)
    try:
        key = ('kids', rec.sh.get_id())
        src = cx.noderefs.get(key)
        if src is None:
            src = Q.Src(cx, f'kids({rec.sh})')
            src.of = ('kids', rec.sh)
            every_node(cx, src)
            cx.noderefs[key] = src
            cx.keep.append(rec.sh)
            cx.memo.setdefault('generics', {})[src.e0.get_id()] = src.e0
        ckey = ('child', ref.id)
        kid = cx.noderefs.get(ckey)
        if kid is None:
            cx.generic = list(rec.gen) + [src.e0]
            if rec.fresh:
                kid = cx.new(NodeRec(None, src.e0, None, parent=ref, fresh=True))
            else:
                kid = cx.new(NodeRec(None, src.e0, src.e0, parent=ref))
                cx.rec(kid).register(cx, kid)
            cx.noderefs[ckey] = kid
        return (Q.full_seg(cx, src, kid),)
    finally:
        cx.generic = g


def require_tag(cx, ref, name):
    if not tag_p(cx, ref):
        raise PyRaise(AttributeError, (name,))


def contents_list(cx, ref, kind='list'):
    from .interp import ListRec
    return cx.new(ListRec(children(cx, ref), kind))


def where_in(cx, ref):
    """(parent Ref, position among its chunks)"""
    rec = cx.rec(ref)
    p = rec.parent
    if not isinstance(p, Ref):
        raise Unsupported('the place of a node among siblings we do not know')
    ch = Q.norm(cx, children(cx, p))
    for i, c in enumerate(ch):
        if isinstance(c, Elem) and same_ref(cx, c.v, ref):
            cx.rec(p).set_chunks(ch)
            return p, i
    raise Unsupported('the place of a node among its siblings')


def same_ref(cx, a, b):
    if a == b:
        return True
    ra, rb = cx.rec(a), cx.rec(b)
    return ra.ident is not None and rb.ident is not None and ra.ident.eq(rb.ident)


def extract(cx, ref):
    rec = cx.rec(ref)
    if rec.parent is None:
        return ref
    if isinstance(rec.parent, Above):
        cx.run.assumptions.add('a node taken out of surroundings we know nothing of leaves the rest of them alone (bs4)')
        rec.parent = None
        return ref
    p, i = where_in(cx, ref)
    pr = cx.rec(p)
    pr.set_chunks(pr.chunks()[:i] + pr.chunks()[i+1:])
    cx.rec(ref).parent = None
    return ref


def as_node(cx, v):
    if S.is_str(v):
        return new_text(cx, v)
    if isinstance(v, Ref) and isinstance(cx.rec(v), NodeRec):
        return v
    raise Unsupported(f'putting {v!r} into a document')


def append(cx, ref, v):
    v = as_node(cx, v)
    if same_ref(cx, v, ref):
        raise PyRaise(ValueError, ())
    extract(cx, v)
    ch = children(cx, ref)
    cx.rec(ref).set_chunks(tuple(ch) + (Elem(v),))
    cx.rec(v).parent = ref


def insert_at(cx, p, i, v):
    pr = cx.rec(p)
    pr.set_chunks(pr.chunks()[:i] + (Elem(v),) + pr.chunks()[i:])
    cx.rec(v).parent = p


def insert(cx, ref, pos, *vs):
    if not isinstance(pos, int):
        raise Unsupported('inserting at an unknown position')
    for v in vs:
        v = as_node(cx, v)
        if same_ref(cx, v, ref):
            raise PyRaise(ValueError, ())
        if cx.rec(v).parent == ref:
            raise Unsupported('moving a node within its parent')
        extract(cx, v)
        ch = Q.force(cx, children(cx, ref), pos) if pos else children(cx, ref)
        cx.rec(ref).set_chunks(ch)
        insert_at(cx, ref, min(pos, len(ch)), v)
        pos += 1


def insert_before(cx, ref, *vs):
    if cx.rec(ref).parent is None:
        raise PyRaise(ValueError, ())
    for v in vs:
        v = as_node(cx, v)
        if same_ref(cx, v, ref):
            raise PyRaise(ValueError, ())
        extract(cx, v)
        p, i = where_in(cx, ref)
        insert_at(cx, p, i, v)


def insert_after(cx, ref, *vs):
    if cx.rec(ref).parent is None:
        raise PyRaise(ValueError, ())
    off = 0
    for v in vs:
        v = as_node(cx, v)
        if same_ref(cx, v, ref):
            raise PyRaise(ValueError, ())
        extract(cx, v)
        p, i = where_in(cx, ref)
        insert_at(cx, p, i+1+off, v)
        off += 1


def replace_with(cx, ref, *vs):
    rec = cx.rec(ref)
    if rec.parent is None:
        raise PyRaise(ValueError, ())
    if len(vs) == 1 and isinstance(vs[0], Ref) and same_ref(cx, vs[0], ref):
        return None
    vs = [as_node(cx, v) for v in vs]
    if isinstance(rec.parent, Above):
        if len(vs) != 1:
            raise Unsupported('replacing a node in unknown surroundings')
        extract(cx, vs[0])
        cx.rec(vs[0]).parent = rec.parent
        rec.parent = None
        return ref
    p, i = where_in(cx, ref)
    for v in vs:
        if any(same_ref(cx, v, q) for q in ancestors_known(cx, ref)):
            raise PyRaise(ValueError, ())
    extract(cx, ref)
    for v in vs:
        before = cx.rec(v).parent
        if before == p:
            raise Unsupported('moving a node within its parent')
        extract(cx, v)
    for k, v in enumerate(vs):
        insert_at(cx, p, i+k, v)
    return ref


def ancestors_known(cx, ref):
    out = []
    p = cx.rec(ref).parent
    while isinstance(p, Ref):
        out.append(p)
        p = cx.rec(p).parent
    return out


def clear(cx, ref, decompose=False):
    if decompose is not False:
        raise Unsupported('decomposing')
    ch = Q.norm(cx, children(cx, ref))

    def detach(c):
        if isinstance(c, Elem):
            cx.rec(c.v).parent = None
        elif isinstance(c, Seg):
            for p in c.paths:
                for d in p.values:
                    detach(d)
            cx.src[('mut', c.src.id)] = True
        elif isinstance(c, Bag):
            for d in c.flat():
                detach(d)
        else:
            raise Unsupported('clear() within a loop')
    for c in ch:
        detach(c)
    cx.rec(ref).set_chunks(())


def parents(cx, ref):
    """chunks: all the ancestors"""
    out = []
    p = cx.rec(ref).parent
    while isinstance(p, Ref):
        out.append(Elem(p))
        p = cx.rec(p).parent
    if isinstance(p, Above):
        if p.name:
            key = ('above', id(p))
            seg = cx.noderefs.get(key)
            if seg is None:
                seg = some_nodes(cx, 'ancestors', kind='tag')
                cx.noderefs[key] = seg
            out.append(seg)
        out.extend(Elem(k) for k in p.known)
    return tuple(out)


def string_of(cx, ref):
    """.string"""
    if not tag_p(cx, ref):
        return text_of(cx, ref)
    ch = Q.norm(cx, children(cx, ref))
    if not Q.simple(ch):
        ch = Q.force(cx, ch, 2)
        cx.rec(ref).set_chunks(ch)
    els = [c for c in ch if isinstance(c, Elem)]
    if len(els) != 1:
        return None
    return string_of(cx, els[0].v)


def all_text(cx, ref):
    """.text"""
    if not tag_p(cx, ref):
        return text_of(cx, ref)
    rec = cx.rec(ref)
    if rec._chunks is None:
        return S.from_term(ALLTEXT(rec.sh))
    ch = Q.norm(cx, rec._chunks)
    if not Q.simple(ch):
        if same_chunks(ch, pristine(cx, ref, rec)):
            return S.from_term(ALLTEXT(rec.sh))
        raise Unsupported('.text')
    return S.concat(*[all_text(cx, c.v) for c in ch]) if ch else ''


def same_chunks(a, b):
    return len(a) == len(b) and all(chunk_same(x, y) for x, y in zip(a, b))


def chunk_same(x, y):
    if x is y:
        return True
    if isinstance(x, Elem) and isinstance(y, Elem):
        return Q.same(x.v, y.v)
    if isinstance(x, Seg) and isinstance(y, Seg):
        return x.src is y.src and x.rev == y.rev and len(x.paths) == len(y.paths) and all(
            len(p.conds) == len(q.conds) and all(a.eq(b) for a, b in zip(p.conds, q.conds)) and same_chunks(p.values, q.values)
            for p, q in zip(x.paths, y.paths))
    return False


def set_string(cx, ref, v):
    require_tag(cx, ref, 'string')
    clear(cx, ref)
    if v is None or not S.is_str(v):
        # NavigableString(x) for a number and so on is an error or worse
        if v is None:
            raise Unsupported('.string = None')
        raise PyRaise(TypeError, ())
    append(cx, ref, v)


def copy_node(cx, ref, parent=None):
    rec = cx.rec(ref)
    if rec.kind is None:
        new = NodeRec(None, rec.sh, None, rec.name, dict(rec.attrs), rec.known, rec.text, None, parent, True)
    else:
        new = NodeRec(rec.kind, rec.sh, None, rec.name, dict(rec.attrs), rec.known, rec.text, None, parent, True)
    out = cx.new(new)
    if rec._chunks is not None:
        new._chunks = tuple(copy_chunk(cx, c, out) for c in Q.norm(cx, rec._chunks))
    return out


def copy_chunk(cx, c, parent):
    if isinstance(c, Elem):
        return Elem(copy_node(cx, c.v, parent))
    if isinstance(c, Seg):
        g = list(cx.generic)
        cx.generic = g + [c.src.e0]
        try:
            return Seg(c.src, [Q.Path(p.conds, p.facts, [copy_chunk(cx, d, parent) for d in p.values]) for p in c.paths], c.rev)
        finally:
            cx.generic = g
    if isinstance(c, Bag):
        raise Unsupported('copying nodes of unknown order')
    raise Unsupported('copying a node within a loop')


########################################################################
# searching

def descendants(cx, ref):
    """chunks: all below it, in document order"""
    out = []
    rec = cx.rec(ref)
    if rec._chunks is None:
        return (desc_seg(cx, ref, rec),)
    def down(d):
        res = []
        for x in d:
            if not isinstance(x, Elem):
                raise Unsupported('descendants')
            res.append(x)
            r = cx.rec(x.v)
            if r.kind != 'text' and not (r.kind == 'tag' and r._chunks == ()):
                res.extend(descendants(cx, x.v))
        return res

    def seg(c):
        return Seg(c.src, [Q.Path(p.conds, p.facts, down(p.values)) for p in c.paths], c.rev)

    for c in Q.norm(cx, rec._chunks):
        if isinstance(c, Elem):
            out.extend(down([c]))
        elif isinstance(c, Seg):
            out.append(seg(c))
        elif isinstance(c, Bag):
            # each stays together with what's in it
            inner = []
            for d in c.chunks:
                if isinstance(d, Seg):
                    inner.append(seg(d))
                else:
                    inner.append(Q.Grp(down(d.values if isinstance(d, Q.Grp) else [d])))
            out.append(Bag(inner, c.order, c.keys))
        else:
            raise Unsupported('descendants')
    return tuple(out)


def desc_seg(cx, ref, rec):
    g = list(cx.generic)
    cx.generic = list(rec.gen)
    try:
        key = ('desc', rec.sh.get_id())
        src = cx.noderefs.get(key)
        if src is None:
            src = Q.Src(cx, f'desc({rec.sh})')
            src.of = ('desc', rec.sh)
            every_node(cx, src)
            cx.noderefs[key] = src
            cx.keep.append(rec.sh)
            # a text has nothing in it
            Q.forall(cx, src, src.e0, ISTAG(rec.sh) if rec.kind is None else z3.BoolVal(True))
        ckey = ('descendant', ref.id)
        kid = cx.noderefs.get(ckey)
        if kid is None:
            cx.generic = list(rec.gen) + [src.e0]
            kid = cx.new(NodeRec(None, src.e0, None if rec.fresh else src.e0, parent=Above('within', parents_known(cx, ref)), fresh=rec.fresh))
            cx.rec(kid).register(cx, kid)
            cx.noderefs[ckey] = kid
        return Q.full_seg(cx, src, kid)
    finally:
        cx.generic = g


def parents_known(cx, ref):
    return [ref] + [c.v for c in parents(cx, ref) if isinstance(c, Elem)]


def matches(cx, ref, name, attrs):
    """does a tag match? branches. (A text is never a match.)"""
    if not tag_p(cx, ref):
        return False
    it = cx.interp
    if name is not None and name is not True:
        if S.is_str(name):
            if not cx.branch(it.eq(name_of(cx, ref), name)):
                return False
        elif isinstance(name, (FnVal, Bound)) or callable(name):
            if not it.truth(it.call(name, [ref])):
                return False
        else:
            raise Unsupported(f'find({name!r})')
    for k, want in attrs:
        if want is True:
            if not cx.branch(attr_has(cx, ref, k)):
                return False
            continue
        if not S.is_str(want):
            raise Unsupported(f'find(attrs={want!r})')
        if cx.branch(attr_has(cx, ref, k)):
            have = attr_value(cx, ref, k)
            if not S.is_str(have):
                have = it.to_str(have)
            if not cx.branch(it.eq(have, want)):
                return False
        elif not it.truth(it.eq(want, '')):
            return False
    return True


def find_all_ref(cx, args, kw, limit=False):
    from .interp import ListRec
    args = list(args)
    ref = args.pop(0)
    names = ['name', 'attrs', 'recursive', 'string', 'limit']
    got = dict(zip(names, args))
    extra = []
    for k, v in kw.items():
        if k in names:
            got[k] = v
        elif k == 'class_' or k == '**':
            raise Unsupported('find(class_)')
        else:
            extra.append((k, v))
    if got.get('string') is not None or got.get('limit') is not None:
        raise Unsupported('find_all(string or limit)')
    attrs = []
    a = got.get('attrs')
    if a is not None:
        if isinstance(a, dict):
            attrs = list(a.items())
        else:
            rec = cx.rec(a)
            for c in Q.norm(cx, rec.chunks()):
                if not isinstance(c, Elem) or not isinstance(c.v[0], str):
                    raise Unsupported('find(attrs)')
                attrs.append(c.v)
    attrs += extra
    rec_ = got.get('recursive', True)
    if not isinstance(rec_, bool):
        rec_ = cx.interp.truth(rec_)
    name = got.get('name')
    out = cx.new(ListRec(()))
    chunks = descendants(cx, ref) if rec_ else children(cx, ref)

    def run(n):
        if matches(cx, n, name, attrs):
            r = cx.rec(out)
            r.set_chunks(r.chunks() + (Elem(n),))
    Q.loop(cx, chunks, run)
    return out


def find_all(cx, args, kw):
    require_tag(cx, args[0], 'find_all')
    return find_all_ref(cx, args, kw)


def find(cx, args, kw):
    require_tag(cx, args[0], 'find')
    l = find_all_ref(cx, args, kw)
    c = Q.force(cx, cx.rec(l).chunks(), 1)
    return c[0].v if c else None


def find_parents(cx, args, kw):
    from .interp import ListRec
    chunks = parents(cx, args[0])
    if len(args) == 1 and not kw:
        return cx.new(ListRec(chunks))
    if len(args) > 2 or kw:
        raise Unsupported('find_parents() with arguments')
    out = cx.new(ListRec(()))

    def run(n):
        if matches(cx, n, args[1], []):
            r = cx.rec(out)
            r.set_chunks(r.chunks() + (Elem(n),))
    Q.loop(cx, chunks, run)
    return out


def find_parent(cx, args, kw):
    l = find_parents(cx, args, kw)
    c = Q.force(cx, cx.rec(l).chunks(), 1)
    return c[0].v if c else None


def siblings(cx, ref, following):
    from .models import reverse_chunks
    if cx.rec(ref).parent is None:
        return ()
    p, i = where_in(cx, ref)
    ch = Q.norm(cx, children(cx, p))
    return ch[i+1:] if following else reverse_chunks(ch[:i])


def find_siblings(cx, ref, following, all_, args, kw):
    from .interp import ListRec
    if len(args) > 1 or kw:
        raise Unsupported('find_next_siblings() with arguments')
    out = cx.new(ListRec(()))

    def run(n):
        if tag_p(cx, n) and (not args or matches(cx, n, args[0], [])):
            r = cx.rec(out)
            r.set_chunks(r.chunks() + (Elem(n),))
    Q.loop(cx, siblings(cx, ref, following), run)
    if all_:
        return out
    c = Q.force(cx, cx.rec(out).chunks(), 1)
    return c[0].v if c else None


########################################################################
# attributes

class AttrsRec(Rec):
    """tag.attrs: looks through to the tag"""
    def __init__(self, ref):
        self.ref = ref

    def blank(self):
        return AttrsRec(self.ref)

    def fields(self):
        return {}

    def subst(self, f):
        return AttrsRec(f(self.ref))

    def getitem(self, cx, k):
        k = one_key(cx, k)
        if cx.branch(attr_has(cx, self.ref, k)):
            return attr_value(cx, self.ref, k)
        raise PyRaise(KeyError, (k,))

    def setitem(self, cx, k, v):
        attr_set(cx, self.ref, k, v)

    def delitem(self, cx, k):
        attr_del(cx, self.ref, k, True)

    def contains(self, cx, k):
        v = attr_has(cx, self.ref, one_key(cx, k))
        return v

    def getattr(self, cx, ref, name):
        if name == '__contains__':
            return PyModel('dict.__contains__', lambda cx, a, kw: self.contains(cx, a[0]))
        if name in ('items', 'keys', 'values', 'copy'):
            def listed(cx, a, kw):
                r = cx.rec(self.ref)
                if not r.known or any(v is not ABSENT and not isinstance(v, str) and not S.is_str(v) for v in r.attrs.values()):
                    raise Unsupported('all attributes of an unknown tag')
                d = {k: v for k, v in r.attrs.items() if v is not ABSENT}
                if name == 'copy':
                    from .interp import DictRec
                    return cx.new(DictRec([Elem((k, v)) for k, v in d.items()]))
                return cx.interp.new_list([(k, v) if name == 'items' else k if name == 'keys' else v for k, v in d.items()])
            return PyModel(f'dict.{name}', listed)
        if name == 'get':
            return PyModel('dict.get', lambda cx, a, kw: attr_get(cx, self.ref, *a))
        if name == 'pop':
            def pop(cx, a, kw):
                if cx.branch(attr_has(cx, self.ref, one_key(cx, a[0]))):
                    v = attr_value(cx, self.ref, a[0])
                    attr_del(cx, self.ref, a[0])
                    return v
                if len(a) > 1:
                    return a[1]
                raise PyRaise(KeyError, (a[0],))
            return PyModel('dict.pop', pop)
        if name == 'setdefault':
            def setdefault(cx, a, kw):
                if cx.branch(attr_has(cx, self.ref, one_key(cx, a[0]))):
                    return attr_value(cx, self.ref, a[0])
                attr_set(cx, self.ref, a[0], a[1])
                return a[1]
            return PyModel('dict.setdefault', setdefault)
        if name == 'clear':
            def clr(cx, a, kw):
                r = cx.rec(self.ref)
                r.attrs, r.known = {}, True
            return PyModel('dict.clear', clr)
        if name == 'update':
            def upd(cx, a, kw):
                for k, v in dict_pairs(cx, a[0]):
                    attr_set(cx, self.ref, k, v)
                for k, v in kw.items():
                    attr_set(cx, self.ref, k, v)
            return PyModel('dict.update', upd)
        raise Unsupported(f'attrs.{name}')

    def truth(self, cx):
        r = cx.rec(self.ref)
        if r.known:
            return any(v is not ABSENT for v in r.attrs.values())
        raise Unsupported('whether there are attributes')


def dict_pairs(cx, d):
    if isinstance(d, dict):
        return list(d.items())
    rec = cx.rec(d)
    if isinstance(rec, AttrsRec):
        r = cx.rec(rec.ref)
        if not r.known:
            raise Unsupported('all attributes of an unknown tag')
        return [(k, v) for k, v in r.attrs.items() if v is not ABSENT]
    out = []
    for c in Q.norm(cx, rec.chunks()):
        if not isinstance(c, Elem) or not isinstance(c.v[0], str):
            raise Unsupported('attributes from an unknown dict')
        out.append(c.v)
    return out


########################################################################
# for the interpreter

def _method(name, fn):
    def get(cx, ref):
        return PyModel(f'bs4.Tag.{name}', lambda cx, a, kw: fn(cx, ref, *a, **kw))
    return get


def _contents(cx, ref):
    return contents_list(cx, ref)


METHODS = {
    'append': append, 'insert': insert, 'clear': clear, 'get': attr_get,
    'has_attr': lambda cx, ref, k: attr_has(cx, ref, one_key(cx, k)),
    'get_text': all_text,
    'extend': lambda cx, ref, vs: [append(cx, ref, v) for v in cx.interp.concrete(vs)] and None,
}
# for texts too
PAGE = {
    'replace_with': replace_with, 'extract': extract, 'insert_before': insert_before, 'insert_after': insert_after,
}


def getattr_(cx, ref, name):
    if name == 'parent':
        p = cx.rec(ref).parent
        if isinstance(p, Above):
            c = parents(cx, ref)
            if p.name:
                key = ('parentabove', id(p))
                r = cx.noderefs.get(key)
                if r is None:
                    r = node(cx, 'tag', base='ancestor', parent=p)
                    cx.noderefs[key] = r
                return r
            return c[0].v if c else None
        return p
    if name == 'name':
        return name_of(cx, ref)
    if name in PAGE:
        return PyModel(f'bs4.Tag.{name}', lambda cx, a, kw: PAGE[name](cx, ref, *a, **kw))
    if name == 'find_parents':
        return PyModel('bs4.Tag.find_parents', lambda cx, a, kw: find_parents(cx, [ref] + a, kw))
    if name == 'find_parent':
        return PyModel('bs4.Tag.find_parent', lambda cx, a, kw: find_parent(cx, [ref] + a, kw))
    if name == 'parents':
        from .interp import ListRec
        return cx.new(ListRec(parents(cx, ref), 'iter'))
    if name in ('next_siblings', 'previous_siblings'):
        from .interp import ListRec
        return cx.new(ListRec(siblings(cx, ref, name == 'next_siblings'), 'iter'))
    if name in ('next_sibling', 'previous_sibling'):
        c = Q.force(cx, siblings(cx, ref, name == 'next_sibling'), 1)
        return c[0].v if c else None
    if name in ('find_next_siblings', 'find_previous_siblings', 'find_next_sibling', 'find_previous_sibling'):
        return PyModel(f'bs4.Tag.{name}', lambda cx, a, kw: find_siblings(cx, ref, 'next' in name, name.endswith('s'), a, kw))
    if name == 'string':
        return string_of(cx, ref)
    if name == 'text':
        return all_text(cx, ref)
    if name == '__class__':
        return type_of(cx, ref)
    if name == 'tag':
        # a tag called <tag> inside it; hasattr(x, 'tag') is true of any Tag
        raise Unsupported('.tag of a Tag')
    if not tag_p(cx, ref):
        return cx.interp.models.value_getattr(cx, text_of(cx, ref), name)
    if name == 'attrs':
        return cx.new(AttrsRec(ref))
    if name in METHODS:
        return PyModel(f'bs4.Tag.{name}', lambda cx, a, kw: METHODS[name](cx, ref, *a, **kw))
    if name in ('find_all', 'findAll'):
        return PyModel('bs4.Tag.find_all', lambda cx, a, kw: find_all(cx, [ref] + a, kw))
    if name == 'find':
        return PyModel('bs4.Tag.find', lambda cx, a, kw: find(cx, [ref] + a, kw))
    if name in ('__copy__', '__deepcopy__') and cx.rec(ref).kind == 'tag':
        return PyModel(f'bs4.Tag.{name}', lambda cx, a, kw: copy_node(cx, ref))
    if name in ('decode', 'encode'):
        def to_text(cx, a, kw):
            if name == 'decode' and not a and not kw:
                return decode(cx, ref)
            if name == 'encode' and len(a) <= 1 and set(kw) <= {'encoding'}:
                # (which is the same as encoding the text, for UTF-8)
                enc = a[0] if a else kw.get('encoding', 'utf-8')
                import codecs
                if codecs.lookup(enc).name == 'utf-8':
                    from . import files
                    return files.encode(cx, decode(cx, ref), enc)
            raise Unsupported(f'bs4.Tag.{name}')
        return PyModel(f'bs4.Tag.{name}', to_text)
    if name == 'contents':
        return contents_list(cx, ref)
    if name == 'children':
        return contents_list(cx, ref, 'iter')
    if name == 'descendants':
        from .interp import ListRec
        return cx.new(ListRec(descendants(cx, ref), 'iter'))
    raise Unsupported(f'bs4.Tag.{name}')


def setattr_(cx, ref, name, v):
    rec = cx.rec(ref)
    if name == 'name':
        if not S.is_str(v):
            raise Unsupported('a name which is not a text')
        rec.name = v
    elif name == 'attrs':
        pairs = dict_pairs(cx, v)
        rec.attrs = {}
        rec.known = True
        for k, x in pairs:
            attr_set(cx, ref, k, x)
    elif name == 'string':
        set_string(cx, ref, v)
    else:
        raise Unsupported(f'bs4.Tag.{name} = ...')


def getitem(cx, ref, k):
    require_tag(cx, ref, '__getitem__')
    k = one_key(cx, k)
    if cx.branch(attr_has(cx, ref, k)):
        return attr_value(cx, ref, k)
    raise PyRaise(KeyError, (k,))


def setitem(cx, ref, k, v):
    require_tag(cx, ref, '__setitem__')
    attr_set(cx, ref, k, v)


def delitem(cx, ref, k):
    require_tag(cx, ref, '__delitem__')
    attr_del(cx, ref, k)


def type_of(cx, ref):
    if not tag_p(cx, ref):
        return bs4.element.NavigableString
    return bs4.BeautifulSoup if cx.rec(ref).kind == 'doc' else bs4.Tag


isinst = isinstance


def isinstance_(cx, ref, c):
    """bool or SBool"""
    if isinst(c, tuple):
        t = any(issubclass(bs4.Tag, x) for x in c)
        s = any(issubclass(bs4.element.NavigableString, x) for x in c)
        d = any(issubclass(bs4.BeautifulSoup, x) for x in c)
    else:
        t = issubclass(bs4.Tag, c)
        s = issubclass(bs4.element.NavigableString, c)
        d = issubclass(bs4.BeautifulSoup, c)
    rec = cx.rec(ref)
    if rec.kind == 'doc':
        return d
    if t == s:
        return t
    z = is_tag(cx, ref)
    if t:
        return z
    return (not z) if isinst(z, bool) else SBool(z3.Not(z.z))


def truth(cx, ref):
    rec = cx.rec(ref)
    if rec.kind in ('tag', 'doc') or tag_p(cx, ref):
        return True
    return cx.interp.truth(text_of(cx, ref))


def same_node(cx, a, b):
    if a == b:
        return True
    ra, rb = cx.rec(a), cx.rec(b)
    if ra.ident is None or rb.ident is None:
        return False
    return mkbool(z3.simplify(ra.ident == rb.ident))


def eq(cx, a, b):
    if same_ref(cx, a, b):
        return True
    raise Unsupported('comparing the contents of tags')


def eq_str(cx, ref, s):
    if tag_p(cx, ref):
        return False
    return cx.interp.eq(text_of(cx, ref), s)


def contains(cx, x, ref):
    raise Unsupported('x in tag')


def decode(cx, ref):
    h = cx.memo.get('xml')
    if h is not None:
        return h(cx, ref)
    raise Unsupported('the text of a tag')


def tag_constructor(cx, args, kw):
    if args:
        raise Unsupported('bs4.Tag with positional arguments')
    attrs = kw.pop('attrs', None) if 'attrs' in kw else None
    if set(kw) - {'name'}:
        raise Unsupported(f'bs4.Tag({kw})')
    name = kw.get('name')
    if not S.is_str(name):
        raise PyRaise(ValueError, ())
    ref = new_tag(cx, name)
    if attrs is not None:
        for k, v in dict_pairs(cx, attrs):
            attr_set(cx, ref, k, v)
    return ref


def text_constructor(cx, args, kw):
    return new_text(cx, cx.interp.to_str(args[0]))


def soup_constructor(cx, args, kw):
    h = cx.memo.get('BeautifulSoup')
    if h is not None:
        return h(cx, args, kw)
    raise Unsupported('parsing XML')


def find_model(fn):
    if fn is bs4.Tag:
        return tag_constructor
    if fn is bs4.element.NavigableString:
        return text_constructor
    if fn is bs4.BeautifulSoup:
        return soup_constructor
    return None

