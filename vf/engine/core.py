"""
The symbolic machine: terms, paths, the heap, and obligations.

A "goal" is a Python function goal(cx) which makes symbolic inputs, calls the
real functions of /repo through the interpreter (interp.py), and states what
must be true with cx.prove().  explore() runs it once per path: cx.branch()
asks the solver which sides are possible and takes each in a separate run.
Nothing is bounded except where an Unsupported is raised, which makes every
obligation of that goal undecided.
"""
import time
import z3

z3.z3.Z3_DEBUG = False             # its checks of our use of it take longer than the solving

Node = z3.DeclareSort('Node')      # elements of sequences, and nodes of documents
Str = z3.DeclareSort('Str')        # texts we know nothing else about


class Unsupported(Exception):
    """The code uses something outside the reach of this verifier."""


class NeedSigns(Unsupported):
    """the characters of a number of either sign: try again, with each"""


class Infeasible(BaseException):
    """This path contradicts itself."""


class OutOfTime(BaseException):
    pass


class PyRaise(Exception):
    """A Python exception, raised by the interpreted code."""
    def __init__(self, cls, args=(), value=None):
        self.cls = cls
        self.args_ = args
        self.value = value

    def __str__(self):
        return f'{self.cls.__name__}'


########################################################################
# Values

class Sym:
    __slots__ = ()


class SInt(Sym):
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __repr__(self):
        return f'SInt({self.z})'


class SReal(Sym):
    """a float, treated as a mathematical real"""
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __repr__(self):
        return f'SReal({self.z})'


class SBool(Sym):
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __repr__(self):
        return f'SBool({self.z})'


class StrAtom:
    """a text about which we know nothing but a term"""
    __slots__ = ('z', 'char')

    def __init__(self, z, char=False):
        self.z = z
        self.char = char      # whether it's known to be exactly one character

    def key(self):
        return ('s', self.z.get_id())

    def __repr__(self):
        return f'<{self.z}>'


class NumAtom:
    """
    The text of a non-negative number, in decimal and without an exponent.

    kind:  'fix<n>'  '%.<n>f'        'int'  decimal digits
           'strip'   fix, without trailing zeroes (and maybe point)
           'dot'     as strip, but still possibly ending with the point
           'repr'    repr of a float (may have an exponent!)
           'num'     any numeral float() accepts with [0-9.]+
           'hex2'    two lower-case hex digits
    val:   z3 Real: what float() gives when it's read back
    """
    __slots__ = ('kind', 'val', 'integral')

    def __init__(self, kind, val, integral=False):
        self.kind = kind
        self.val = val
        self.integral = integral

    def key(self):
        return ('n', self.kind, self.val.get_id())

    def __repr__(self):
        return f'<{self.kind}:{self.val}>'


class SStr(Sym):
    """A rope: literals and atoms. Adjacent literals are merged; no empty literals."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SStr):
                for q in p.parts:
                    SStr._push(out, q)
            else:
                SStr._push(out, p)
        self.parts = tuple(out)

    @staticmethod
    def _push(out, p):
        if isinstance(p, str):
            if p == '':
                return
            if out and isinstance(out[-1], str):
                out[-1] += p
                return
        out.append(p)

    def key(self):
        return tuple(p if isinstance(p, str) else p.key() for p in self.parts)

    def __repr__(self):
        return 'SStr' + repr(self.parts)


def mkstr(parts):
    s = SStr(parts)
    if not s.parts:
        return ''
    if len(s.parts) == 1 and isinstance(s.parts[0], str):
        return s.parts[0]
    return s


class Ref(Sym):
    """a reference to a mutable object in the heap"""
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(('ref', self.id))

    def __repr__(self):
        return f'Ref({self.id})'


class Poison(Sym):
    """a variable whose value after some iterations of a loop isn't tracked"""
    def __init__(self, why):
        self.why = why


class Rec:
    """
    Base of heap records. gen is the generic elements it depends on.

    fields() gives a dict of everything a loop body might change;
    put back with set_fields().
    """
    gen = ()
    when = ()        # for an object belonging to a generic element: it's only there if these hold

    def copy(self):
        r = self.blank()
        r.gen = self.gen
        r.when = self.when
        return r

    def fields(self):
        raise NotImplementedError

    def subst(self, f):
        """a copy, with f applied to every value and term"""
        raise NotImplementedError


class InstRec(Rec):
    """an instance of a class of the repository; cls may be an AnyOf"""
    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}

    def blank(self):
        return InstRec(self.cls, dict(self.attrs))

    def fields(self):
        return {('attr', k): v for k, v in self.attrs.items()}

    def set_field(self, k, v):
        self.attrs[k[1]] = v

    def subst(self, f):
        cls = self.cls
        if isinstance(cls, AnyOf) and cls.conds is not None:
            cls = AnyOf(cls.base, cls.classes, [f(z) for z in cls.conds])
        return InstRec(cls, {k: f(v) for k, v in self.attrs.items()})


class AnyOf:
    """the class of an instance, when it's one of several; conds: when it's which"""
    def __init__(self, base, classes, conds=None):
        self.base = base
        self.classes = classes
        self.conds = conds
        self.__name__ = f'AnyOf({base.__name__})'


class FnVal:
    """a function or lambda defined by interpreted code"""
    def __init__(self, node, frame, name, defaults, kwdefaults, modinfo):
        self.node = node
        self.frame = frame
        self.name = name
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.modinfo = modinfo
        self.__name__ = name


class Bound:
    def __init__(self, fn, self_):
        self.fn = fn
        self.self = self_


class PyModel:
    """a function implemented by the model: fn(cx, args, kwargs)"""
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.__name__ = name


class ExcVal:
    def __init__(self, cls, args):
        self.cls = cls
        self.args_ = args


########################################################################
# z3 helpers

def rv(x):
    """an exact z3 real for a host number"""
    from fractions import Fraction
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return z3.RealVal(x)
    f = Fraction(repr(x)) if isinstance(x, float) else Fraction(x)
    return z3.RealVal(f'{f.numerator}/{f.denominator}')


def is_num(v):
    return isinstance(v, (int, float, SInt, SReal)) and not isinstance(v, bool)


def zreal(v):
    if isinstance(v, SReal):
        return v.z
    if isinstance(v, SInt):
        return z3.ToReal(v.z)
    if isinstance(v, SBool):
        return z3.If(v.z, rv(1), rv(0))
    if isinstance(v, (bool, int, float)):
        return rv(v)
    raise Unsupported(f'number expected: {v!r}')


def zint(v):
    if isinstance(v, SInt):
        return v.z
    if isinstance(v, SBool):
        return z3.If(v.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, (bool, int)):
        return z3.IntVal(int(v))
    raise Unsupported(f'integer expected: {v!r}')


def zbool(v):
    if isinstance(v, SBool):
        return v.z
    if isinstance(v, bool):
        return z3.BoolVal(v)
    raise Unsupported(f'boolean expected: {v!r}')


def mkbool(z):
    if isinstance(z, bool):
        return z
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SBool(z)


def mkreal(z):
    return SReal(z3.simplify(z)) if not z3.is_const(z) else SReal(z)


_int_memo = {}


def integral(z):
    """whether a real term is an integer by its very form"""
    k = z.get_id()
    if k in _int_memo:
        return _int_memo[k][0]
    r = False
    if z3.is_rational_value(z):
        r = z.denominator_as_long() == 1
    elif z3.is_to_real(z):
        r = True
    elif z3.is_add(z) or z3.is_mul(z) or z3.is_sub(z):
        r = all(integral(c) for c in z.children())
    elif z3.is_app(z) and z.decl().kind() == z3.Z3_OP_UMINUS:
        r = integral(z.children()[0])
    elif z3.is_app(z) and z.decl().kind() == z3.Z3_OP_ITE:
        r = integral(z.arg(1)) and integral(z.arg(2))
    _int_memo[k] = (r, z)
    return r


_lin = {}
_mono = {}


def linearise(z):
    """
    The formula, with every product of unknowns replaced by an unknown: what
    follows from the result follows from the formula.
    """
    k = z.get_id()
    if k in _lin:
        return _lin[k][0]
    r = _linearise(z3.simplify(z, som=True))
    _lin[k] = (r, z)
    return r


def _linearise(z):
    k = z.get_id()
    if k in _lin:
        return _lin[k][0]
    if not z3.is_app(z) or z.num_args() == 0:
        return z
    args = [_linearise(c) for c in z.children()]
    if z3.is_mul(z) and sum(not z3.is_rational_value(c) and not z3.is_int_value(c) for c in z.children()) > 1:
        unknown = [a for a in args if not z3.is_rational_value(a) and not z3.is_int_value(a)]
        known = [a for a in args if z3.is_rational_value(a) or z3.is_int_value(a)]
        key = tuple(sorted(a.get_id() for a in unknown))
        if key not in _mono:
            _mono[key] = (z3.FreshConst(z.sort(), 'mono'), unknown)
        r = _mono[key][0]
        for a in known:
            r = a*r
    elif any(not a.eq(c) for a, c in zip(args, z.children())):
        if z3.is_and(z):
            r = z3.And(*args)
        elif z3.is_or(z):
            r = z3.Or(*args)
        elif z3.is_add(z):
            r = z3.Sum(*args)
        elif z3.is_distinct(z):
            r = z3.Distinct(*args)
        elif z3.is_mul(z):
            r = z3.Product(*args)
        else:
            r = z.decl()(*args)
    else:
        r = z
    _lin[k] = (r, z)
    return r


class Solver:
    def __init__(self, timeout_ms):
        self.s = z3.Solver()
        self.s.set('timeout', timeout_ms)
        self.all = []
        self.marks = []
        self.linear = False

    def add(self, *zs):
        for z in zs:
            self.all.append(z)
            self.s.add(linearise(z) if self.linear else z)

    def push(self):
        self.s.push()
        self.marks.append(len(self.all))

    def pop(self):
        self.s.pop()
        del self.all[self.marks.pop():]

    def check(self):
        return self.s.check()

    def model(self):
        return self.s.model()

    def assertions(self):
        return list(self.all)


########################################################################
# Paths

class Obligation:
    def __init__(self, name):
        self.name = name
        self.proved = 0
        self.refuted = []
        self.unknown = []


class Run:
    """Everything about the verification of one goal."""
    def __init__(self, name, budget=60.0):
        self.name = name
        self.obligations = {}
        self.paths = 0
        self.solver_calls = 0
        self.solver_time = 0.0
        self.problems = []
        self.covers = {}
        self.deadline = time.time() + budget
        self.functions = set()      # functions interpreted
        self.contracts_used = set()
        self.models_used = set()
        self.assumptions = set()
        self.answers = {}           # what the solver said along the common beginnings of paths
        self.places = {}

    def ob(self, name):
        return self.obligations.setdefault(name, Obligation(name))


class Ctx:
    def __init__(self, run, prefix, interp_cls, timeout_ms=4000):
        self.run = run
        self.prefix = prefix
        self.pos = 0
        self.decisions = []        # (choice, alternatives still to try)
        self.solver = Solver(timeout_ms)
        self.full = None           # when linear(), a second solver which knows about multiplication
        self.facts = []            # definitions made along this path
        self.conds = []            # what was assumed or branched on along this path
        self.axiom_ids = {}
        self.src = {}              # states of sources (seqs.py)
        self.inst = {}             # instances of generic objects
        self.heap = {}
        self.next_id = 1
        self.frames = []
        self.counter = 0
        self.generic = []          # stack of generic elements (terms) we're inside loops over
        self.nesting = 0
        self.tag = ''
        self.lits = {}
        self.lit_terms = []
        self.overlay = {}
        self.memo = {}             # functional memo (z3 term keyed); not part of the snapshot
        self.keep = []             # keep z3 terms alive whose ids we use
        self.noderefs = {}
        self.trail = []
        self.place = 0             # which decisions were made, outside loop bodies, so far
        self.asked = 0             # how many questions were asked since the last of them
        self.interp = interp_cls(self)
        self.lit('')

    def went(self, c):
        """a decision was made"""
        if not self.nesting:
            self.place = self.run.places.setdefault((self.place, c), len(self.run.places)+1)
            self.asked = 0

    def remembered(self, *zs):
        """
        Every path is followed from the beginning, so the same questions are
        asked again until it parts from the others. (key, answer or None)
        """
        self.asked += 1
        key = (self.place, self.asked, len(self.solver.all), self.solver.linear) + tuple(z.hash() for z in zs)
        return key, self.run.answers.get(key)

    def linear(self):
        """
        From here on, decide with products of unknowns as unknowns; unless that
        doesn't prove something, when the whole is tried.
        """
        self.solver.linear = True

    # -- names
    def fresh_name(self, base):
        self.counter += 1
        if self.nesting:
            # along different paths of a loop body the same number means different things
            return f'{base}!{self.counter}@{self.tag}:' + ''.join(str(c) for c, _ in self.decisions)
        return f'{base}!{self.counter}'

    def _fresh(self, base, sort):
        n = self.fresh_name(base)
        if self.generic:
            f = z3.Function(n, *([Node]*len(self.generic)), sort)
            t = f(*self.generic)
        else:
            t = z3.Const(n, sort)
        self.keep.append(t)
        return t

    def real(self, base='r'):
        return self._fresh(base, z3.RealSort())

    def int(self, base='i'):
        return self._fresh(base, z3.IntSort())

    def bool(self, base='b'):
        return self._fresh(base, z3.BoolSort())

    def str(self, base='s'):
        return self._fresh(base, Str)

    def node(self, base='n'):
        return self._fresh(base, Node)

    def lit(self, s):
        """the term for a literal text"""
        if s not in self.lits:
            t = z3.Const('lit:' + s, Str)
            for o in self.lit_terms:
                self.solver.add(t != o)
            self.lits[s] = t
            self.lit_terms.append(t)
            self.keep.append(t)
            from . import strings
            strings.literal_axioms(self, s, t)
        return self.lits[s]

    # -- the heap
    def new(self, rec, gen=None):
        i = self.next_id
        self.next_id += 1
        self.heap[i] = rec
        rec.gen = tuple(self.generic) if gen is None else tuple(gen)
        return Ref(i)

    def rec(self, ref):
        return self.heap[ref.id]

    # -- facts
    def axiom(self, *zs):
        """facts of the models, true of any terms at all"""
        for z in zs:
            if z is True or (z is not False and z3.is_true(z)):
                continue
            k = z.get_id()
            if k in self.axiom_ids:
                continue
            self.axiom_ids[k] = z
            self.solver.add(z)

    def fact(self, z):
        """the definition of a new term (true in every possible world)"""
        if z is True or z3.is_true(z):
            return
        self.facts.append(z)
        self.axiom(z)

    def assume(self, v):
        z = v if z3.is_expr(v) else zbool(v)
        self.conds.append(z)
        self.solver.add(z)
        if self.replaying():
            self.asked += 1
        elif self.check() == z3.unsat:
            raise Infeasible()

    def hold(self, z):
        """something known about a term here, which isn't a condition of this path"""
        if z3.is_true(z):
            return
        self.solver.add(z)

    def replaying(self):
        return self.pos < len(self.prefix)

    def check(self, *extra):
        key, r = self.remembered(*extra)
        if r is not None:
            return r
        if time.time() > self.run.deadline:
            raise OutOfTime()
        t = time.time()
        self.run.solver_calls += 1
        if extra:
            self.solver.push()
            self.solver.add(*extra)
            r = self.solver.check()
            self.solver.pop()
        else:
            r = self.solver.check()
        self.run.solver_time += time.time()-t
        self.run.answers[key] = r
        return r

    def entails(self, z):
        """True if z certainly holds here"""
        if z3.is_true(z):
            return True
        return self.check(z3.Not(z)) == z3.unsat

    def branch(self, v, what=None):
        """Which way does a condition go? Both ways are explored, if possible."""
        if isinstance(v, bool):
            return v
        z = v.z if isinstance(v, SBool) else v
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append((c, []))
            self.conds.append(z if c else z3.Not(z))
            self.solver.add(z if c else z3.Not(z))
            self.trail.append((c, z))
            self.went(c)
            return bool(c)
        can_t = self.check(z) != z3.unsat
        can_f = self.check(z3.Not(z)) != z3.unsat if can_t else True
        if can_t and can_f:
            c, alts = 1, [0]
        elif can_t:
            c, alts = 1, []
        else:
            c, alts = 0, []
        self.pos += 1
        self.prefix = self.prefix + [c]
        self.decisions.append((c, alts))
        self.conds.append(z if c else z3.Not(z))
        self.solver.add(z if c else z3.Not(z))
        self.trail.append((c, z))
        self.went(c)
        return bool(c)

    def choose(self, n, what='choice'):
        """an arbitrary choice between n alternatives, all of which are explored"""
        if n == 1:
            return 0
        sel = self.int('choice')
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append((c, []))
        else:
            c = 0
            self.pos += 1
            self.prefix = self.prefix + [0]
            self.decisions.append((0, list(range(1, n))))
        self.trail.append((c, what))
        self.conds.append(sel == c)
        self.solver.add(sel == c)
        self.went(c)
        return c

    # -- obligations
    def prove(self, v, name, info=None):
        ob = self.run.ob(name)
        if isinstance(v, bool):
            if v:
                ob.proved += 1
                return True
            if self.check() == z3.unsat:
                raise Infeasible()
            if self.solver.linear and _mono:
                r = self.second_opinion(z3.BoolVal(False))
                if r == 'unsat':
                    raise Infeasible()
                if r == 'unknown':
                    ob.unknown.append(self.describe(None, info))
                    return False
            ob.refuted.append(self.describe(None, info))
            return False
        z = v.z if isinstance(v, SBool) else v
        key, r = self.remembered(z)
        if r == z3.unsat:
            ob.proved += 1
            return True
        t = time.time()
        self.run.solver_calls += 1
        self.solver.push()
        self.solver.add(z3.Not(z))
        r = self.solver.check()
        self.run.answers[key] = r
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        self.run.solver_time += time.time()-t
        if r == z3.unsat:
            ob.proved += 1
            return True
        if r == z3.sat and not (self.solver.linear and _mono):
            ob.refuted.append(self.describe(m, info, z))
            return False
        # a second opinion
        r2 = self.second_opinion(z)
        if r2 == 'unsat':
            ob.proved += 1
            return True
        if r2 == 'sat':
            ob.refuted.append(self.describe(self.second_model, info, z))
            return False
        ob.unknown.append(self.describe(None, info, z))
        return False

    def second_opinion(self, z):
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*self.solver.assertions())
        s.add(z3.Not(z))
        t = z3.Then('simplify', 'solve-eqs', 'smt').solver()
        t.set('timeout', 10000)
        t.add(*s.assertions())
        self.run.solver_calls += 1
        t0 = time.time()
        r = t.check()
        self.run.solver_time += time.time()-t0
        if r == z3.unsat:
            return 'unsat'
        if r == z3.sat:
            self.second_model = t.model()
            return 'sat'
        return 'unknown'

    def describe(self, model, info, z=None):
        d = {'trail': [f'{c}: {z3.simplify(t) if z3.is_expr(t) else t}'[:160] for c, t in self.trail[-14:]]}
        if z is not None:
            d['goal'] = str(z)[:300]
        if info:
            d['info'] = str(info)[:500]
        if model is not None:
            d['model'] = {str(k): str(model[k])[:60] for k in list(model.decls())[:40] if not str(k).startswith('lit:')}
        return d

    def cover(self, name):
        """something which must be reachable, so that the proof isn't vacuous"""
        self.run.covers.setdefault(name, 0)
        if self.check() == z3.sat:
            self.run.covers[name] += 1

    # -- nested exploration (for loop bodies)
    def snapshot(self):
        return ({i: r.copy() for i, r in self.heap.items()}, [(f, dict(f.vars)) for f in self.frames], dict(self.overlay),
                dict(self.noderefs), len(self.frames), dict(self.src), dict(self.inst), list(self.generic))

    def restore(self, snap):
        heap, frames, overlay, noderefs, n, src, inst, generic = snap
        self.src = dict(src)
        self.inst = dict(inst)
        self.generic = list(generic)
        live = self.heap
        self.heap = {}
        for i, r in heap.items():
            c = r.copy()
            # the same objects, for whoever holds on to them
            o = live.get(i)
            if type(o) is type(c):
                o.__dict__.clear()
                o.__dict__.update(c.__dict__)
                c = o
            self.heap[i] = c
        del self.frames[n:]
        for f, v in frames:
            f.vars = dict(v)
        self.overlay = dict(overlay)
        self.noderefs = dict(noderefs)

    def nested(self, fn, max_paths=400):
        """
        Explores fn() from the present state, along all its paths.
        Returns a list of (conds, facts, result, state after); the state is
        then as it was before.
        """
        snap = self.snapshot()
        saved = (self.prefix, self.pos, self.decisions, self.facts, self.trail, self.conds)
        self.counter += 1
        saved_counter = self.counter
        saved_tag = self.tag
        new_tag = self.tag + ':' + ''.join(str(c) for c, _ in self.decisions) + f'/{saved_counter}' if self.nesting else f'{saved_counter}'
        top = saved_counter
        out = []
        stack = [[]]
        while stack:
            if len(out) > max_paths:
                raise Unsupported('too many paths in a loop body')
            self.prefix, self.pos, self.decisions, self.facts, self.conds = stack.pop(), 0, [], [], []
            self.trail = list(saved[4])
            n0 = len(self.prefix)
            self.solver.push()
            nlits = (dict(self.lits), list(self.lit_terms))
            naxioms = len(self.axiom_ids)
            self.nesting += 1
            # the same names along all paths, so that their common parts agree
            self.counter = saved_counter
            self.tag = new_tag
            ok = True
            try:
                result = fn()
            except Infeasible:
                ok = False
            finally:
                self.nesting -= 1
                self.tag = saved_tag
                decs = self.decisions
                facts = self.facts
                conds = self.conds
                top = max(top, self.counter)
                if ok:
                    state = self.snapshot()
                self.solver.pop()
                new_lits = [s for s in self.lits if s not in nlits[0]]
                self.lits, self.lit_terms = nlits
                self.restore(snap)
                self.prefix, self.pos, self.decisions, self.facts, self.trail, self.conds = saved
                for s in new_lits:
                    self.lit(s)
                for z in list(self.axiom_ids.values())[naxioms:]:
                    self.solver.add(z)
            for i in range(len(decs)):
                if i >= n0:
                    for alt in decs[i][1]:
                        stack.append([d[0] for d in decs[:i]] + [alt])
            if ok:
                out.append((conds, facts, result, state))
        self.counter = top
        return out


def explore(name, goal, interp_cls, budget=60.0, max_paths=5000, timeout_ms=4000, signs=False):
    run = Run(name, budget)
    run.signs = signs      # whether to ask for the sign of numbers which are written
    stack = [[]]
    t0 = time.time()
    while stack:
        prefix = stack.pop()
        if run.paths >= max_paths:
            run.problems.append('too many paths')
            break
        cx = Ctx(run, list(prefix), interp_cls, timeout_ms)
        try:
            goal(cx)
            run.paths += 1
        except Infeasible:
            pass
        except OutOfTime:
            run.problems.append('out of time')
            break
        except NeedSigns as e:
            if not signs:
                return explore(name, goal, interp_cls, budget, max_paths, timeout_ms, True)
            run.problems.append(f'unsupported: {e} ' + cx.interp.where())
            break
        except Unsupported as e:
            run.problems.append(f'unsupported: {e} ' + cx.interp.where())
            break
        except PyRaise as e:
            run.problems.append(f'uncaught {e.cls.__name__} in the goal itself: {e.args_} ' + cx.interp.where())
            run.ob('no unexpected exception').refuted.append(cx.describe(None, f'{e.cls.__name__} {cx.interp.where()}'))
            break
        except RecursionError:
            run.problems.append('unsupported: recursion too deep')
            break
        for i in range(len(prefix), len(cx.decisions)):
            for alt in cx.decisions[i][1]:
                stack.append([d[0] for d in cx.decisions[:i]] + [alt])
        if any(o.refuted for o in run.obligations.values()) and sum(len(o.refuted) for o in run.obligations.values()) > 5:
            break
    run.wall = time.time()-t0
    return run
