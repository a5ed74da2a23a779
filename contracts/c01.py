"""C01: Boolean expressions."""

import itertools
import types

from contracts.common import Contract, Concrete, outcome
from contracts import harness
from libff.filter import Matcher, Excluder, Filter
from libff.parser import AND, NOT, OR, Parser, ParserError, Test
from libff.exceptions import ExpressionError
from pyvc.values import Unsupported

OPEN, CLOSE = ("(", "{{"), (")", "}}")


# ------------------------------------------------------------------------------------ concrete runs
class Malformed(Exception):
    pass


class Unspecified(Exception):
    pass


def meaning(tokens, atom):
    """The value of a list of tests; raises Malformed, or Unspecified where nothing is promised."""
    toks = list(tokens)
    unspecified = []

    def group(style):
        alternatives, conjunction = [], []
        operand = False         # a test or bracket is next to the left
        while toks:
            t = toks[0]
            u = t.upper()
            if t in CLOSE:
                if style is None:
                    raise Malformed("superfluous bracket")
                break
            toks.pop(0)
            if u == "AND":
                if not operand or not toks or toks[0].upper() in ("AND", "OR") or toks[0] in CLOSE:
                    unspecified.append(u)
                continue
            if u == "OR":
                alternatives.append(conjunction)
                conjunction = []
                operand = False
                continue
            negate = u == "NOT"
            if negate:
                if not toks or toks[0] in CLOSE or toks[0].upper() in ("AND", "OR", "NOT"):
                    raise Malformed("nothing to negate")
                t = toks.pop(0)
            if t in OPEN:
                v = group(t)
                if toks.pop(0) != CLOSE[OPEN.index(t)]:
                    unspecified.append(t)
            else:
                v = atom(t)
            conjunction.append(v != negate)
            operand = True
        alternatives.append(conjunction)
        if style is not None and not toks:
            raise Malformed("bracket is not closed")
        if not all(alternatives) and (len(alternatives) > 1 or style is not None):
            raise Malformed("empty operand")
        return any(all(a) for a in alternatives)
    v = group(None)
    if unspecified:
        raise Unspecified
    return v


ATTRS = [p + n for p in "fns" for n in ("_num", "_num2", "_num3")]


def atom(vt):
    def value(t):
        attr, _, number = t.partition("=")
        return vt.get(attr) == int(number)
    return value


def run(inp):
    """[tokens, values of the attributes]"""
    tokens, vt = inp
    try:
        exp = meaning(tokens, atom(vt))
    except (Malformed, Unspecified):
        return None
    k, m = outcome(harness.matcher, tokens)
    if k == "raise":
        return f"rejected: {m!r}"
    for _ in range(2):
        k, r = outcome(m.test, harness.FakeEntry(vt))
        if k == "raise":
            return f"raised {r!r}"
        if bool(r) != exp:
            return f"entry with {vt} is {'' if r else 'not '}selected by {tokens}"
    return None


def case(rng, word):
    return rng.choice([word, word.lower(), word.upper(), word.capitalize(), "".join(rng.choice([c, c.upper()])
        for c in word)])


def expression(rng, depth, attrs):
    """A well-formed list of tokens."""
    out = []
    for i in range(rng.choice([1, 1, 1, 2, 2, 3])):
        if i:
            out.append(case(rng, "or"))
        for j in range(rng.choice([1, 1, 2, 2, 3, 4])):
            if j and rng.random() < 0.3:
                out.append(case(rng, "and"))
            if rng.random() < 0.3:
                out.append(case(rng, "not"))
            if depth and rng.random() < 0.35:
                k = rng.randrange(2)
                out += [OPEN[k]] + expression(rng, depth - 1, attrs) + [CLOSE[k]]
            else:
                out.append(f"{rng.choice(attrs)}={rng.randrange(2)}")
    return out


def values(rng, attrs):
    return {a: rng.randrange(2) for a in attrs if rng.random() < 0.8}


def gen(rng):
    attrs = rng.sample(ATTRS, rng.choice([2, 3, 5, 9]))
    return [expression(rng, rng.choice([0, 1, 2, 3, 6]), attrs) if rng.random() < 0.98 else [],
        values(rng, attrs)]


def assignments(tokens):
    attrs = sorted({t.partition("=")[0] for t in tokens if "=" in t})
    for vs in itertools.product([0, 1, None], repeat=len(attrs)):
        yield [tokens, {a: v for a, v in zip(attrs, vs) if v is not None}]


A, B, C, D = "f_num=1", "s_num=1", "n_num=1", "n_num2=1"
SHAPES = [s.split() for s in ("", "A", "A B", "A and B", "A or B", "not A", "A or B C", "A B or C", "A or not B C",
    "not A or B", "not A B", "( A or B ) C", "C ( A or B )", "not ( A or B )", "not ( A B )", "not {{ A B }} C",
    "{{ ( A ) }}", "( ( A or B ) ( C or D ) )", "A or ( B ( C or not D ) )", "( A ) or ( B )", "not ( not A )",
    "A or B or C", "not ( A or B C ) D", "not ( A or not ( B or not ( C or not D ) ) )", "A Or B aNd C oR nOt D",
    "B or A C", "( B or A ) or C", "not ( A or B or C )", "not ( A ) not ( B )", "A or B or C D",
    "( A B ) or ( C D )", "A ( B ( C ( D ) ) )", "not B A", "( not A or B ) ( not C or D )")]


def directed():
    for shape in SHAPES:
        yield from assignments([{"A": A, "B": B, "C": C, "D": D}.get(t, t) for t in shape])


def run_ff(inp):
    """The same through the command line: tests on names."""
    tokens, names = inp
    try:
        exp = sorted(n for n in names if meaning(tokens, lambda t: t[5:] in n))
    except (Malformed, Unspecified):
        return None
    root = harness.scratch("c01")
    try:
        harness.tree(root, {n: "" for n in names})
        st, out, err = harness.ff(["--no-cache", "-0", "type=f"] + (["("] + tokens + [")"] if tokens else []),
            root)
        got = sorted(out.split("\0")[:-1])
        if got != exp or st != 0 or err:
            return f"{tokens} finds {got} among {sorted(names)} (exit {st}) {err[-300:]}"
        return None
    finally:
        harness.remove(root)


def gen_ff(rng):
    attrs = ["name:" + c for c in "abcd"]
    tokens = [t.partition("=")[0] for t in expression(rng, rng.choice([0, 1, 2]), attrs)]
    names = sorted({"".join(sorted(rng.sample("abcdxy", rng.randint(1, 5)))) for _ in range(10)})
    return [tokens, names]


CONCRETE = [Concrete("matcher", run, gen, directed, count=20000),
    Concrete("ff", run_ff, gen_ff, [[[], ["a", "b"]]], timeout=60)]


# ---------------------------------------------------------------------------------------- contracts
ERR, EOF, CLOSED = 0, 1, 2


def copy_of(fn):
    """The same function as another object, so that a model of the original does not apply to it."""
    return types.FunctionType(fn.__code__, fn.__globals__, fn.__name__, fn.__defaults__, fn.__closure__)


def any_group(seqs):
    return any(all_nodes(g) for g in seqs)


def any_but_last(seqs):
    return any(all_nodes(g) for g in seqs[:-1])


def all_nodes(group):
    raise NotImplementedError


def node_value(node):
    raise NotImplementedError


def is_empty(group):
    raise NotImplementedError


def every_node(nodes):
    return all(node_value(x) for x in nodes)


def some_empty(seqs):
    return any(is_empty(g) for g in seqs)


def no_items(xs):
    return len(xs) == 0


def single(seqs):
    return len(seqs) == 1


def last_of(seqs):
    return seqs[-1]


def but_last(seqs):
    return seqs[:-1]


class World:
    """Nodes, groups and the meaning of lists of tokens."""

    def __init__(self, E):
        import z3
        from pyvc.values import BOOL, STR, Opaque, SBool, SData, SeqP, MList
        self.E, self.z3 = E, z3
        self.Node = Opaque("Node", attrs={"value": BOOL}, isinstance_=lambda E, v, cls: True)
        self.Group = Opaque("Group", attrs={"value": BOOL, "empty": BOOL})
        self.Group.methods["__bool__"] = lambda E, g: SBool(z3.Not(E.getattr(g, "empty").t))
        self.S = z3.StringSort()
        self.SS = z3.SeqSort(self.S)
        B = z3.BoolSort()
        sig = [self.SS] + [B] * 5
        self.kind = z3.Function("P.kind", *sig, z3.IntSort())
        self.value = z3.Function("P.value", *sig, B)
        self.rest = z3.Function("P.rest", *sig, self.SS)
        self.tail = z3.Function("P.tail", self.SS, self.SS)
        self.invalid = z3.Function("invalid", self.S, B)
        self.truth = z3.Function("truth", self.S, B)
        self.SBool, self.SData, self.SeqP, self.MList, self.STR = SBool, SData, SeqP, MList, STR
        E.model(node_value, self.h_node)
        E.model(all_nodes, self.h_group)
        E.model(is_empty, self.h_empty)

    # -- values of nodes and groups
    def h_node(self, E, x):
        if isinstance(x, self.SData):
            return E.getattr(x, "value")
        if isinstance(x, self.MList):
            z3 = self.z3
            v = E.truth_term(E.call(every_node if x.cls.name == "AND" else any_group, [x]))
            return self.SBool(z3.Not(v) if x.cls.name == "NOT" else v)
        raise Unsupported(f"value of {x!r}")

    def h_group(self, E, g):
        if isinstance(g, self.SData):
            return E.getattr(g, "value")
        return E.call(every_node, [g])

    def h_empty(self, E, g):
        if isinstance(g, self.SData):
            return E.getattr(g, "empty")
        return E.call(no_items, [g])

    def state(self, seqs):
        """orv, andv, cur, anyempty, single"""
        E, z3 = self.E, self.z3
        t = lambda fn, *a: E.as_bool_term(E.call(fn, list(a)))
        last = E.call(last_of, [seqs])
        closed = E.call(but_last, [seqs])
        return (t(any_group, closed), t(all_nodes, last), z3.Not(t(is_empty, last)), t(some_empty, closed),
            t(single, seqs))

    # -- meaning of tokens
    def word(self, t, w):
        z3 = self.z3
        return z3.InRe(t, z3.Concat(*[z3.Union(z3.Re(c.lower()), z3.Re(c.upper())) for c in w]))

    def one_of(self, t, ws):
        return self.z3.Or([t == w for w in ws])

    def P(self, tokens, st):
        """The meaning of a list of tokens in a state: kind, value, rest. Its definition unfolds as
           soon as the verifier takes the list apart."""
        E, z3 = self.E, self.z3
        t = E.embed_rope(tokens, self.STR)
        return self.parsed(t, st)

    def parsed(self, t, st):
        a = (t,) + tuple(st)
        return self.kind(*a), self.value(*a), self.rest(*a)

    INIT = property(lambda self: tuple(self.z3.BoolVal(x) for x in (False, True, False, False, True)))

    def add(self, st, v):
        z3 = self.z3
        orv, andv, cur, anyempty, one = st
        return orv, z3.And(andv, v), z3.BoolVal(True), anyempty, one

    def alternative(self, st):
        z3 = self.z3
        orv, andv, cur, anyempty, one = st
        return z3.Or(orv, andv), z3.BoolVal(True), z3.BoolVal(False), z3.Or(anyempty, z3.Not(cur)), z3.BoolVal(False)

    def same(self, p, q):
        z3 = self.z3
        return z3.And(p[0] == q[0], z3.Implies(p[0] != ERR, z3.And(p[1] == q[1], p[2] == q[2])))

    def unfold(self, tokens, st):
        E, z3 = self.E, self.z3
        ps = E.norm(tokens.pieces)
        self.unfold_rope(ps, st)

    def unfold_rope(self, ps, st, depth=0):
        E, z3 = self.E, self.z3
        p = self.parsed(E.embed_rope(list(ps), self.STR), st)
        orv, andv, cur, anyempty, one = st
        end = self.same(p, (z3.If(z3.And(z3.Not(one), z3.Or(anyempty, z3.Not(cur))), z3.IntVal(ERR),
            z3.IntVal(EOF)), z3.Or(orv, andv), z3.Empty(self.SS)))
        if not ps:
            E.fact(end)
            return
        if isinstance(ps[0], self.SeqP):
            s = ps[0]
            if len(ps) == 1:
                E.fact(z3.Implies(z3.Length(s.t) == 0, end))
            E.apps.append((s.t, lambda rope: self.unfold_rope(E.norm(list(rope) + list(ps[1:])), st)))
            return
        h = self.STR.unwrap(E, ps[0])
        r = E.norm(ps[1:])
        rt = E.embed_rope(list(r), self.STR)
        opening, closing = self.one_of(h, OPEN), self.one_of(h, CLOSE)
        is_and, is_or, is_not = (self.word(h, w) for w in ("AND", "OR", "NOT"))
        error = (z3.IntVal(ERR), z3.BoolVal(False), rt)
        q = self.parsed(rt, self.INIT)
        E.fact(z3.Implies(opening, z3.If(q[0] == CLOSED, self.same(p, self.parsed(self.tail(q[2]),
            self.add(st, q[1]))), p[0] == ERR)))
        E.fact(z3.Implies(closing, z3.If(z3.Or(anyempty, z3.Not(cur)), p[0] == ERR, self.same(p, (
            z3.IntVal(CLOSED), z3.Or(orv, andv), E.embed_rope(list(ps), self.STR))))))
        E.fact(z3.Implies(is_and, self.same(p, self.parsed(rt, st))))
        E.fact(z3.Implies(is_or, self.same(p, self.parsed(rt, self.alternative(st)))))
        E.fact(z3.Implies(z3.Not(z3.Or(opening, closing, is_and, is_or, is_not)), z3.If(self.invalid(h),
            p[0] == ERR, self.same(p, self.parsed(rt, self.add(st, self.truth(h)))))))
        self.unfold_not(p, is_not, r, st)

    def unfold_not(self, p, is_not, r, st):
        E, z3 = self.E, self.z3
        if not r:
            E.fact(z3.Implies(is_not, p[0] == ERR))
            return
        if isinstance(r[0], self.SeqP):
            if len(r) == 1:
                E.fact(z3.Implies(z3.And(is_not, z3.Length(r[0].t) == 0), p[0] == ERR))
            E.apps.append((r[0].t, lambda rope: self.unfold_not(p, is_not, E.norm(list(rope) + list(r[1:])),
                st)))
            return
        h = self.STR.unwrap(E, r[0])
        rt = E.embed_rope(E.norm(r[1:]), self.STR)
        q = self.parsed(rt, self.INIT)
        opening = self.one_of(h, OPEN)
        bad = z3.Or(self.one_of(h, CLOSE), *[self.word(h, w) for w in ("AND", "OR", "NOT")])
        E.fact(z3.Implies(z3.And(is_not, opening), z3.If(q[0] == CLOSED, self.same(p, self.parsed(self.tail(
            q[2]), self.add(st, z3.Not(q[1])))), p[0] == ERR)))
        E.fact(z3.Implies(z3.And(is_not, bad), p[0] == ERR))
        E.fact(z3.Implies(z3.And(is_not, z3.Not(opening), z3.Not(bad)), z3.If(self.invalid(h), p[0] == ERR,
            self.same(p, self.parsed(rt, self.add(st, z3.Not(self.truth(h))))))))

    # -- contracts of the parser's functions
    def h_parse_test(self, E, parser, token):
        t = self.STR.unwrap(E, token)
        if E.branch(self.invalid(t)):
            E.throw(ExpressionError, "invalid")
        node = self.SData(E.fresh_const("test", self.Node.sort()), self.Node)
        E.fact(E.getattr(node, "value").t == self.truth(t))
        return node

    def groups(self, cls):
        """Any list of groups."""
        E = self.E
        return [E.fresh_seq("groups", self.Group), self.MList(E, [E.fresh_seq("nodes", self.Node)], cls=AND,
            ty=self.Node)]

    def h_parse_sequence(self, E, parser, seqs):
        z3 = self.z3
        tokens = E.getattr(parser, "tokens")
        st = self.state(seqs)
        E.ensure("brackets are parsed from their beginning", self.SBool(z3.And([a == b for a, b in zip(st,
            self.INIT)])))
        p = self.parsed(E.embed_rope(tokens, self.STR), self.INIT)
        k = E.choice(3)
        E.assume(self.SBool(p[0] == k))
        if k == ERR:
            E.throw(ParserError, "malformed")
        E.note_write(tokens)
        E.note_write(seqs)
        seqs.pieces = self.groups(seqs.cls)
        E.assume(self.SBool(E.as_bool_term(E.call(any_group, [seqs])) == p[1]))
        if k == EOF:
            tokens.pieces = []
        else:
            h = self.STR.fresh(E, "bracket")
            r = E.fresh_seq("rest", self.STR)
            E.assume(self.SBool(self.one_of(h.t, CLOSE)))
            tokens.pieces = [h, r]
            E.assume(self.SBool(p[2] == E.embed_rope(tokens, self.STR)))
            E.fact(self.tail(p[2]) == r.t)
        return None


def same_meaning(tokens, seqs):
    raise NotImplementedError


def inv_meaning(the_parser, the_seqs):
    return same_meaning(the_parser.tokens, the_seqs)


def some_groups(seqs):
    raise NotImplementedError


def inv_groups(the_seqs):
    return some_groups(the_seqs)


def is_word(token, word):
    raise NotImplementedError


def is_invalid(token):
    raise NotImplementedError


def is_true(token):
    raise NotImplementedError


def reference(tokens, i):
    """The meaning of tokens[i:]: kind, value, position of the closing bracket."""
    some, every, empty, empties, one = False, True, True, False, True
    while i < len(tokens):
        t = tokens[i]
        i += 1
        if t in CLOSE:
            return (ERR if empties or empty else CLOSED), some or every, i - 1
        if is_word(t, "AND"):
            continue
        if is_word(t, "OR"):
            some, every, empty, empties, one = some or every, True, True, empties or empty, False
            continue
        negate = is_word(t, "NOT")
        if negate:
            if i == len(tokens):
                return ERR, False, i
            t = tokens[i]
            i += 1
            if t in CLOSE or is_word(t, "AND") or is_word(t, "OR") or is_word(t, "NOT"):
                return ERR, False, i
        if t in OPEN:
            kind, value, i = reference(tokens, i)
            if kind != CLOSED:
                return ERR, False, i
            i += 1
        else:
            if is_invalid(t):
                return ERR, False, i
            value = is_true(t)
        if value == negate:
            every = False
        empty = False
    return (ERR if not one and (empties or empty) else EOF), some or every, i


def bounded_parse(E, w, whole, cls):
    """The same for lists of a few tokens, without any contract of the functions that are called but
       for single tests."""
    from pyvc.values import STR, SObj
    E.model(is_word, lambda E, t, word: w.SBool(w.word(STR.unwrap(E, t), word)))
    E.model(is_invalid, lambda E, t: w.SBool(w.invalid(STR.unwrap(E, t))))
    E.model(is_true, lambda E, t: w.SBool(w.truth(STR.unwrap(E, t))))
    E.model(Parser.parse_test, w.h_parse_test)
    ts = [STR.fresh(E, "token") for _ in range(E.choice(E.bound + 3))]
    E.inputs["tokens"] = E.new_list(list(ts), ty=STR)
    tokens = E.new_list(list(ts), ty=STR)
    parser = SObj(E, Parser, {"tokens": tokens})
    kind, value, end = E.run(reference, E.new_list(list(ts), ty=STR), 0)
    seqs = E.new_list([E.new_list([], cls=AND)], cls=cls)
    if whole:
        k, r = E.call_outcome(Parser.parse, parser)
        fails = kind != EOF
    else:
        k, r = E.call_outcome(Parser.parse_sequence, parser, seqs)
        fails = kind == ERR
    if k == "raise":
        E.ensure("only malformed tests are rejected", fails)
        return
    E.ensure("malformed tests are rejected", not fails)
    v = E.as_bool_term(E.call(value_of, [r])) if whole else E.as_bool_term(E.call(any_group, [seqs]))
    E.ensure("the tests have the value of the formula" if whole else "the groups have the value of the formula",
        w.SBool(v == w.z3.BoolVal(value) if isinstance(value, bool) else v == E.truth_term(value)))
    if not whole:
        E.ensure("brackets end at the first closing bracket that is not part of another one", E.eq(tokens,
            E.new_list(ts[end:], ty=STR)))


def c_parse_sequence(cls):
    def body(E):
        import z3
        from pyvc.values import STR, SObj
        w = World(E)
        if E.bound:
            bounded_parse(E, w, False, cls)
            return
        tokens = E.list_input("tokens", STR)
        parser = SObj(E, Parser, {"tokens": tokens})
        seqs = E.new_list([E.new_list([], cls=AND)], cls=cls)
        goal = w.parsed(E.embed_rope(tokens, STR), w.INIT)
        E.ghosts.update(the_parser=parser, the_seqs=seqs)

        def h_same(E, tokens, seqs):
            st = w.state(seqs)
            w.unfold(tokens, st)
            return E.mkbool(w.same(goal, w.P(tokens, st)))
        E.model(same_meaning, h_same)

        def hook(E, name, cell):
            if cell is seqs:
                cell.pieces = w.groups(cls)
                return True
            return isinstance(cell, w.MList) and cell.cls is AND
        E.cell_hook = hook
        E.model(Parser.parse_test, w.h_parse_test)
        E.model(Parser.parse_sequence, w.h_parse_sequence)
        E.invariants = [inv_meaning]
        k, r = E.call_outcome(copy_of(Parser.parse_sequence), parser, seqs)
        if k == "raise":
            E.ensure("only malformed tests are rejected", w.SBool(goal[0] == ERR))
        else:
            E.ensure("malformed tests are rejected", w.SBool(goal[0] != ERR))
            E.ensure("the groups have the value of the formula", w.SBool(E.as_bool_term(E.call(any_group,
                [seqs])) == goal[1]))
            E.ensure("brackets end at the first closing bracket that is not part of another one", w.SBool(
                z3.If(goal[0] == EOF, E.embed_rope(tokens, STR) == z3.Empty(w.SS), E.embed_rope(tokens, STR) == goal[2])))
    return body


def value_of(node):
    return node_value(node)


def c_parse(E):
    """parse: the whole list of tokens."""
    import z3
    from pyvc.values import STR, SObj
    w = World(E)
    if E.bound:
        bounded_parse(E, w, True, OR)
        return
    tokens = E.list_input("tokens", STR)
    parser = SObj(E, Parser, {"tokens": tokens})
    goal = w.parsed(E.embed_rope(tokens, STR), w.INIT)
    E.model(Parser.parse_test, w.h_parse_test)
    E.model(Parser.parse_sequence, w.h_parse_sequence)
    k, r = E.call_outcome(Parser.parse, parser)
    if k == "raise":
        E.ensure("only malformed tests are rejected", w.SBool(goal[0] != EOF))
    else:
        E.ensure("malformed tests are rejected", w.SBool(goal[0] == EOF))
        E.ensure("the tests have the value of the formula", w.SBool(E.as_bool_term(E.call(value_of, [r])) ==
            goal[1]))


def c_optimize(cls):
    """optimize: sorting does not change the value (of the lists inside, by induction)."""
    def body(E):
        import z3
        from pyvc.values import BOOL, INT, SObj
        w = World(E)
        item = w.Node if cls is AND else w.Group
        item.attrs["score"] = INT
        nested = z3.Function("nested", item.sort(), z3.BoolSort())
        item.isinstance_ = lambda E, v, c: w.SBool(nested(v.t) if c in (list, AND) else z3.Not(nested(v.t)))
        parser = SObj(E, Parser, {})
        items = E.list_input("items", item)
        seq = E.new_list(list(items.pieces), cls=cls, ty=item)
        before = E.as_bool_term(E.call(value_of, [seq]))
        E.model(Parser.get_speed_score, lambda E, p, x: E.getattr(x, "score"))
        # The contract of optimize for the lists inside: their values stay the same.
        E.model(Parser.optimize, lambda E, p, x: None)
        k, r = E.call_outcome(copy_of(Parser.optimize), parser, seq)
        E.ensure("optimizing never fails", k == "return")
        if k == "return":
            E.ensure("optimizing does not change the value", w.SBool(before == E.as_bool_term(E.call(
                value_of, [seq]))))
    return body


def item_value(x):
    if x.name == "AND":
        return x.all
    if x.name == "OR":
        return x.any
    if x.name == "NOT":
        return not x.any
    return not x.missing and x.holds


def all_items(xs):
    return all(item_value(x) for x in xs)


def any_items(xs):
    return any(item_value(x) for x in xs)


def inv_all(_yield, _done):
    return all(_yield) == all_items(_done)


def inv_any(_yield, _done):
    return any(_yield) == any_items(_done)


def inv_length(_yield, _done):
    return len(_yield) == len(_done)


def describes(x, inner):
    return all(inner) == x.all and any(inner) == x.any


def evaluated(r, items):
    return all(r) == all_items(items) and any(r) == any_items(items) and len(r) == len(items)


def c_eval(E):
    """Matcher._test for any number of tests and lists of tests."""
    import z3
    from pyvc.values import BOOL, STR, Opaque, SBool, SData, SObj, SeqP
    values = z3.Function("children", z3.DeclareSort("Item"), z3.SeqSort(z3.BoolSort()))
    item = Opaque("Item", attrs={"name": STR, "missing": BOOL, "holds": BOOL, "all": BOOL, "any": BOOL,
        "attribute": lambda E, o: o})
    cls = Opaque("TypeCls", methods={"test": lambda E, o, entry, test, value: E.getattr(test, "holds")})

    def lookup(E, reg, entry, attribute):
        if E.truth(E.getattr(attribute, "missing")):
            E.throw(KeyError, "attribute")
        return 1, SData(z3.Const("type", cls.sort()), cls)
    registry = Opaque("Registry", methods={"get_attribute_and_type": lookup})
    m = SObj(E, Matcher, {"registry": SData(z3.Const("registry", registry.sort()), registry)})
    items = E.list_input("items", item)

    def children(E, m, tests, entry):
        # The contract of _test for the items inside: their values in order.
        inner = E.new_list([SeqP(values(tests.t), BOOL)], ty=BOOL)
        E.assume(E.call(describes, [tests, inner]))
        return inner
    E.model(Matcher._test, children)
    E.invariants = [inv_all, inv_any, inv_length]
    k, r = E.call_outcome(copy_of(Matcher._test), m, items, None)
    E.ensure("evaluating tests never fails", k == "return")
    if k == "return":
        E.ensure("the items have the value of their formula, a test on a missing attribute is false",
            E.spec(evaluated, E.call(list, [r]), items))


def c_test(E):
    """Matcher.test"""
    import z3
    from pyvc.values import BOOL, SObj, SeqP
    values = E.list_input("values", BOOL)
    m = SObj(E, Matcher, {"parser": 0})
    E.model(Matcher._test, lambda E, m, tests, entry: values)
    k, r = E.call_outcome(Matcher.test, m, None)
    E.ensure("testing an entry never fails", k == "return")
    if k == "return":
        E.ensure("an entry is selected exactly if one of the alternatives holds", E.spec(lambda r, v: bool(r) ==
            any(v), r, values))


def c_empty(E):
    from pyvc.values import SObj
    k, r = E.call_outcome(Matcher.test_empty, SObj(E, Matcher, {}), None)
    E.ensure("without tests every entry is selected", k == "return" and r is True)


def as_tests(tokens):
    """The tokens of a counter-model with proper tests."""
    names = {}
    words = OPEN + CLOSE + ("AND", "OR", "NOT")
    return [t if t in words or t.upper() in words else names.setdefault(t, f"{ATTRS[len(names) % len(ATTRS)]}=1")
        for t in tokens]


def from_tokens(label, i):
    yield from assignments(as_tests(i["tokens"]))


CONTRACTS = [Contract(f"parse_sequence/{c.name}", c_parse_sequence(c), "matcher", from_tokens) for c in (OR, NOT)] + [
    Contract("parse", c_parse, "matcher", from_tokens)] + [Contract(f"optimize/{c.name}", c_optimize(c), "matcher") for c in
    (AND, OR, NOT)] + [
    Contract("_test", c_eval, "matcher"), Contract("test", c_test, "matcher"), Contract("test_empty", c_empty, "matcher")]
cleanup = harness.cleanup
