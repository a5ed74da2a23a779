"""C03: exclude tests."""

from contracts.common import Contract, Concrete, outcome
from contracts import harness
from libff.filter import Excluder, Filter


# ------------------------------------------------------------------------------------ concrete runs
def holds(test, vt):
    attr, op, bound = test
    if attr not in vt:
        return False
    v = vt[attr]
    return {"=": v == bound, "+": v > bound, "-": v < bound}[op]


def run(inp):
    tests, vt = inp
    exp = any(holds(t, vt) for t in tests if isinstance(t, list))
    k, ex = outcome(harness.excluder, [t if isinstance(t, str) else "".join(map(str, t)) for t in
        tests])
    if k == "raise":
        return f"rejected: {ex!r}"
    k, r = outcome(ex.test, harness.FakeEntry(vt))
    if k == "raise":
        return f"raised {r!r}"
    if bool(r) != exp:
        return f"entry with {vt} is {'' if r else 'not '}excluded by {tests}"
    return None


ATTRS = [p + n for p in "fns" for n in ("_num", "_num2", "_num3")]


def gen(rng):
    tests = [[rng.choice(ATTRS), rng.choice("=+-"), rng.randrange(4)]
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
    if rng.random() < .3:
        # alternatives make no difference
        for i in range(len(tests) - 1, 0, -1):
            if rng.random() < .5:
                tests.insert(i, rng.choice(["OR", "or"]))
    vt = {a: rng.randrange(4) for a in ATTRS if rng.random() < rng.choice([.2, .8])}
    return [tests, vt]


CONCRETE = [Concrete("excluder", run, gen, [[[], {}], [[], {"n_num": 1}],
    [[["n_num", "=", 1]], {}], [[["n_num", "=", 1], ["f_num", "=", 2]], {"f_num": 2}],
    [[["n_num", "=", 1], "OR", ["f_num", "=", 2]], {"f_num": 2}],
    [[["f_num", "=", 1], ["s_num", "=", 2]], {"s_num": 2, "f_num": 3}]], count=40000)]


# ---------------------------------------------------------------------------------------- contracts
def world(E):
    from pyvc.values import Opaque, SData, BOOL, INT, SObj
    import z3
    type_ty = Opaque("TypeCls", methods={"test": lambda E, o, entry, test, value:
        E.getattr(test, "holds")})
    attr_ty = Opaque("Attr")
    test_ty = Opaque("Test", attrs={"missing": BOOL, "holds": BOOL, "attribute":
        lambda E, o: o, "name": "test"})

    def lookup(E, reg, entry, attribute):
        if E.truth(E.getattr(attribute, "missing")):
            E.throw(KeyError, "attribute")
        return (1, SData(z3.Const("type", type_ty.sort()), type_ty))
    reg_ty = Opaque("Registry", methods={"get_attribute_and_type": lookup})
    return test_ty, SData(z3.Const("registry", reg_ty.sort()), reg_ty)


def triggers(t):
    return not t.missing and t.holds


def any_triggers(tests):
    return any(not t.missing and t.holds for t in tests)


def inv_none(_done):
    return not any(not t.missing and t.holds for t in _done)


def c_test(ngroups):
    def body(E):
        from pyvc.values import SObj
        test_ty, reg = world(E)
        groups = [E.list_input(f"tests{i}", test_ty) for i in range(ngroups)]
        parser = E.new_list([E.new_list(list(g.pieces), ty=test_ty) for g in groups])
        ex = SObj(E, Excluder, {"parser": parser, "registry": reg})
        E.invariants = [inv_none]
        k, r = E.call_outcome(Excluder.test, ex, None)
        E.ensure("testing an entry for exclusion never fails", k == "return")
        if k == "return":
            exp = E.spec(lambda *gs: any_of(gs), *groups)
            E.ensure("an entry is excluded exactly when one of the tests holds",
                E.spec(lambda r, e: bool(r) == e, r, exp))
    return body


def any_of(groups):
    r = False
    for g in groups:
        r = r or any_triggers(g)
    return r


def c_is_empty(E):
    from pyvc.values import SObj
    test_ty, reg = world(E)
    tests = E.list_input("tests", test_ty)
    parser = E.new_list([E.new_list(list(tests.pieces), ty=test_ty)])
    f = SObj(E, Excluder, {"parser": parser, "registry": reg})
    k, r = E.call_outcome(Filter.is_empty, f)
    E.ensure("asking for emptiness never fails", k == "return")
    if k == "return":
        E.ensure("a filter is empty exactly when it contains no test",
            E.spec(lambda r, t: bool(r) == (len(t) == 0), r, tests))


def c_empty(E):
    from pyvc.values import SObj
    ex = SObj(E, Excluder, {})
    k, r = E.call_outcome(Excluder.test_empty, ex, None)
    E.ensure("without exclude tests nothing is excluded", k == "return" and r is False)


def from_model(label, inputs):
    tests, vt = [], {}
    n = 0
    for key in sorted(k for k in inputs if k.startswith("tests")):
        for t in inputs[key]:
            if n >= len(ATTRS):
                return
            a = ATTRS[n]
            n += 1
            if not t.get("missing"):
                vt[a] = 1 if t.get("holds") else 2
            tests.append([a, "=", 1])
    yield [tests, vt]


CONTRACTS = [Contract(f"Excluder.test/{n}", c_test(n), "excluder", from_model) for n in (1, 2)] + [
    Contract("Filter.is_empty", c_is_empty, "excluder", from_model),
    Contract("Excluder.test_empty", c_empty, "excluder", lambda label, i: [[[], {}]]),
]
ASSUMPTIONS = ["a test's outcome on an entry depends on the entry and the test only",
    "the parser hands over one or two groups of tests of any length"]
cleanup = harness.cleanup
