"""C06: permission notation (Mode.parse_mode)."""

from contracts.common import Contract, Concrete, outcome
from pyvc.spec import foldl, bits, in_re, span, dropspan
from pyvc.values import Unsupported
from libff.type import Mode

CLAUSE = "clause"


# ---------------------------------------------------------------------------------------- the spec
def mask_of(who):
    """Mode bits owned by the classes named in `who` (no class means all)."""
    everyone = len(who) == 0 or "a" in who
    m = bits(12, 0)
    if everyone or "u" in who:
        m = m | 0o4700
    if everyone or "g" in who:
        m = m | 0o2070
    if everyone or "o" in who:
        m = m | 0o1007
    return m


def perms_of(what):
    """Mode bits of the permission letters, in all classes."""
    v = bits(12, 0)
    if "r" in what:
        v = v | 0o444
    if "w" in what:
        v = v | 0o222
    if "x" in what:
        v = v | 0o111
    if "s" in what:
        v = v | 0o6000
    if "t" in what:
        v = v | 0o1000
    return v


def is_octal(s):
    return s != "" and all(c in "01234567" for c in s)


# Executable reference over whole texts, used by the bounded cross-check.
def split_clause(part):
    """(who, op, what) or None"""
    i = 0
    while i < len(part) and part[i] in "ugoa":
        i += 1
    who, rest = part[:i], part[i:]
    if len(rest) < 2 or rest[0] not in "+-=":
        return None
    if any(c not in "rwxXst" for c in rest[1:]):
        return None
    return who, rest[0], rest[1:]


def reference(text):
    """The mode denoted by a text, or None if it must be rejected.  "unspecified" where the
       property is silent ('=' after other clauses, octal clauses combined, X)."""
    mode = 0
    parts = text.split(",")
    for i, part in enumerate(parts):
        c = split_clause(part)
        if c is not None:
            who, op, what = c
            if "X" in what:
                return "unspecified" if all(map(clause_ok, parts)) else None
            if op == "=" and i > 0:
                return "unspecified" if all(map(clause_ok, parts)) else None
            m = mask_of(who) & perms_of(what)
            mode = mode & ~m if op == "-" else mode | m
        else:
            if not octal_ok(part):
                return None
            if len(parts) > 1 or part[:1] in "+-=":
                return "unspecified" if all(map(clause_ok, parts)) else None
            return int(part, 8)
    return mode


def octal_ok(part):
    return is_octal(part[1:] if part[:1] in ("+", "-", "=") else part)


def clause_ok(part):
    return split_clause(part) is not None or octal_ok(part)


def run(text):
    exp = reference(text)
    k, v = outcome(Mode.parse_mode, text)
    if exp is None:
        if k == "return":
            return f"accepted as {oct(v)} although it is not a complete permission notation"
        if not isinstance(v, ValueError):
            return f"raised {v!r} instead of ValueError"
        return None
    if k == "raise":
        return f"rejected: {v!r}"
    if exp == "unspecified":
        return None
    if isinstance(exp, int) and is_octal(text) and exp > 0o7777:
        return None
    return None if v == exp else f"parsed as {oct(v)}, denotes {oct(exp)}"


DIRECTED = ["u+r,g+w", "g+w,u+r", "u+rwx,u-w", "a+rwx,o-rwx", "u+rw,g+r,o-r", "a+rwx,g-w,o-w",
    "644", "0755", "7777", "4755", "u+rfoo", "644x", "u+r,", ",u+r", "", "u", "u+", "+x", "-x",
    "a+x,-x", "u+s", "g+s", "u+t", "o+t", "o+s", "a+st", "ug+rw", "ugo+x", "u+r\n", "644\n", "8",
    "09", "u+r g+w", "u=rwx", "go=rx", "u+r,644foo", "u+rwx,g+rx,o+x,u-x", "x", "ur", "u+q",
    "u+r,,g+r", "u-r,u+r", "oo+w", "a+r,u+w"]


def gen(rng):
    def clause():
        if rng.random() < .06:
            return rng.choice(["644", "+x", "7x", "u", "u+", "+77", "q+r", "u*r", "u+rz", "", "u+r "])
        return "".join(rng.choice("ugoa") for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))) + \
            rng.choice("++--=" if rng.random() < .1 else "++-") + \
            "".join(rng.choice("rwxst") for _ in range(rng.choice([1, 1, 2, 3])))
    if rng.random() < .1:
        return "".join(rng.choice("01234567") for _ in range(rng.randint(1, 4)))
    return ",".join(clause() for _ in range(rng.choice([1, 1, 2, 2, 3, 4])))


CONCRETE = [Concrete("parse_mode", run, gen, DIRECTED, count=60000)]


# --------------------------------------------------------------------------------------- contracts
CLAUSE_RE = "[ugoa]*[-+][rwxst]+"
PART_RE = "[ugoa]*[-+=][rwxXst]+|[-+=]?[0-7]+"


def class_bits(who):
    m = bits(12, 0)
    if "u" in who or "a" in who:
        m = m | 0o4700
    if "g" in who or "a" in who:
        m = m | 0o2070
    if "o" in who or "a" in who:
        m = m | 0o1007
    return m


def inv_affected(_any, _done):
    return _any == class_bits(_done)


def inv_permissions(_any, _done):
    return _any == perms_of(_done)


def who_of(part):
    return span(part, "ugoa")


def op_of(part):
    return span(dropspan(part, "ugoa"), "+-=")


def what_of(part):
    return dropspan(dropspan(part, "ugoa"), "+-=")


def step(acc, part):
    m = mask_of(who_of(part)) & perms_of(what_of(part))
    if op_of(part) == "-":
        return acc & ~m
    return acc | m


def inv_result(_any, _done):
    return _any == foldl(step, bits(12, 0), _done)


def inv_all_ok(_done):
    return not any(not in_re(p, PART_RE) for p in _done)


def text_of(E, parts):
    """The argument: a text of which only the list of comma-separated parts matters."""
    from pyvc.values import Opaque, SData
    import z3

    def split(E, obj, sep):
        if sep != ",":
            raise Unsupported("split")
        return E.new_list(list(parts.pieces), ty=parts.ty)
    ty = Opaque("Text", methods={"split": split})
    return SData(z3.Const("text", ty.sort()), ty)


def clauses(E):
    """Any list of complete + and - clauses."""
    from pyvc.values import _Str

    class ClauseT(_Str):
        name = "clause"

        def fresh(self, E, name):
            v = super().fresh(E, name)
            E.assume(E.spec(in_re, v, CLAUSE_RE))
            return v
    E.bit_width = 12
    E.invariants = [inv_affected, inv_permissions, inv_result]
    parts = E.list_input("parts", ClauseT())
    k, v = E.call_outcome(Mode.parse_mode, text_of(E, parts))
    E.ensure("a list of complete clauses is accepted", k == "return")
    if k == "return":
        E.ensure("each clause adds or removes exactly the named permissions of the named "
            "classes, from left to right", E.spec(clauses_post, v, parts))


def clauses_post(v, parts):
    return v == foldl(step, bits(12, 0), parts)


def rejection(E):
    """Any list of texts: accepted exactly when every one is a complete clause or number."""
    from pyvc.values import STR
    E.bit_width = 12
    E.invariants = [inv_all_ok]
    parts = E.list_input("parts", STR)
    k, v = E.call_outcome(Mode.parse_mode, text_of(E, parts))
    bad = E.spec(any_bad, parts)
    if k == "return":
        E.ensure("incomplete notation is not accepted", E.spec(negate, bad))
    else:
        E.ensure("only ValueError is raised", E.is_exc(v, ValueError))
        E.ensure("complete notation is not rejected", bad)


def negate(x):
    return not x


def any_bad(parts):
    return any(not in_re(p, PART_RE) for p in parts)


def octal(E):
    from pyvc.values import STR
    E.bit_width = 12
    text = E.input("text", STR)
    E.assume(E.spec(in_re, text, "[0-7]+"))
    k, v = E.call_outcome(Mode.parse_mode, text_of(E, E.new_list([text])))
    E.ensure("an octal number is accepted", k == "return")
    if k == "return":
        E.ensure("an octal number denotes its value", E.spec(octal_post, v, text))


def octal_post(v, text):
    return v == (bits(12, int(text, 8)) & 0o7777)


def chars(s):
    import z3
    return z3.Union(*[z3.Re(c) for c in s])


def join_parts(label, inputs):
    p = inputs.get("parts")
    yield inputs["text"] if p is None else ",".join(p)


CONTRACTS = [
    Contract("parse_mode/clauses", clauses, "parse_mode", join_parts, budget=220),
    Contract("parse_mode/rejection", rejection, "parse_mode", join_parts),
    Contract("parse_mode/octal", octal, "parse_mode", join_parts),
]
ASSUMPTIONS = ["int(text, 8) is the value of an octal digit string (CPython)",
    "the text is represented by the result of its split(',')"]
