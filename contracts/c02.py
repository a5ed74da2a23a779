"""C02: malformed tests are rejected."""

from contracts.common import Contract, Concrete, outcome
from contracts import harness
from contracts.c01 import (AND, CLOSE, OPEN, NOT, OR, Malformed, Unspecified, as_tests, atom, c_parse, c_parse_sequence,
    case, expression, meaning)
from libff.parser import Parser
from libff.exceptions import ExpressionError
from pyvc.spec import in_re


def well_formed(tokens):
    """True or False, None if nothing is promised."""
    try:
        meaning(tokens, lambda t: True)
        return True
    except Malformed:
        return False
    except Unspecified:
        return None


def run(tokens):
    ok = well_formed(tokens)
    if ok is None:
        return None
    for name, make in (("matcher", harness.matcher), ("excluder", harness.excluder)):
        k, m = outcome(make, tokens)
        if ok and k == "raise":
            return f"the {name} rejects {tokens} with {m!r}"
        if not ok and k == "return":
            return f"the {name} accepts {tokens}"
    return None


ATTRS = ["f_num", "n_num", "s_num", "n_num2"]


def spoil(rng, tokens):
    """Change a list of tokens in a few places."""
    tokens = list(tokens)
    for _ in range(rng.choice([1, 1, 2, 3])):
        i = rng.randrange(len(tokens) + 1)
        k = rng.randrange(4)
        if k == 0 and i < len(tokens):
            tokens.pop(i)
        elif k == 1:
            tokens.insert(i, rng.choice(["(", ")", "{{", "}}", case(rng, "or"), case(rng, "not")]))
        elif k == 2 and i < len(tokens):
            tokens[i] = rng.choice(["(", ")", "{{", "}}", "or", "not", "n_num=1"])
        elif i:
            tokens.insert(i, tokens[i - 1])
    return tokens


def gen(rng):
    tokens = expression(rng, rng.choice([0, 1, 2, 4]), ATTRS)
    return tokens if rng.random() < 0.2 else spoil(rng, tokens)


T = "n_num=1"
DIRECTED = [[T if t == "A" else t for t in x.split()] for x in ("", "A", "(", ")", "( )", "{{ }}", "or", "A or", "or A", "A or or A",
    "( or A )", "( A or )", "( A or or A )", "A ( )", "( ( ) )", "( A", "A )", "( A ) )", "( ( A )", "not", "A not",
    "not or A", "not )", "( not ) A", "not not A", "not ( )", "not (", "not ( A", "not ( or A )", "not ( A or )",
    "A or ( A or ( or A ) )", "A or ( )", "( A ) or", "( A ) or ( A", "not ( A ) or", "{{ or A }}", "A {{ A or }}",
    "( A or A ) ( or A ) A", "not ( A or or A )", "A or not", "( A or not ) A", ") (", "A or ( A ) or ( A or ) A",
    "( A or A or )", "( or )", "( or A or A )", "( A or A or or A )", "NOT AND A", "not not ( A )")]


FORM = r"\s*(?:\w+\.)?\w+\s*(?:=|:|~|%|>=|>|<=|<|\+=|\+|-=|-)(?s:.+)"
BAD = ["n_num", "n_num=", "=1", "", " ", "n_num?1", "1", "n_num!=1", ".n_num=1", "vt.=1", "vt.n_num", "n num=1",
    "vt.n.num=1", "(n_num=1)", "and=", "!n_num=1", "-n_num=1", "n-num", "[n_num=1", "n_num=1|", "()", "{{}}", "{", "{}",
    "|", "&", "&&", "!", "-a", "--", ",", "/x", ".", "*", "not(", "a", "vt.n_num<", "n_num>=", "n_num\n", "\n"]
GOOD = ["n_num=1", "vt.n_num=1", " n_num=1", "n_num =1", "n_num= 1", "n_num<1", "n_num>1", "n_num<=1", "n_num>=1", "n_num+1",
    "n_num-1", "n_num+=1", "n_num-=1", "n_str=a b", "n_str==", "n_str=a=b", "n_str:a\nb", "n_str~a", "n_str%a*", "n_str=(",
    "n_str=and", "n_str={", "n_str={}", "n_str=\n", "n_str:a\n", "n_str=\\", "vt.n_str=ü", "n_str=-", "n_str=+x"]


def run_token(inp):
    """[tokens before, a token that is a test or not, whether it is one, tokens behind]"""
    before, token, good, behind = inp
    tokens = before + [token] + behind
    k, m = outcome(harness.matcher, tokens)
    if k == "return" and not good:
        return f"{tokens} is accepted"
    if k == "raise" and good:
        return f"{tokens} is rejected with {m!r}"
    return None


AROUND = [([], []), (["("], [")"]), (["not"], []), ([T], [T]), ([T, "or"], []), (["not", "(", T, "or"], [")"])]
TOKENS = [[a, t, t in GOOD, b] for t in BAD + GOOD for a, b in AROUND]


def gen_token(rng):
    a, b = rng.choice(AROUND)
    if rng.random() < 0.5:
        return [a, "n_str" + rng.choice("=:%") + rng.choice(["a", "(", "ü", "="]) + "".join(rng.choice("a =(){}\n*ü'\\")
            for _ in range(rng.randint(0, 5))), True, b]
    t = "".join(rng.choice("ab_.!?/ ()[]&|") for _ in range(rng.randint(1, 8)))
    if t in OPEN + CLOSE or t.strip().upper() in ("AND", "OR", "NOT"):
        t += "?"
    return [a, t, False, b]


def run_ff(tokens):
    ok = well_formed(tokens)
    if ok is None:
        return None
    root = harness.scratch("c02")
    try:
        harness.tree(root, {"a": "x"})
        st, out, err = harness.ff(["--no-cache"] + tokens, root)
        if ok and (st != 0 or err):
            return f"{tokens} is rejected: exit {st} {err[-300:]}"
        if not ok and (st == 0 or out or not err):
            return f"{tokens} is accepted: exit {st} {out!r} {err[-300:]}"
        return None
    finally:
        harness.remove(root)


def gen_ff(rng):
    return [t.replace("f_num", "size").replace("n_num2", "links").replace("n_num", "size").replace("s_num", "depth")
        for t in gen(rng)]


CONCRETE = [Concrete("tests", run, gen, DIRECTED, count=20000),
    Concrete("single test", run_token, gen_token, TOKENS, count=20000),
    Concrete("ff", run_ff, gen_ff, [[x.replace(T, "size+0") for x in t] for t in DIRECTED[1:40:4]], timeout=60)]


# ---------------------------------------------------------------------------------------- contracts
def is_test(token):
    return in_re(token, FORM)


def is_ascii(token):
    return in_re(token, "[\x00-\x7f]*")


def c_parse_test(E):
    """parse_test: every token that does not have the form of a test."""
    import z3
    from pyvc.values import STR, Opaque, SData, SObj
    token = E.input("token", STR)
    E.regex_ascii = E.regex_exists = True
    E.assume(E.spec(is_ascii, token))
    attr = Opaque("Attr", attrs={"plugin": STR, "name": STR})
    registry = Opaque("Registry", methods={"setup_attribute": lambda E, r, name: SData(z3.Const("attr", attr.sort()),
        attr)})
    parser = SObj(E, Parser, {"registry": SData(z3.Const("registry", registry.sort()), registry)})
    E.model(Parser.create_test, lambda E, p, *args: "test")
    good = E.spec(is_test, token)
    k, r = E.call_outcome(Parser.parse_test, parser, token)
    E.ensure("only what has the form of a test is taken for one", E.spec(lambda k, g: k == g, k == "return", good))


def from_tokens(label, i):
    yield as_tests(i["tokens"])


CONTRACTS = [Contract(f"parse_sequence/{c.name}", c_parse_sequence(c), "tests", from_tokens) for c in (OR, NOT)] + [
    Contract("parse", c_parse, "tests", from_tokens), Contract("parse_test", c_parse_test, "single test", lambda label, i: [[a,
        i["token"], is_test(i["token"]), b] for a, b in AROUND])]
cleanup = harness.cleanup
