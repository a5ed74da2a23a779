"""C07: sizes and durations."""

import re
from contracts.common import Contract, Concrete, outcome
from pyvc.spec import foldl
from libff.convert import parse_size, format_size, parse_duration, format_duration

LETTERS = "KMGTPEZY"
SECONDS = {"s": 1, "m": 60, "h": 3600, "d": 86400, "w": 7 * 86400, "M": 30 * 86400,
        "y": 365 * 86400}


# --------------------------------------------------------------------------------------- references
def ref_size(text):
    """(exact value as a Fraction) or None (reject) or "unspecified"."""
    from fractions import Fraction
    if not text.isascii():
        return "unspecified"
    m = re.fullmatch(r"([0-9]+)b?", text, re.I)
    if m:
        return Fraction(int(m.group(1)))
    m = re.fullmatch(r"([0-9]+(?:\.[0-9]+)?)([KMGTPEZY])(i?B)?", text, re.I)
    if not m:
        return None
    k = LETTERS.index(m.group(2).upper()) + 1
    base = 1000 if (m.group(3) or "").upper() == "B" else 1024
    return Fraction(m.group(1)) * base ** k


def run_parse_size(text):
    exp = ref_size(text)
    if exp == "unspecified":
        return None
    k, v = outcome(parse_size, text)
    if exp is None:
        if k == "return":
            return f"accepted as {v} although it is not number-plus-unit"
        return None if isinstance(v, ValueError) else f"raised {v!r} instead of ValueError"
    if k == "raise":
        return f"rejected: {v!r}"
    if not isinstance(v, int) or v != int(exp):
        return f"parsed as {v!r}, denotes {exp}"
    return None


def gen_parse_size(rng):
    n = str(rng.choice([rng.randrange(2000), rng.randrange(10 ** 6), rng.randrange(10)]))
    if rng.random() < .3:
        n += "." + str(rng.randrange(1000))
    u = rng.choice(["", "b", "B"] + [c + s for c in LETTERS + LETTERS.lower()
        for s in ("", "b", "B", "iB", "ib", "IB")] * 2)
    if rng.random() < .15:
        u += rng.choice([" ", "\n", "x", "B", "s", "i", "1", "."])
    if rng.random() < .05:
        n = rng.choice(["", "-", "+", " ", "."]) + n
    return n + u


def run_format_size(inp):
    n, base = inp
    k, s = outcome(format_size, n, base)
    if k == "raise":
        return f"raised {s!r}"
    if n < base:
        return None if s == str(n) else f"printed {s!r}, expected the number itself"
    m = re.fullmatch(r"([0-9]+)(\.[0-9])?([KMGTPEZY])" + ("B" if base == 1000 else ""), s)
    if not m:
        return f"printed {s!r}"
    e = LETTERS.index(m.group(3)) + 1
    v = n / base ** e
    num = float(m.group(1) + (m.group(2) or ""))
    if m.group(2):
        ok = abs(num - v) <= 0.12 and num < 10
    else:
        ok = -0.12 * max(1, v / 2 ** 40) <= v - num < 1.12 + v / 2 ** 40 and num >= 9.9
    if not ok:
        return f"printed {s!r}, the number is {v} of that unit"
    if v >= base and e < len(LETTERS):
        return f"printed {s!r}: the number is not below {base}"
    if n / base ** (e - 1) < base - 0.12:
        return f"printed {s!r}: a smaller unit would do"
    return None


def gen_format_size(rng):
    base = rng.choice([1000, 1024])
    e = rng.randrange(9)
    r = rng.random()
    if r < .4:
        n = max(0, base ** e + rng.randint(-60, 60) * base ** max(0, e - 1) // 10)
    elif r < .6:
        n = max(0, base ** e + rng.randint(-3, 3))
    else:
        n = rng.randrange(base ** (e + 1))
    return [n, base]


def run_duration(n):
    k, s = outcome(format_duration, n)
    if k == "raise":
        return f"format_duration raised {s!r}"
    m = re.fullmatch(r"(?:(\d+)h)?(\d+)m(\d+)s", s)
    if not m:
        return f"printed {s!r}"
    h, mi, se = int(m.group(1) or 0), int(m.group(2)), int(m.group(3))
    if not (mi < 60 and se < 60 and h * 3600 + mi * 60 + se == n):
        return f"printed {s!r} for {n} seconds"
    k, v = outcome(parse_duration, s)
    if k == "raise" or v != n:
        return f"{s!r} is read back as {v!r}"
    return None


def ref_duration(text):
    if not text.isascii():
        return "unspecified"
    if re.fullmatch("[0-9]+", text):
        return int(text) * 60
    if re.fullmatch("([0-9]+[smhdwMy])+", text):
        return sum(int(a) * SECONDS[b] for a, b in re.findall("([0-9]+)([smhdwMy])", text))
    try:
        int(text)
        return "unspecified"        # signs, blanks and underscores around a plain number
    except ValueError:
        return None


def run_parse_duration(text):
    exp = ref_duration(text)
    if exp == "unspecified":
        return None
    k, v = outcome(parse_duration, text)
    if exp is None:
        if k == "return":
            return f"accepted as {v} although it is not a duration"
        return None if isinstance(v, ValueError) else f"raised {v!r} instead of ValueError"
    if k == "raise":
        return f"rejected: {v!r}"
    return None if v == exp else f"parsed as {v}, denotes {exp}"


def gen_parse_duration(rng):
    s = "".join(str(rng.randrange(rng.choice([3, 70, 5000]))) + rng.choice("smhdwMy")
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])))
    if rng.random() < .1:
        s = str(rng.randrange(100))
    if rng.random() < .35:
        i = rng.randrange(len(s) + 1)
        s = s[:i] + rng.choice(["x", " ", "S", "H", "D", "Y", "\n", "1", "-", ".", "5", "mm",
            "h"]) + s[i + rng.choice([0, 1]):]
    return s


CONCRETE = [
    Concrete("parse_size", run_parse_size, gen_parse_size, ["0", "1", "1b", "1B", "1K", "1k",
        "1kB", "1KB", "1KiB", "1kib", "1.5M", "1M", "1MB", "1MiB", "2G", "2GB", "2GiB", "3T",
        "1P", "1E", "1Z", "1Y", "1YB", "1YiB", "", "K", "1.", ".5K", "1.5", "1.5b", "1 K", "1K ",
        "1Kx", "x1K", "1KK", "1iB", "1BB", "-1", "-1K", "1K\n", "1\n", "0.5K", "1.001kB",
        "01K", "1.0.0K", "1,5K", "1e3", "0x10", "10q", "1bK", "1Kb1"], weight=2, count=60000),
    Concrete("format_size", run_format_size, gen_format_size, [[n, b] for b in (1000, 1024)
        for n in [0, 1, 9, 10, 99, 999, 1000, 1001, 1023, 1024, 1025, 9999, 10000, 10240, 1048575,
        1048576, 999949, 999950, 999999, 10 ** 6, 1024 ** 9, 10 ** 27]], weight=2, count=60000),
    Concrete("duration", run_duration, lambda rng: rng.randrange(rng.choice([100, 5000, 100000,
        10 ** 9, 10 ** 15])), list(range(0, 7300)) + [86399, 86400, 359999, 360000], count=40000),
    Concrete("parse_duration", run_parse_duration, gen_parse_duration, ["0", "5", "30x", "5h30x",
        "30 10s", "x", "", " ", "1h", "1h30m", "1d12h", "1M", "1m", "1y", "1w", "5s5s", "h",
        "1hh", "1h30", "30s1h", "1H", "10S", "1h 30m", "1h\n", "1.5h", "-1h", "1h-1m", "99s"],
        weight=2, count=60000),
]


# ---------------------------------------------------------------------------------------- contracts
def duration_text(n):
    h = n // 3600
    m = n // 60 - 60 * h
    s = n - 3600 * h - 60 * m
    if h > 0:
        return f"{h}h{m:02}m{s:02}s"
    return f"{m}m{s:02}s"


def c_format_duration(E):
    from pyvc.values import INT
    n = E.input("n", INT)
    E.assume(E.spec(lambda x: x >= 0, n))
    k, v = E.call_outcome(format_duration, n)
    E.ensure("a duration can always be printed", k == "return")
    if k == "return":
        E.ensure("the text shows hours, minutes and seconds of the number",
            E.spec(lambda v, n: v == duration_text(n), v, n))


def split_lemma(E):
    """The three numbers in duration_text add up to the number and stay in range."""
    from pyvc.values import INT
    n = E.input("n", INT)
    E.assume(E.spec(lambda x: x >= 0, n))
    E.ensure("the split loses nothing", E.spec(split_ok, n))


def split_ok(n):
    h = n // 3600
    m = n // 60 - 60 * h
    s = n - 3600 * h - 60 * m
    return h >= 0 and 0 <= m < 60 and 0 <= s < 60 and h * 3600 + m * 60 + s == n


def match_type():
    """What one match of ([0-9]+)([smhdwMy])? in a text looks like."""
    from pyvc.values import Opaque, INT, STR, BOOL, Unsupported
    import z3

    class MatchT(Opaque):
        def fresh(self, E, name):
            v = super().fresh(E, name)
            self.axioms(E, v)
            return v

        def axioms(self, E, v):
            E.assume(E.spec(match_ok, v))
            E.assume(E.spec(lambda m: int(m.digits) == m.value, v))

    ty = MatchT("Match", attrs={"a": INT, "digits": STR, "has_unit": BOOL, "unit": STR,
        "value": INT})

    def start(E, m, g=0):
        if g not in (0, 1):
            raise Unsupported("Match.start of the unit")
        return E.getattr(m, "a")

    def end(E, m, g=0):
        if g == 1:
            return E.spec(lambda m: m.a + len(m.digits), m)
        if g != 0:
            raise Unsupported("Match.end of the unit")
        return E.spec(match_end, m)

    def group(E, m, *gs):
        r = tuple(groups(E, m)[g - 1] if g else None for g in gs)
        if None in gs or 0 in gs:
            raise Unsupported("whole match")
        return r if len(r) != 1 else r[0]

    def groups(E, m):
        unit = E.getattr(m, "unit") if E.truth(E.getattr(m, "has_unit")) else None
        return (E.getattr(m, "digits"), unit)
    ty.methods.update(start=start, end=end, groups=groups, group=group)
    return ty


def positive(n):
    return n > 0


def match_ok(m):
    return in_digits(m.digits) and (m.unit == "s" or m.unit == "m" or m.unit == "h" or
        m.unit == "d" or m.unit == "w" or m.unit == "M" or m.unit == "y")


def in_digits(s):
    from pyvc.spec import in_re
    return in_re(s, "[0-9]+")


def match_end(m):
    return m.a + len(m.digits) + (1 if m.has_unit else 0)


def seconds_of(unit):
    if unit == "s":
        return 1
    if unit == "m":
        return 60
    if unit == "h":
        return 3600
    if unit == "d":
        return 86400
    if unit == "w":
        return 604800
    if unit == "M":
        return 2592000
    return 31536000


def step(acc, m):
    """(position up to which the text was a sequence of number-unit parts, or -1; sum)"""
    pos, total = acc
    if pos < 0 or m.a != pos or not m.has_unit:
        return (-1, total)
    return (match_end(m), total + m.value * seconds_of(m.unit))


def gap(acc):
    return acc[0] < 0


def inv_position(_any, _done):
    return _any == foldl(step, (0, 0), _done)[0]


def inv_contiguous(_done):
    return foldl(step, (0, 0), _done)[0] >= 0


def inv_total(_any, _done):
    return _any == foldl(step, (0, 0), _done)[1]


def c_parse_duration(E):
    """parse_duration over the sequence of matches of its expression in the text."""
    from pyvc.values import Opaque, SData, INT, Unsupported
    import z3
    ty = match_type()
    matches = E.list_input("matches", ty)
    length = E.input("length", INT)
    E.assume(E.spec(lambda n: n >= 0, length))

    def not_a_number(E, obj):
        E.throw(ValueError, "invalid literal for int()")

    text_ty = Opaque("Text", methods={"__len__": lambda E, o: length, "__int__": not_a_number,
        "__bool__": lambda E, o: E.spec(positive, length)})
    text = SData(z3.Const("text", text_ty.sort()), text_ty)

    def finditer(E, pat, s):
        if pat.pattern.replace(r"\d", "[0-9]") not in ("([0-9]+)([smhdwMy])?",):
            raise Unsupported("another expression")
        return E.new_list(list(matches.pieces), ty=ty)
    E.fold_lemma("lemma: a gap is never forgotten", step, gap, E.spec(lambda a, b: (a, b),
        E.input("acc0", INT), E.input("acc1", INT)), ty.fresh(E, "m"))
    E.pattern_hooks["finditer"] = finditer
    E.invariants = [inv_position, inv_contiguous, inv_total]
    k, v = E.call_outcome(parse_duration, text)
    ok = E.spec(lambda ms, n: n > 0 and foldl(step, (0, 0), ms)[0] == n, matches, length)
    if k == "return":
        E.ensure("only a gapless sequence of number-unit parts is accepted", ok)
        E.ensure("the value is the sum of the parts",
            E.spec(lambda v, ms: v == foldl(step, (0, 0), ms)[1], v, matches))
    else:
        E.ensure("a gapless sequence of number-unit parts is accepted",
            E.spec(lambda ok: not ok, ok))
        E.ensure("only ValueError is raised", E.is_exc(v, ValueError))


def c_parse_minutes(E):
    from pyvc.values import STR
    text = E.input("text", STR)
    E.assume(E.spec(in_digits, text))
    k, v = E.call_outcome(parse_duration, text)
    E.ensure("a plain number is accepted", k == "return")
    if k == "return":
        E.ensure("a plain number means minutes", E.spec(lambda v, t: v == 60 * int(t), v, text))


def c_parse_size(exp):
    """number + unit for the spellings of one unit (or no unit at all)."""
    def body(E):
        from pyvc.values import STR
        E.regex_ascii = True
        digits = E.input("digits", STR)
        E.assume(E.spec(in_digits, digits))
        number = E.spec(lambda d: int(d), digits)
        letter = " KMGTPEZY"[exp]
        units = ["", "b", "B"] if exp == 0 else [letter, letter + "B", letter + "iB"]
        unit = units[E.choice(len(units))]
        E.inputs["unit"] = unit
        base = 1000 if unit[1:] in ("B", "b") else 1024
        k, v = E.call_outcome(parse_size, E.spec(lambda d: d + unit, digits))
        E.ensure("a number with a unit is accepted", k == "return")
        if k == "return":
            E.ensure("the value is the number times the unit",
                E.spec(lambda v, n: v == n * base ** exp, v, number))
    return body


def scaled(n, base, k):
    """n in units of base**k, rounded to tenths on the way as the output is."""
    v = n
    for _ in range(k):
        v = round(v / base, 1)
    return v


def c_format_size(base):
    def body(E):
        from pyvc.values import INT
        n = E.input("n", INT)
        E.assume(E.spec(lambda x: x >= 0, n))
        k, v = E.call_outcome(format_size, n, base)
        E.ensure("a size can always be printed", k == "return")
        if k != "return":
            return
        E.ensure("a number below the base is printed as it is",
            E.spec(lambda v, n: not n < base or v == str(n), v, n))
        for e in range(1, 9):
            unit = LETTERS[e - 1] + ("B" if base == 1000 else "")
            E.ensure(f"the largest unit that keeps the number below the base is used ({unit})",
                E.spec(lambda v, n: not (scaled(n, base, e - 1) >= base and
                    (e == 8 or scaled(n, base, e) < base)) or v == size_text(
                    scaled(n, base, e), unit), v, n))
    return body


def size_text(v, unit):
    return f"{v:.1f}{unit}" if v < 10 else f"{int(v)}{unit}"


CONTRACTS = [
    Contract("format_duration", c_format_duration, "duration", lambda label, i: [i["n"]]),
    Contract("duration split", split_lemma),
    Contract("parse_duration/parts", c_parse_duration),
    Contract("parse_duration/minutes", c_parse_minutes, "parse_duration",
        lambda label, i: [i["text"]]),
] + [Contract(f"parse_size/{'bytes' if e == 0 else LETTERS[e - 1]}", c_parse_size(e), "parse_size",
        lambda label, i: [i["digits"] + i["unit"]]) for e in range(9)] + [
    Contract(f"format_size/{b}", c_format_size(b), "format_size", lambda label, i, b=b: [[i["n"],
        b]]) for b in (1000, 1024)]
ASSUMPTIONS = ["binary floating point is treated as real arithmetic",
    "re.finditer reports the matches of the expression from left to right",
    "digits are ASCII (\\d)"]
