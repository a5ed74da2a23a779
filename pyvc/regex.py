"""Contract of re.Pattern methods for regular expressions whose match is unambiguous.

   The pattern is parsed with Python's own parser.  A match is described as a decomposition of the
   string into the pieces matched by the top-level items; the decomposition is only used when it
   is unique (neighbouring items are disjoint) or made unique by maximality of a final repeat."""

import copy
import re
import z3

try:
    from re import _parser as sre_parse, _constants as sre_c
except ImportError:
    import sre_parse
    import sre_constants as sre_c

from .values import *
from .values import strval
from .engine import zstr as strof

MAXCH = 0x2ffff


def rng(a, b):
    return z3.Range(strval(chr(a)), strval(chr(b)))


def union(xs):
    xs = list(xs)
    return xs[0] if len(xs) == 1 else z3.Union(*xs)


def any_char():
    return z3.AllChar(z3.ReSort(z3.StringSort()))


# The Unicode members of \d and \s are kept abstract: patterns using them are handled with the
# ASCII members only when the contract assumes ASCII input.
class Ctx:
    def __init__(self, E, flags):
        self.E = E
        self.ignorecase = bool(flags & re.IGNORECASE)
        self.dotall = bool(flags & re.DOTALL)
        self.assume_ascii = getattr(E, "regex_ascii", False)
        if flags & (re.MULTILINE | re.VERBOSE):
            raise Unsupported("regex flags")


_categories = {}


def category(ctx, cat):
    """The characters of \\d, \\s, \\w and their complements (within ASCII if assumed)."""
    k = cat, ctx.assume_ascii
    if k not in _categories:
        letter = {sre_c.CATEGORY_DIGIT: "d", sre_c.CATEGORY_SPACE: "s", sre_c.CATEGORY_WORD: "w",
            sre_c.CATEGORY_NOT_DIGIT: "D", sre_c.CATEGORY_NOT_SPACE: "S", sre_c.CATEGORY_NOT_WORD: "W"}.get(cat)
        if letter is None:
            raise Unsupported("regex category")
        negative = letter.isupper()
        find = re.compile("\\" + letter.lower()).match
        top = 0x80 if ctx.assume_ascii else MAXCH + 1
        ranges, start = [], None
        for c in range(top + 1):
            if c < top and find(chr(c)):
                start = c if start is None else start
            elif start is not None:
                ranges.append((start, c - 1))
                start = None
        r = union([rng(x, y) for x, y in ranges])
        _categories[k] = z3.Intersect(any_char(), z3.Complement(r)) if negative else r
    return _categories[k]




def char_class(ctx, items):
    """(re, negated)"""
    parts = []
    neg = False
    for op, av in items:
        if op is sre_c.NEGATE:
            neg = True
        elif op is sre_c.LITERAL:
            parts.append(lit(ctx, av))
        elif op is sre_c.RANGE:
            if ctx.ignorecase:
                raise Unsupported("range with IGNORECASE")
            parts.append(rng(*av))
        elif op is sre_c.CATEGORY:
            parts.append(category(ctx, av))
        else:
            raise Unsupported(f"regex class {op}")
    r = union(parts)
    if neg:
        return z3.Diff(any_char(), r)
    return r


def lit(ctx, o):
    c = chr(o)
    if ctx.ignorecase and c.lower() != c.upper():
        if ord(c) > 127:
            raise Unsupported("IGNORECASE on non-ASCII")
        return union([z3.Re(strval(x)) for x in {c.lower(), c.upper()}])
    return z3.Re(strval(c))


def item_re(ctx, op, av):
    if op is sre_c.LITERAL:
        return lit(ctx, av)
    if op is sre_c.NOT_LITERAL:
        return z3.Diff(any_char(), lit(ctx, av))
    if op is sre_c.IN:
        return char_class(ctx, av)
    if op is sre_c.ANY:
        return any_char() if ctx.dotall else z3.Diff(any_char(), z3.Re(z3.StringVal("\n")))
    if op is sre_c.MAX_REPEAT:
        lo, hi, sub = av
        r = seq_re(ctx, sub)
        if hi is sre_c.MAXREPEAT:
            if lo == 0:
                return z3.Star(r)
            if lo == 1:
                return z3.Plus(r)
            return z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
        if (lo, hi) == (0, 1):
            return z3.Option(r)
        return z3.Loop(r, lo, hi)
    if op is sre_c.SUBPATTERN:
        group, add, sub, p = av
        if sub or add & ~re.DOTALL:
            raise Unsupported("inline flags")
        if add:
            inner = copy.copy(ctx)
            inner.dotall = True
            return seq_re(inner, p)
        return seq_re(ctx, p)
    if op is sre_c.FAILURE:
        return z3.Empty(z3.ReSort(z3.StringSort()))
    if op is sre_c.MIN_REPEAT and getattr(ctx.E, "regex_exists", False):
        return item_re(ctx, sre_c.MAX_REPEAT, av)
    if op is sre_c.ASSERT_NOT and av[0] == 1 and not len(av[1]):
        return z3.Empty(z3.ReSort(z3.StringSort()))
    if op is sre_c.BRANCH:
        return union([seq_re(ctx, p) for p in av[1]])
    raise Unsupported(f"regex item {op}")


def seq_re(ctx, p):
    rs = [item_re(ctx, op, av) for op, av in p]
    if not rs:
        return z3.Re(z3.StringVal(""))
    return rs[0] if len(rs) == 1 else z3.Concat(*rs)


AT_START = (sre_c.AT_BEGINNING, sre_c.AT_BEGINNING_STRING)


def has_anchor(p):
    for op, av in p:
        if op is sre_c.AT:
            return True
        if op is sre_c.SUBPATTERN and has_anchor(av[3]):
            return True
        if op is sre_c.BRANCH and any(has_anchor(a) for a in av[1]):
            return True
        if op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT) and has_anchor(av[2]):
            return True
    return False


def language(ctx, items, at_start, tail):
    """The strings that consist of a match of the items and a rest that is in tail."""
    if not items:
        return tail
    (op, av), rest = items[0], list(items[1:])
    eps = z3.Re(z3.StringVal(""))
    if op is sre_c.AT:
        if av in AT_START:
            if not at_start:
                raise Unsupported("anchor inside a pattern")
            return language(ctx, rest, True, tail)
        if rest and not all(i == (op, av) for i in rest):
            raise Unsupported("anchor inside a pattern")
        if av is sre_c.AT_END:
            return z3.Intersect(tail, z3.Option(z3.Re(z3.StringVal("\n"))))
        if av is sre_c.AT_END_STRING:
            return z3.Intersect(tail, eps)
        raise Unsupported("anchor")
    if op is sre_c.BRANCH:
        if has_anchor([(op, av)]):
            return union([language(ctx, list(a) + rest, at_start, tail) for a in av[1]])
    elif op is sre_c.SUBPATTERN and has_anchor(av[3]):
        if av[1] or av[2]:
            raise Unsupported("inline flags")
        return language(ctx, list(av[3]) + rest, at_start, tail)
    r = item_re(ctx, op, av)
    return z3.Concat(r, language(ctx, rest, False, tail))


def search_language(ctx, items, tail):
    """The strings in which the items match somewhere."""
    any_ = z3.Star(any_char())
    if items and items[0][0] is sre_c.AT and items[0][1] in AT_START:
        return language(ctx, items, True, tail)
    if items and items[0][0] is sre_c.BRANCH and has_anchor(items[:1]):
        return union([search_language(ctx, list(a) + list(items[1:]), tail)
            for a in items[0][1][1]])
    if items and items[0][0] is sre_c.SUBPATTERN and has_anchor(items[0][1][3]):
        return search_language(ctx, list(items[0][1][3]) + list(items[1:]), tail)
    return z3.Concat(any_, language(ctx, items, False, tail))


def re_empty(r):
    """True if the regular language is empty."""
    s = z3.Solver()
    s.set("timeout", 3000)
    x = z3.String("rx!x")
    s.add(z3.InRe(x, r))
    return s.check() == z3.unsat


def lit_chars(r):
    t = r.arg(0)
    if not z3.is_string_value(t):
        return None
    return [ord(c) for c in strof(t)]


def alphabet(r):
    """Ranges covering every character in the words of a regular expression, or None."""
    k = r.decl().kind()
    if k == z3.Z3_OP_SEQ_TO_RE:
        cs = lit_chars(r)
        return None if cs is None else [(c, c) for c in cs]
    if k == z3.Z3_OP_RE_RANGE:
        a, b = strof(r.arg(0)), strof(r.arg(1))
        return [(ord(a), ord(b))] if len(a) == 1 and len(b) == 1 else None
    if k in (z3.Z3_OP_RE_UNION, z3.Z3_OP_RE_CONCAT, z3.Z3_OP_RE_STAR, z3.Z3_OP_RE_PLUS,
            z3.Z3_OP_RE_OPTION, z3.Z3_OP_RE_LOOP):
        out = []
        for x in r.children():
            if z3.is_int(x):
                continue
            a = alphabet(x)
            if a is None:
                return None
            out += a
        return out
    return None


def firsts(r):
    """(ranges covering the first characters, may the word be empty) or None"""
    k = r.decl().kind()
    if k == z3.Z3_OP_SEQ_TO_RE:
        cs = lit_chars(r)
        return None if cs is None else ([(c, c) for c in cs[:1]], not cs)
    if k == z3.Z3_OP_RE_RANGE:
        a = alphabet(r)
        return None if a is None else (a, False)
    if k in (z3.Z3_OP_RE_STAR, z3.Z3_OP_RE_OPTION):
        f = firsts(r.arg(0))
        return None if f is None else (f[0], True)
    if k == z3.Z3_OP_RE_PLUS:
        return firsts(r.arg(0))
    if k == z3.Z3_OP_RE_UNION:
        fs = [firsts(x) for x in r.children()]
        if None in fs:
            return None
        return [c for f in fs for c in f[0]], any(f[1] for f in fs)
    if k == z3.Z3_OP_RE_CONCAT:
        out = []
        for x in r.children():
            f = firsts(x)
            if f is None:
                return None
            out += f[0]
            if not f[1]:
                return out, False
        return out, True
    return None


def overlap(a, b):
    """May a non-empty suffix of `a` be shifted into `b`?  Conservative: do first characters of
       b's language occur at all in a's characters?"""
    al, fi = alphabet(a), firsts(b)
    if al is not None and fi is not None and not any(x <= v and u <= y for x, y in al
            for u, v in fi[0]):
        return False
    c = z3.String("rx!c")
    s = z3.Solver()
    s.set("timeout", 3000)
    allc = z3.Full(z3.ReSort(z3.StringSort()))
    s.add(z3.Length(c) == 1, z3.InRe(c, z3.Intersect(any_char(), any_char())))
    x, y, u, v = (z3.String(f"rx!{n}") for n in "xyuv")
    s.add(z3.InRe(z3.Concat(x, c, y), a), z3.InRe(z3.Concat(c, v), b))
    return s.check() != z3.unsat


class Match(Opaque):
    pass


def new_match(E, start, end, groups, whole, names):
    def group(E, obj, *idx):
        idx = idx or (0,)
        vals = []
        for i in idx:
            if isinstance(i, str):
                i = names[i]
            vals.append(whole if i == 0 else groups.get(i))
        return vals[0] if len(vals) == 1 else tuple(vals)

    def groups_(E, obj, *a):
        n = max(groups) if groups else 0
        return tuple(groups.get(i) for i in range(1, n + 1))
    ty = Opaque("re.Match", methods={
        "group": group, "groups": groups_, "__getitem__": lambda E, o, i: group(E, o, i),
        "start": lambda E, o, *a: mk(E, start) if not a or a[0] == 0 else unsupported(),
        "end": lambda E, o, *a: mk(E, end) if not a or a[0] == 0 else unsupported(),
    }, pycls=None)
    return SData(z3.Const("match", ty.sort()), ty)


def mk(E, t):
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else SInt(t)


def unsupported(*a):
    raise Unsupported("match method")


def class_ranges(ctx, op, av):
    """Canonical character set ((lo, hi), ...) of a one-character item, or None."""
    pts = set()
    if op is sre_c.LITERAL:
        pts.add(av)
        items = []
    elif op is sre_c.IN:
        items = av
    else:
        return None
    for o, a in items:
        if o is sre_c.LITERAL:
            pts.add(a)
        elif o is sre_c.RANGE:
            pts.update(range(a[0], a[1] + 1))
        elif o is sre_c.CATEGORY and a is sre_c.CATEGORY_DIGIT and ctx.assume_ascii:
            pts.update(range(48, 58))
        else:
            return None
    if ctx.ignorecase:
        pts |= {ord(f(chr(p))) for p in list(pts) for f in (str.lower, str.upper)
                if len(f(chr(p))) == 1}
    return tuple(sorted(pts))


def repeat_class(ctx, op, av):
    """Character set of an item that is one class, repeated or not."""
    while op is sre_c.SUBPATTERN and len(av[3]) == 1:
        op, av = av[3][0]
    if op is sre_c.MAX_REPEAT:
        if len(av[2]) != 1:
            return None
        return class_ranges(ctx, *av[2][0])
    return class_ranges(ctx, op, av)


def joined_re(rs):
    return rs[0] if len(rs) == 1 else z3.Concat(*rs)


def joined(ts):
    return z3.StringVal("") if not ts else ts[0] if len(ts) == 1 else z3.Concat(*ts)


def span(E, t, pts):
    """Longest prefix of t over the characters pts, and the remainder."""
    t = z3.simplify(t)
    if not E.isolated:
        # evident from the parts of a concatenation
        cls = z3.Star(union([z3.Re(strval(chr(p))) for p in pts]))
        ch = []
        for c in t.children() if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT else [t]:
            ch += list(c.children()) if z3.is_app(c) and c.decl().kind() == \
                z3.Z3_OP_SEQ_CONCAT else [c]
        for i, c in enumerate(ch):
            if z3.is_string_value(c):
                text = strof(c)
                n = next((j for j, x in enumerate(text) if ord(x) not in pts), None)
                if n is not None:
                    return (joined(ch[:i] + ([strval(text[:n])] if n else [])),
                        joined([strval(text[n:])] + ch[i + 1:]))
            elif not E.known_in(c, cls):
                other = z3.Concat(z3.Diff(any_char(), cls.arg(0)), z3.Star(any_char()))
                if i + 1 == len(ch):
                    other = z3.Option(other)
                if E.known_in(c, other):
                    return joined(ch[:i]), joined(ch[i:])
                break
        else:
            return t, z3.StringVal("")
    key = ",".join(map(str, pts))
    head = E.uf(("span", key), [z3.StringSort()], z3.StringSort())(t)
    tail = E.uf(("dropspan", key), [z3.StringSort()], z3.StringSort())(t)
    if not E.isolated:
        cls = union([z3.Re(strval(chr(p))) for p in pts])
        E.fact(t == z3.Concat(head, tail))
        E.fact(z3.InRe(head, z3.Star(cls)))
        E.fact(z3.Not(z3.InRe(z3.SubString(tail, 0, 1), cls)))
    return head, tail


def top_items(p):
    """Flatten a single top-level non-capturing structure: returns list of alternatives."""
    items = list(p)
    if len(items) == 1 and items[0][0] is sre_c.BRANCH:
        return [list(q) for q in items[0][1][1]]
    for i, (op, av) in enumerate(items):
        if op is sre_c.SUBPATTERN and av[0] is None and not av[1] and not av[2]:
            inner = list(av[3])
            if len(inner) == 1 and inner[0][0] is sre_c.BRANCH and all_groups(inner, []):
                op, av = inner[0]
        if op is sre_c.BRANCH and all_groups([(op, av)], []):
            # the alternatives are tried in order, each together with what surrounds it
            return [a for q in av[1] for a in top_items(items[:i] + list(q) + items[i + 1:])]
    return [items]


def all_groups(p, out):
    for op, av in p:
        if op is sre_c.SUBPATTERN:
            if av[0] is not None:
                out.append(av[0])
            all_groups(av[3], out)
        elif op is sre_c.BRANCH:
            for q in av[1]:
                all_groups(q, out)
        elif op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT):
            all_groups(av[2], out)
    return out


def group_items(tree, out, optional):
    """(number, items, whether it may take no part in a match) of all groups."""
    for op, av in tree:
        if op is sre_c.SUBPATTERN:
            if av[0] is not None:
                out.append((av[0], av[3], optional))
            group_items(av[3], out, optional)
        elif op is sre_c.BRANCH:
            for q in av[1]:
                group_items(q, out, True)
        elif op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT):
            group_items(av[2], out, optional or av[0] == 0)
        elif op in (sre_c.ASSERT, sre_c.ASSERT_NOT):
            raise Unsupported("groups and assertions")
    return out


def pattern_method(E, pat, name, args, kw):
    hook = getattr(E, "pattern_hooks", {}).get(name)
    if hook is not None:
        return hook(E, pat, *args, **kw)
    if name not in ("match", "fullmatch", "search"):
        raise Unsupported(f"re.Pattern.{name}")
    if len(args) != 1 or not isinstance(args[0], SStr) or isinstance(pat.pattern, bytes):
        raise Unsupported(f"re.Pattern.{name} arguments")
    s = args[0].t
    tree = sre_parse.parse(pat.pattern, pat.flags & ~re.UNICODE)
    ctx = Ctx(E, pat.flags)
    if getattr(E, "regex_exists", False):
        # only whether there is a match is asked for
        tail = z3.Re(z3.StringVal("")) if name == "fullmatch" else z3.Star(any_char())
        r = language(ctx, list(tree), True, tail) if name != "search" else \
            search_language(ctx, list(tree), tail)
        if not E.branch(z3.InRe(s, r)):
            return None
        def groups(E, m):
            # nothing but the language of each group is known
            out = []
            for g, sub, optional in sorted(group_items(tree, [], False), key=lambda x: x[0]):
                if optional and E.choice(2):
                    out.append(None)
                    continue
                t = E.fresh_const(f"group{g}", z3.StringSort())
                E.fact(z3.InRe(t, language(ctx, list(sub), False, z3.Re(z3.StringVal("")))))
                out.append(SStr(t))
            return tuple(out)
        ty = Opaque("re.Match.exists", methods={"groups": groups})
        return SData(z3.Const("match_exists", ty.sort()), ty)
    alts = top_items(tree)
    if name == "search":
        if any(not (a and a[0] == (sre_c.AT, sre_c.AT_BEGINNING) or a and a[0] ==
                (sre_c.AT, sre_c.AT_BEGINNING_STRING)) for a in alts):
            raise Unsupported("re search")
        name = "match"
    groups_all = all_groups(tree, [])
    for alt in alts:
        m = match_alt(E, ctx, alt, s, name == "fullmatch", groups_all, tree)
        if m is not None:
            return m
    return None


def match_alt(E, ctx, items, s, full, groups_all, tree):
    """Fork: a match object if this alternative matches, else None."""
    items = list(items)
    while items and items[0] in ((sre_c.AT, sre_c.AT_BEGINNING),
            (sre_c.AT, sre_c.AT_BEGINNING_STRING)):
        items.pop(0)
    end = None
    if items and items[-1] == (sre_c.AT, sre_c.AT_END):
        items.pop()
        end = "$"
    elif items and items[-1] == (sre_c.AT, sre_c.AT_END_STRING):
        items.pop()
        end = "Z"
    if full:
        end = "Z"
    if any(op is sre_c.AT for op, _ in items):
        raise Unsupported("anchor inside a pattern")
    # expand groups containing a plain sequence into named pieces
    flat = []

    def add(p, groups):
        for op, av in p:
            if op is sre_c.SUBPATTERN:
                g = av[0]
                inner = list(av[3])
                if len(p) >= 1 and inner and any(o is sre_c.SUBPATTERN or o is sre_c.MAX_REPEAT
                        and all_groups(a[2], []) for o, a in inner):
                    add(inner, groups + ([g] if g is not None else []))
                    continue
                flat.append((seq_re(ctx, inner), groups + ([g] if g is not None else []), None,
                    repeat_class(ctx, op, av)))
            elif op is sre_c.MAX_REPEAT and all_groups(av[2], []):
                if av[:2] != (0, 1):
                    raise Unsupported("repeated group")
                flat.append((None, groups, list(av[2]), None))
            else:
                flat.append((item_re(ctx, op, av), groups, None, repeat_class(ctx, op, av)))
    add(items, [])
    # optional groups: decide presence by forking
    return try_flat(E, ctx, flat, s, end, groups_all, tree)


def try_flat(E, ctx, flat, s, end, groups_all, tree):
    for i, (r, groups, opt, _) in enumerate(flat):
        if opt is not None:
            sub = []
            for op, av in opt:
                if op is sre_c.SUBPATTERN:
                    if all_groups(av[3], []):
                        raise Unsupported("nested optional group")
                    sub.append((seq_re(ctx, av[3]), groups + ([av[0]] if av[0] else []), None,
                        repeat_class(ctx, op, av)))
                else:
                    sub.append((item_re(ctx, op, av), groups, None, repeat_class(ctx, op, av)))
            m = try_flat(E, ctx, flat[:i] + sub + flat[i + 1:], s, end, groups_all, tree)
            if m is not None:
                return m
            return try_flat(E, ctx, flat[:i] + flat[i + 1:], s, end, groups_all, tree)
    res = [x[0] for x in flat]
    body = z3.Re(z3.StringVal("")) if not res else (res[0] if len(res) == 1 else z3.Concat(*res))
    anych = z3.Star(any_char())
    if end == "Z":
        whole = body
    elif end == "$":
        whole = z3.Concat(body, z3.Option(z3.Re(z3.StringVal("\n"))))
    else:
        whole = z3.Concat(body, anych)
    known = None
    if end == "Z" and len(res) > 1 and z3.is_app(s) and \
            s.decl().kind() == z3.Z3_OP_SEQ_CONCAT and \
            z3.is_string_value(s.arg(s.num_args() - 1)) and \
            z3.is_true(z3.simplify(z3.InRe(s.arg(s.num_args() - 1), res[-1]))):
        # a literal at the end that the last item matches
        ch = s.children()
        head = ch[0] if len(ch) == 2 else z3.Concat(*ch[:-1])
        front = res[0] if len(res) == 2 else z3.Concat(*res[:-1])
        if E.known_in(head, front) or E.branch(z3.InRe(head, front)):
            known = (head, ch[-1])
    if known is None and not E.branch(z3.InRe(s, whole)):
        return None
    # unique decomposition?
    for i in range(len(res)):
        tail = res[i + 1:]
        if end == "$":
            tail = tail + [z3.Option(z3.Re(z3.StringVal("\n")))]
        if tail and end is not None or tail:
            t = tail[0] if len(tail) == 1 else z3.Concat(*tail)
            if overlap(res[i], t):
                raise Unsupported("ambiguous regular expression")
    parts = []
    cur = s
    if known is not None and len(res) == 2:
        parts = list(known)
        cur = None
    for i, r in enumerate(res):
        if parts and cur is None and known is not None and len(res) == 2:
            break
        pts = flat[i][3]
        if pts is None and cur is not None:
            # everything up to the first character that cannot be part of this item
            al = alphabet(r)
            if al is not None and sum(b - a + 1 for a, b in al) < 300 and (i + 1 == len(res) or
                    not firsts(joined_re(res[i + 1:]))[1] or end is not None):
                pts = tuple(sorted({c for a, b in al for c in range(a, b + 1)}))
        if cur is not None and pts is not None and i + 1 == len(res) and end == "Z":
            p = cur
            E.fact(z3.InRe(p, r))
        elif cur is not None and pts is not None and (i + 1 < len(res) or end is not None):
            p, cur = span(E, cur, pts)
            E.fact(z3.InRe(p, r))
        else:
            cur = None
            p = E.fresh_const("rx", z3.StringSort())
            E.fact(z3.InRe(p, r))
        parts.append(p)
    tailp = None
    if end == "$":
        tailp = E.fresh_const("nl", z3.StringSort())
        E.fact(z3.Or(tailp == z3.StringVal(""), tailp == z3.StringVal("\n")))
    elif end is None:
        tailp = E.fresh_const("rest", z3.StringSort())
        if parts:
            # maximality of the last item
            if not isinstance(flat[-1][0], type(None)):
                x = z3.String("rx!m")
                E.fact(z3.Not(z3.InRe(z3.Concat(parts[-1], z3.SubString(tailp, 0, 1)), res[-1]))
                        if True else z3.BoolVal(True)) if extends(res[-1]) else None
    allp = parts + ([tailp] if tailp is not None else [])
    if not allp:
        E.fact(s == z3.StringVal(""))
    else:
        E.fact(s == (allp[0] if len(allp) == 1 else z3.Concat(*allp)))
    groups = {g: None for g in groups_all}
    for (r, gs, _, _), p in zip(flat, parts):
        for g in gs:
            groups[g] = p if groups[g] is None else z3.Concat(groups[g], p)
    groups = {g: (SStr(p) if p is not None else None) for g, p in groups.items()}
    whole_t = z3.StringVal("") if not parts else (parts[0] if len(parts) == 1
            else z3.Concat(*parts))
    return new_match(E, z3.IntVal(0), z3.Length(whole_t), groups, SStr(whole_t),
            dict(tree.state.groupdict))


def extends(r):
    """Only repeats of one character class are allowed as an open end."""
    k = r.decl().kind()
    if k in (z3.Z3_OP_RE_STAR, z3.Z3_OP_RE_PLUS):
        return True
    if k in (z3.Z3_OP_RE_RANGE, z3.Z3_OP_RE_UNION, z3.Z3_OP_SEQ_TO_RE, z3.Z3_OP_RE_FULL_CHAR_SET,
            z3.Z3_OP_RE_DIFF):
        return False
    raise Unsupported("open-ended regular expression")
