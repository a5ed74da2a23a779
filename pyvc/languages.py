"""Reasoning about memberships in regular languages.

A string term that is known to be the concatenation of other terms lies in the concatenation of the
languages these are known to lie in. A set of facts is contradictory if the intersection of that
language with the languages the whole term is known to lie in is empty, which is one question about
a single string for the solver.
"""

import z3

STRING = z3.StringSort()
CHAR = z3.AllChar(z3.ReSort(STRING))
ALL = z3.Star(CHAR)
EMPTY = z3.StringVal("")


def literal(c):
    """(term, regex) of a fact about a single term, or None."""
    if not z3.is_app(c):
        return None
    k = c.decl().kind()
    if k == z3.Z3_OP_NOT:
        x = c.arg(0)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONTAINS and z3.is_string_value(
                x.arg(1)) and z3.is_true(z3.simplify(z3.Length(x.arg(1)) == 1)):
            return x.arg(0), z3.Star(z3.Diff(CHAR, z3.Re(x.arg(1))))
        r = literal(x)
        return r and (r[0], z3.Complement(r[1]))
    if k == z3.Z3_OP_SEQ_IN_RE:
        return c.arg(0), c.arg(1)
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and c.num_args() == 2:
        for x, y in (c.children(), c.children()[::-1]):
            r = None
            if x.sort() == STRING and z3.is_string_value(y):
                r = x, z3.Re(y)
            elif z3.is_int_value(y) and is_length(x):
                n = y.as_long()
                r = x.arg(0), z3.Loop(CHAR, n, n) if n > 0 else z3.Re(EMPTY)
            if r:
                return (r[0], z3.Complement(r[1])) if k == z3.Z3_OP_DISTINCT else r
    if k == z3.Z3_OP_SEQ_CONTAINS and z3.is_string_value(c.arg(1)):
        return c.arg(0), z3.Concat(ALL, z3.Re(c.arg(1)), ALL)
    if k == z3.Z3_OP_SEQ_PREFIX and z3.is_string_value(c.arg(0)):
        return c.arg(1), z3.Concat(z3.Re(c.arg(0)), ALL)
    if k == z3.Z3_OP_SEQ_SUFFIX and z3.is_string_value(c.arg(0)):
        return c.arg(1), z3.Concat(ALL, z3.Re(c.arg(0)))
    if k in (z3.Z3_OP_GE, z3.Z3_OP_LE) and is_length(c.arg(0)) and z3.is_int_value(c.arg(1)):
        n = c.arg(1).as_long()
        if n < 0:
            return None
        if k == z3.Z3_OP_GE:
            return c.arg(0).arg(0), z3.Concat(*[CHAR] * n, ALL) if n > 0 else ALL
        return c.arg(0).arg(0), z3.Loop(CHAR, 0, n) if n > 0 else z3.Re(EMPTY)
    return None


def is_length(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_LENGTH and t.arg(0).sort() == STRING


def conjuncts(cs):
    out = []
    for c in cs:
        if z3.is_and(c):
            out += conjuncts(c.children())
        elif z3.is_not(c) and z3.is_or(c.arg(0)):
            out += conjuncts([z3.Not(x) for x in c.arg(0).children()])
        elif z3.is_not(c) and z3.is_not(c.arg(0)):
            out += conjuncts([c.arg(0).arg(0)])
        elif z3.is_not(c) and z3.is_implies(c.arg(0)):
            out += conjuncts([c.arg(0).arg(0), z3.Not(c.arg(0).arg(1))])
        else:
            out.append(c)
    return out


def contradiction(E, neg):
    if z3.is_or(neg) and neg.num_args() <= 6:
        return all(contradiction(E, x) for x in neg.children())
    if z3.is_not(neg) and z3.is_and(neg.arg(0)) and neg.arg(0).num_args() <= 6:
        return all(contradiction(E, z3.Not(x)) for x in neg.arg(0).children())
    cs = conjuncts(list(E.pc) + [neg])
    known, equal, terms = {}, {}, {}
    for c in cs:
        r = literal(c)
        if r and not z3.is_string_value(r[0]):
            known.setdefault(r[0].get_id(), []).append(r[1])
            terms[r[0].get_id()] = r[0]
        elif z3.is_eq(c) and c.arg(0).sort() == STRING:
            for u, v in (c.children(), c.children()[::-1]):
                if v.decl().kind() == z3.Z3_OP_SEQ_CONCAT and u.decl().kind() != \
                        z3.Z3_OP_SEQ_CONCAT:
                    equal.setdefault(u.get_id(), v)
                    terms[u.get_id()] = u
    if not any(literal(c) is not None and c.decl().kind() != z3.Z3_OP_EQ for c in cs):
        return False

    # every part of a text of such characters consists of such characters
    work = [(terms[i], r) for i, rs in known.items() for r in rs if charset_star(E, r)]
    passed = set()
    while work:
        t, r = work.pop()
        if (t.get_id(), r.get_id()) in passed:
            continue
        passed.add((t.get_id(), r.get_id()))
        parts = t.children() if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT else [equal[t.get_id()]] \
            if t.get_id() in equal else []
        for x in parts:
            if not z3.is_string_value(x):
                if r.get_id() not in [y.get_id() for y in known.get(x.get_id(), [])]:
                    known.setdefault(x.get_id(), []).append(r)
                    terms[x.get_id()] = x
                work.append((x, r))

    def language(t, seen=frozenset()):
        if z3.is_string_value(t):
            return z3.Re(t)
        if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            rs = [language(x, seen) for x in t.children()]
            own = z3.Concat(*rs)
            rest = known.get(t.get_id(), [])
        else:
            rest = list(known.get(t.get_id(), []))
            own = None
            if t.get_id() in equal and t.get_id() not in seen:
                own = language(equal[t.get_id()], seen | {t.get_id()})
        rs = ([own] if own is not None else []) + rest
        return ALL if not rs else rs[0] if len(rs) == 1 else z3.Intersect(*rs)

    for i, t in terms.items():
        n = len(known.get(i, [])) + (i in equal or t.decl().kind() == z3.Z3_OP_SEQ_CONCAT)
        if n > 1 and empty(E, language(t)):
            return True
    return False


def charset_star(E, r):
    """The language of all texts over some set of characters."""
    return r.decl().kind() == z3.Z3_OP_RE_STAR and E.included(r.arg(0), CHAR)


def empty(E, r):
    key = ("empty", r.get_id())
    if key not in E.qcache:
        E.qkeep.append(r)
        s = z3.Solver()
        s.set("timeout", 2000)
        s.add(z3.InRe(z3.String("empty!x"), r))
        E.qcache[key] = s.check() == z3.unsat
        E.stats["queries"] += 1
    return E.qcache[key]
