"""Specification primitives: executable in CPython, symbolic in the verifier."""

import functools


def foldl(step, init, seq):
    """step(...step(step(init, s0), s1)..., sn)"""
    return functools.reduce(step, seq, init)


def bits(n, value):
    """value seen as a set of n bits."""
    return value & ((1 << n) - 1)


def implies(a, b):
    return not a or bool(b)


def iff(a, b):
    return bool(a) == bool(b)


def span(s, chars):
    """Longest prefix of s over the given characters."""
    i = 0
    while i < len(s) and s[i] in chars:
        i += 1
    return s[:i]


def dropspan(s, chars):
    return s[len(span(s, chars)):]


def in_re(s, pattern):
    """The whole of s matches the regular expression."""
    import re
    return re.fullmatch(pattern, s, re.DOTALL) is not None


def install(E):
    from . import builtins_ as B
    from .values import SBits, SBool
    import z3

    def h_foldl(E, step, init, seq):
        return E.foldl(step, init, B.iter_pieces(E, seq))

    def h_bits(E, n, value):
        b = E.to_bits(value, n)
        return SBits(b.t, False, True) if isinstance(value, int) else \
            SBits(b.t, False, True)

    def h_implies(E, a, b):
        return E.mkbool(z3.Implies(E.truth_term(a), E.truth_term(b)))

    def h_iff(E, a, b):
        return E.mkbool(E.truth_term(a) == E.truth_term(b))
    def h_in_re(E, s, pattern):
        if isinstance(s, str):
            return in_re(s, pattern)
        import re
        from . import regex as R
        ctx = R.Ctx(E, re.DOTALL)
        return E.mkbool(z3.InRe(s.t, R.seq_re(ctx, R.sre_parse.parse(pattern, re.DOTALL))))
    def h_span(which):
        def h(E, s, chars):
            if isinstance(s, str):
                return (span, dropspan)[which](s, chars)
            from . import regex as R
            from .values import SStr
            return SStr(R.span(E, s.t, tuple(sorted(map(ord, chars))))[which])
        return h
    E.global_model(span, h_span(0))
    E.global_model(dropspan, h_span(1))
    E.global_model(in_re, h_in_re)
    E.global_model(foldl, h_foldl)
    E.global_model(bits, h_bits)
    E.global_model(implies, h_implies)
    E.global_model(iff, h_iff)


def all_same(xs):
    """The elements of a list are all equal."""
    if len(xs) == 0:
        return True
    first = xs[0]
    return all(x == first for x in xs)
