"""Path exploration, solver interface, sequences, folds and obligations."""

import hashlib
import os
import subprocess
import tempfile
import time
import z3

from . import languages
from .values import *
from .values import strval

CVC5 = "/usr/local/bin/cvc5" if os.path.exists("/usr/local/bin/cvc5") else "cvc5"


class Explorer:
    """A depth-first enumeration of decision trails."""

    def __init__(self, trail):
        self.trail = list(trail)
        self.pos = 0
        self.fixed = len(self.trail)
        self.alternatives = []


class Obligation:
    def __init__(self, label):
        self.label = label
        self.count = 0
        self.discharged = 0
        self.refuted = []
        self.undecided = []
        self.backends = {}
        self.time = 0.0
        self.covered = False


class Confirmed(Exception):
    """A refutation without any abstraction of loops and folds."""


class EngineBase:
    # Bounded mode: loops are unrolled and lists have at most this many elements (0: not bounded).
    # It decides whether a refuted obligation is refuted by an execution or just by the abstraction.
    bound = 0
    QUICK_MS = 100
    SPEC_MS = 60
    STAGE1_MS = 1000
    PROVE_MS = 4000
    PROVE2_MS = 15000
    CVC5_S = 20
    MAX_PATHS = 6000

    def __init__(self, name):
        self.name = name
        self.obligations = {}
        self.modsets = {}
        self.loop_types = {}
        self.dropped = {}
        self.weak_drop = []
        self.stats = dict(paths=0, restarts=0, queries=0, solver_s=0.0, functions=set(),
                assumptions=set(), loops={})
        self.ufs = {}
        self.keep = []
        self.deadline = None
        self.in_spec = 0
        self.nocheck = False
        self.implications = False
        self.qcache = {}
        self.bodies, self.body_keys = {}, {}
        self.qkeep = []
        self.cvc5_tries = [0, 0]

    # ---------------------------------------------------------------------------------- paths
    def verify(self, body):
        """Explore every path of body(), restarting when something was learned."""
        for _ in range(400):
            try:
                self.obligations = {}
                self.stats["paths"] = 0
                self._explore(body)
                return
            except Restart:
                self.stats["restarts"] += 1
        raise Unsupported("no fixed point after 400 restarts")

    def _explore(self, body):
        work = [[]]
        while work:
            trail = work.pop()
            self.stats["paths"] += 1
            if self.stats["paths"] > self.MAX_PATHS:
                raise Unsupported("too many paths")
            self.reset_path(trail)
            try:
                body()
            except PathEnd:
                pass
            except Unsupported as exc:
                if not self.bound:
                    raise
                self.tick()
                self.stats["gave_up"] = str(exc)
            work.extend(self.explorer.alternatives)

    def reset_path(self, trail):
        self.explorer = Explorer(trail)
        self.solver = z3.Solver()
        self.pc = []
        self.counter = 0
        self.uidc = 0
        self.decomp = {}
        self.seq_types = {}
        self.concat_of = {}
        self.apps = []
        self.homs = []
        self.perms = {}
        self.fold_apps = {}
        self.bit_width = None
        self.path_variants = {}
        self.pattern_hooks = {}
        self.sort_hook = None
        self.cell_hook = None
        self.fold_lemmas = []
        self.loops = []
        self.nesting = 0
        self.isolated = 0
        self.facts_log = None
        self.ghosts = {}
        self.implications = False
        self.inputs = {}
        self.invariants = []
        self.havoc_hooks = {}
        self.trace = []
        self.path_reset()

    def path_reset(self):
        pass

    def next_uid(self):
        self.uidc += 1
        return self.uidc

    def loop_depth_stamp(self):
        return len(self.loops)

    def fresh_const(self, name, sort):
        if self.isolated:
            raise Unsupported("fresh constant in a generic element context")
        self.counter += 1
        return z3.Const(f"{name}!{self.counter}", sort)

    def add(self, c, kind="cond"):
        if z3.is_true(c):
            return
        self.pc.append(c)
        self.solver.add(c)
        if self.facts_log is not None:
            log = self.facts_log
            log[kind].append(c if kind == "cond" else (len(log["cond"]), c))
        self.propagate(c)

    def propagate(self, c):
        """Make the parts of a conjunction and the consequents of implications explicit."""
        new = self.split_and(c)
        self.implications = self.implications or z3.is_implies(c)
        if self.isolated or not new and not self.implications:
            return
        known = {x.get_id() for x in self.pc}
        while new is not None:
            for x in new:
                if x.get_id() not in known:
                    known.add(x.get_id())
                    self.pc.append(x)
                    self.solver.add(x)
            new = None
            for x in list(self.pc):
                if z3.is_implies(x) and x.arg(1).get_id() not in known and all(
                        y.get_id() in known for y in self.split_and(x.arg(0)) or [x.arg(0)]):
                    new = (new or []) + [x.arg(1)] + self.split_and(x.arg(1))

    @staticmethod
    def split_and(c):
        if not z3.is_and(c):
            return []
        out = []
        for x in c.children():
            out += EngineBase.split_and(x) or [x]
        return out

    def fact(self, c):
        """A definitional fact (conservative extension)."""
        if isinstance(c, bool):
            if not c:
                raise PathEnd()
            return
        if self.isolated and not z3.is_true(z3.simplify(c)):
            raise Unsupported("fact in a generic element context")
        self.add(c, "fact")

    def assume(self, c):
        """A precondition / contract assumption."""
        c = self.as_bool_term(c)
        s = z3.simplify(c)
        if z3.is_false(s):
            raise PathEnd()
        if z3.is_true(s):
            return
        self.add(c, "fact")
        self.learn(c)
        ex = self.explorer
        if ex.pos >= len(ex.trail) and not self.isolated:
            if self._check(self.QUICK_MS) == z3.unsat:
                raise PathEnd()

    def learn(self, c):
        """Known contents of lists: a list that is assumed to be equal to another one consists of
           the pieces of it."""
        if self.isolated:
            return
        if z3.is_and(c):
            for x in c.children():
                self.learn(x)
        elif z3.is_eq(c):
            a, b = c.arg(0), c.arg(1)
            for x, y in ((a, b), (b, a)):
                ty = self.seq_types.get(x.get_id())
                if ty is None or not ty[0].eq(x) or x.get_id() in self.decomp:
                    continue
                rope = self.norm([SeqP(y, ty[1])])
                if not self.occurs(x, [p.t if isinstance(p, SeqP) else p for p in rope]):
                    self.decompose(SeqP(x, ty[1]), rope)
                    return

    def occurs(self, x, values):
        todo = [v if z3.is_expr(v) else getattr(v, "t", None) for v in values
                if not isinstance(v, (str, int, type(None)))]
        seen = set()
        while todo:
            t = todo.pop()
            if t is None:
                return True
            if t.eq(x):
                return True
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            d = self.decomp.get(t.get_id())
            if d is not None:
                todo += [getattr(p, "t", None) for p in d[1]
                        if not isinstance(p, (str, int, type(None)))]
            todo += t.children()
        return False

    def _check(self, ms, *extra):
        """Satisfiability of the path condition (answers are cached across restarts)."""
        self.tick()
        key = (tuple(c.get_id() for c in self.pc), tuple(c.get_id() for c in extra))
        hit = self.qcache.get(key)
        if hit is not None and (hit[0] != z3.unknown or hit[1] >= ms):
            if True:
                return hit[0]
        r = self._check_solver(ms, *extra)
        self.qcache[key] = (r, ms)
        self.qkeep.append((list(self.pc), extra))
        return r

    def _check_solver(self, ms, *extra):
        self.stats["queries"] += 1
        t = time.time()
        # A new solver each time: answers of z3's incremental mode about strings were found wrong.
        self.checked = s = z3.Solver()
        s.set("timeout", ms)
        s.add(self.solver.assertions())
        s.add(*extra)
        r = s.check()
        self.stats["solver_s"] += time.time() - t
        return r

    def tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported("verification time budget exhausted")

    def possible(self, ms, cond):
        r = self._check(ms, cond)
        if r != z3.unknown:
            return r == z3.sat
        if languages.contradiction(self, cond):
            return False
        key = (tuple(c.get_id() for c in self.pc), (cond.get_id(),), "cvc5")
        if key not in self.qcache:
            if self.cvc5_tries[1] > 12 + 6 * self.cvc5_tries[0]:
                return True    # It has not been of help for this contract.
            s = z3.Solver()
            s.add(self.solver.assertions())
            s.add(cond)
            self.qcache[key] = r = self.cvc5(s, 0.5)
            self.cvc5_tries[r != "unsat"] += 1
            self.qkeep.append((list(self.pc), cond))
        return self.qcache[key] != "unsat"

    def feasible(self, c):
        return self._check(self.QUICK_MS, c) != z3.unsat

    def branch(self, cond):
        """Decide a condition, forking the path if both outcomes are possible."""
        if isinstance(cond, bool):
            return cond
        if isinstance(cond, SBool):
            cond = cond.t
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        ex = self.explorer
        if ex.pos < len(ex.trail):
            d = ex.trail[ex.pos]
            ex.pos += 1
            self.add(cond if d else z3.Not(cond))
            return d
        if self.isolated or self.nocheck:
            can_t = can_f = True
        else:
            ms = self.QUICK_MS if not self.in_spec else self.SPEC_MS
            can_t = self.possible(ms, cond)
            can_f = self.possible(ms, z3.Not(cond)) if can_t else True
        if can_t and can_f:
            ex.alternatives.append(ex.trail[:ex.pos] + [False])
            d = True
        else:
            d = can_t
        ex.trail.append(d)
        ex.pos += 1
        self.add(cond if d else z3.Not(cond))
        return d

    def choice(self, n):
        """Nondeterministic choice in range(n)."""
        if n == 1:
            return 0
        ex = self.explorer
        if self.isolated:
            raise Unsupported("nondeterministic choice in generic context")
        if ex.pos < len(ex.trail):
            d = ex.trail[ex.pos]
            ex.pos += 1
            return d
        for i in range(1, n):
            ex.alternatives.append(ex.trail[:ex.pos] + [i])
        ex.trail.append(0)
        ex.pos += 1
        return 0

    def replaying(self):
        ex = self.explorer
        return ex.pos < ex.fixed

    def known_in(self, t, regex):
        """The membership facts of the path condition about t imply InRe(t, regex)."""
        if z3.is_string_value(t):
            return z3.is_true(z3.simplify(z3.InRe(t, regex)))
        known = []
        nonempty = False
        for c in self.pc:
            if not z3.is_app(c):
                continue
            k = c.decl().kind()
            if k == z3.Z3_OP_SEQ_IN_RE and c.arg(0).eq(t):
                if self.included(c.arg(1), regex):
                    return True
                known.append(c.arg(1))
            elif k == z3.Z3_OP_DISTINCT and c.num_args() == 2 or k == z3.Z3_OP_NOT and \
                    z3.is_eq(c.arg(0)):
                a, b = (c if k == z3.Z3_OP_DISTINCT else c.arg(0)).children()
                if z3.is_int(a):
                    zero = z3.IntVal(0)
                    nonempty = nonempty or any(x.eq(zero) and y.decl().kind() ==
                        z3.Z3_OP_SEQ_LENGTH and y.arg(0).eq(t) for x, y in ((a, b), (b, a)))
                    continue
                nonempty = nonempty or (a.eq(t) and z3.is_string_value(b) and b.as_string() == ""
                    or b.eq(t) and z3.is_string_value(a) and a.as_string() == "")
        if known and nonempty:
            known.append(z3.Plus(z3.AllChar(z3.ReSort(z3.StringSort()))))
        return len(known) > 1 and self.included(z3.Intersect(*known), regex)

    def included(self, a, b):
        key = ("incl", a.get_id(), b.get_id())
        if key not in self.qcache:
            self.qkeep.append((a, b))
            x = z3.String("incl!x")
            s = z3.Solver()
            s.set("timeout", 500)
            s.add(z3.InRe(x, a), z3.Not(z3.InRe(x, b)))
            self.qcache[key] = s.check() == z3.unsat
        return self.qcache[key]

    # ------------------------------------------------------------------------- merged evaluation
    def merged(self, fn, isolated=False):
        """Evaluate fn() on all its paths and merge the results into one value (ITE)."""
        saved = (self.explorer, self.pc, self.facts_log, self.counter, self.isolated)
        outer_decomp, outer_apps = self.decomp, self.apps
        outer_solver = self.solver
        results = []
        work = [[]]
        newapps = []
        maxcount = self.counter
        self.nesting += 1
        try:
            if isolated:
                self.isolated += 1
                self.solver = z3.Solver()
            while work:
                trail = work.pop()
                if len(results) > 400:
                    raise Unsupported("too many paths in a specification expression")
                self.explorer = Explorer(trail)
                self.pc = list(saved[1])
                self.facts_log = {"cond": [], "fact": []}
                self.decomp = dict(outer_decomp)
                self.apps = list(outer_apps)
                self.solver.push()
                try:
                    v = fn()
                    results.append((self.facts_log, v))
                except PathEnd:
                    pass
                finally:
                    self.solver.pop()
                maxcount = max(maxcount, self.counter)
                if not isolated:
                    newapps.extend(self.apps[len(outer_apps):])
                work.extend(self.explorer.alternatives)
        finally:
            self.nesting -= 1
            self.explorer, self.pc, self.facts_log, self.counter, self.isolated = saved
            self.counter = maxcount
            self.decomp, self.apps = outer_decomp, outer_apps + newapps
            self.solver = outer_solver
        if not results:
            raise PathEnd()
        conds = []
        for log, v in results:
            c = z3.And(*log["cond"]) if len(log["cond"]) > 1 else (
                    log["cond"][0] if log["cond"] else z3.BoolVal(True))
            conds.append(c)
            for k, f in log["fact"]:
                # a fact holds on every path that shares the decisions made before it
                if k == 0:
                    self.add(f, "fact")
                else:
                    cs = log["cond"][:k]
                    self.add(z3.Implies(z3.And(*cs) if k > 1 else cs[0], f), "fact")
        return self.merge_values(conds, [v for _, v in results])

    def merged_nocheck(self, fn):
        """merged() without asking the solver whether a branch is feasible (pure code)."""
        if self.nocheck:
            return self.merged(fn)
        self.nocheck = True
        try:
            return self.merged(fn)
        except (PyRaise, Unsupported):
            self.nocheck = False
            return self.merged(fn)
        finally:
            self.nocheck = False

    def merge_values(self, conds, vals):
        v0 = vals[0]
        if len(vals) == 1 or all(v is v0 for v in vals[1:]):
            return v0
        if all(isinstance(v, (bool, SBool)) for v in vals):
            return SBool(z3.simplify(self._ite(conds, [BOOL.unwrap(self, v) for v in vals])))
        if all(isinstance(v, (int, SInt, bool, SBool)) for v in vals):
            return SInt(self._ite(conds, [INT.unwrap(self, v) for v in vals]))
        if all(isinstance(v, (int, float, SInt, SReal)) for v in vals):
            return SReal(self._ite(conds, [REAL.unwrap(self, v) for v in vals]))
        if all(isinstance(v, (str, SStr)) for v in vals):
            return SStr(self._ite(conds, [STR.unwrap(self, v) for v in vals]))
        if any(isinstance(v, SBits) for v in vals):
            b = next(v for v in vals if isinstance(v, SBits))
            n = b.t.size()
            bs = [self.to_bits(v, n) for v in vals]
            if any(x.neg for x in bs):
                raise Unsupported("merging negative bit sets")
            return SBits(self._ite(conds, [x.t for x in bs]), False, all(x.exact for x in bs))
        if all(isinstance(v, tuple) and len(v) == len(v0) for v in vals):
            items = [self.merge_values(conds, [v[i] for v in vals]) for i in range(len(v0))]
            if type(v0) is tuple:
                return tuple(items)
            return tuple.__new__(type(v0), items)
        if all(isinstance(v, MList) for v in vals):
            ty = None
            for v in vals:
                ty = ty or self.rope_type(v)
            if ty is None:
                return v0
            t = self._ite(conds, [self.embed_rope(v, ty) for v in vals])
            return MList(self, [SeqP(t, ty)], cls=v0.cls)
        if all(isinstance(v, SData) and v.ty == v0.ty for v in vals):
            return SData(self._ite(conds, [v.t for v in vals]), v0.ty)
        try:
            if all(not isinstance(v, (Sym, Cell)) and v == v0 for v in vals):
                return v0
        except Unsupported:
            pass
        raise Unsupported(f"cannot merge {vals!r}")

    @staticmethod
    def _ite(conds, terms):
        t = terms[-1]
        for c, x in zip(reversed(conds[:-1]), reversed(terms[:-1])):
            if not x.eq(t):
                t = z3.If(c, x, t)
        return t

    # --------------------------------------------------------------------------------- proving
    def ensure(self, label, cond):
        """A named obligation: cond must follow from the path condition."""
        ob = self.obligations.setdefault(label, Obligation(label))
        if self.replaying():
            return
        ob.count += 1
        goal = self.as_bool_term(cond)
        t0 = time.time()
        status, backend, info = self.prove(goal)
        ob.time += time.time() - t0
        if status == "proved":
            ob.discharged += 1
            ob.backends[backend] = ob.backends.get(backend, 0) + 1
            if not ob.covered:
                ob.covered = self._check(2000) != z3.unsat
        elif status == "refuted":
            ob.covered = True
            ob.refuted.append(info)
            if self.bound:
                raise Confirmed()
        else:
            ob.covered = True
            ob.undecided.append(info)

    def prove(self, goal, want_model=True, strong=True):
        g = z3.simplify(goal)
        if z3.is_true(g):
            return "proved", "simplify", None
        neg = z3.Not(goal)
        r = self._check(self.STAGE1_MS, neg)
        if r == z3.sat and want_model:
            r = self._check_solver(self.PROVE_MS, neg)
        if r == z3.unsat:
            return "proved", "z3", None
        if r != z3.sat and languages.contradiction(self, neg):
            return "proved", "z3 (languages)", None
        if r == z3.sat:
            m = self.checked.model() if want_model else None
            return "refuted", "z3", (self.model_info(m, goal) if want_model else None)
        s = z3.Solver()
        s.add(*self.pc)
        s.add(neg)
        r5 = self.cvc5(s, 3)
        if r5 == "unsat":
            return "proved", "cvc5", None
        if r5 == "sat" and not want_model:
            return "refuted", "cvc5", None
        if not strong:
            return "unknown", "z3+cvc5", None
        s.set("timeout", self.PROVE2_MS)
        self.tick()
        t = time.time()
        r = s.check()
        self.stats["solver_s"] += time.time() - t
        self.stats["queries"] += 1
        if r == z3.unsat:
            return "proved", "z3", None
        if r == z3.sat:
            return "refuted", "z3", (self.model_info(s.model(), goal) if want_model else None)
        if r5 != "sat":
            r5 = self.cvc5(s, self.CVC5_S)
            if r5 == "unsat":
                return "proved", "cvc5", None
        if r5 == "sat":
            return "refuted", "cvc5", {"inputs": {}, "model": "cvc5 answers sat",
                    "goal": str(g)[:1500]}
        return "unknown", "z3+cvc5", {"goal": str(g)[:2000], "reason": s.reason_unknown()}

    def cvc5(self, solver, seconds):
        text = solver.to_smt2()
        if "seq.last_indexof" in text or "seq.map" in text:
            return "unknown"
        text = "(set-logic ALL)\n" + text
        t = time.time()
        try:
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write(text)
            out = subprocess.run([CVC5, "--strings-exp", f"--tlimit={int(seconds * 1000)}", f.name],
                    capture_output=True, text=True, timeout=seconds + 5, check=False).stdout
        except (OSError, subprocess.TimeoutExpired):
            out = ""
        finally:
            try:
                os.unlink(f.name)
            except OSError:
                pass
        self.stats["solver_s"] += time.time() - t
        self.stats["queries"] += 1
        first = out.strip().split("\n")[0] if out.strip() else ""
        return first if first in ("sat", "unsat") else "unknown"

    def model_info(self, m, goal):
        vals = {}
        for name, v in self.inputs.items():
            try:
                vals[name] = self.concretize(v, m)
            except Exception as exc:  # pylint:disable=broad-except
                vals[name] = f"<not concretised: {exc}>"
        txt = str(m)
        return {"inputs": vals, "model": txt[:4000], "goal": str(z3.simplify(goal))[:1500]}

    # ---------------------------------------------------------------------------- concretization
    def concretize(self, v, m, depth=0):
        if depth > 6:
            return None
        if isinstance(v, SInt):
            return m.eval(v.t, True).as_long()
        if isinstance(v, SBits):
            return m.eval(v.t, True).as_long()
        if isinstance(v, SReal):
            return float(m.eval(v.t, True).as_fraction())
        if isinstance(v, SBool):
            return z3.is_true(m.eval(v.t, True))
        if isinstance(v, SStr):
            return zstr(m.eval(v.t, True))
        if isinstance(v, SData):
            out = {}
            t = m.eval(v.t, True)
            out["__id__"] = str(t)
            for a, ty in v.ty.attrs.items():
                if isinstance(ty, Ty) and not isinstance(ty, (OptT, _NoneTy)):
                    out[a] = self.concretize(ty.wrap(self, v.ty.uf(a, ty)(t)), m, depth + 1)
            return out
        if isinstance(v, MList):
            out = []
            for p in v.pieces:
                if isinstance(p, SeqP):
                    out.extend(self.concretize_seq(p, m, depth))
                else:
                    out.append(self.concretize(p, m, depth + 1))
            return out
        if isinstance(v, tuple):
            return [self.concretize(x, m, depth + 1) for x in v]
        if isinstance(v, MDict):
            return {k: self.concretize(x, m, depth + 1) for k, x in v.items.items()}
        if isinstance(v, SObj):
            return {k: self.concretize(x, m, depth + 1) for k, x in v.fields.items()}
        if v is None or isinstance(v, (int, str, bool, float)):
            return v
        return repr(v)

    def concretize_seq(self, p, m, depth):
        t = m.eval(p.t, True)
        if p.ty is CHAR:
            return list(zstr(t))
        out = []
        stack = [t]
        while stack:
            x = stack.pop()
            k = x.decl().kind()
            if k == z3.Z3_OP_SEQ_CONCAT:
                stack.extend(reversed(x.children()))
            elif k == z3.Z3_OP_SEQ_UNIT:
                out.append(self.concretize(p.ty.wrap(self, x.arg(0)), m, depth + 1))
            elif k == z3.Z3_OP_SEQ_EMPTY:
                pass
            else:
                raise Unsupported(f"seq value {x}")
        return out

    # --------------------------------------------------------------------------------- sequences
    def as_bool_term(self, c):
        if isinstance(c, bool):
            return z3.BoolVal(c)
        if isinstance(c, SBool):
            return c.t
        if z3.is_expr(c) and z3.is_bool(c):
            return c
        raise Unsupported(f"not a boolean: {c!r}")

    def norm(self, pieces):
        """Expand segments whose decomposition is known."""
        out = []
        for p in pieces:
            if isinstance(p, SeqP):
                d = self.decomp.get(p.t.get_id())
                if d is not None:
                    out.extend(self.norm(d[1]))
                    continue
                k = p.t.decl().kind()
                if k == z3.Z3_OP_SEQ_EMPTY or (z3.is_string_value(p.t) and zstr(p.t) == ""):
                    continue
                if k == z3.Z3_OP_SEQ_UNIT and p.ty is not CHAR:
                    out.append(p.ty.wrap(self, p.t.arg(0)))
                    continue
                if k == z3.Z3_OP_SEQ_CONCAT:
                    out.extend(self.norm([SeqP(a, p.ty) for a in p.t.children()]))
                    continue
                if z3.is_string_value(p.t):
                    out.extend(zstr(p.t))
                    continue
                out.append(p)
            else:
                out.append(p)
        return out

    def type_of(self, v):
        if isinstance(v, (bool, SBool)):
            return BOOL
        if isinstance(v, (int, SInt)):
            return INT
        if isinstance(v, (float, SReal)):
            return REAL
        if isinstance(v, (str, SStr)):
            return STR
        if v is None:
            return NONE
        if isinstance(v, SBits):
            if v.neg:
                raise Unsupported("negative bit set")
            return Bits(v.t.size(), v.exact)
        if isinstance(v, SData):
            return v.ty
        if isinstance(v, tuple):
            return TupT([self.type_of(x) for x in v], type(v))
        if isinstance(v, MList):
            e = self.rope_type(v)
            if e is None:
                return SeqT(NONE, v.cls)
            return SeqT(e, v.cls)
        raise Unsupported(f"no type for {v!r}")

    def rope_type(self, lst):
        pieces = lst.pieces if isinstance(lst, MList) else lst
        if isinstance(lst, MList) and lst.ty is not None:
            return lst.ty
        ty = None
        for p in pieces:
            t = p.ty if isinstance(p, SeqP) else self.type_of(p)
            if t is CHAR and not isinstance(p, SeqP):
                t = STR
            if ty is None or (isinstance(ty, SeqT) and ty.elem is NONE):
                ty = t
            elif ty != t:
                if isinstance(t, SeqT) and t.elem is NONE:
                    continue
                if {ty.name, t.name} == {"char", "str"}:
                    ty = CHAR
                    continue
                raise Unsupported(f"list of mixed types {ty} and {t}")
        return ty

    def embed_rope(self, lst, ty=None):
        """The z3 sequence term for a list."""
        pieces = lst.pieces if isinstance(lst, MList) else lst
        if isinstance(lst, str) or isinstance(lst, SStr):
            return STR.unwrap(self, lst)
        if not isinstance(pieces, list):
            if isinstance(pieces, tuple):
                pieces = list(pieces)
            else:
                raise Unsupported(f"not a list: {lst!r}")
        pieces = self.norm(pieces)
        if ty is None or ty is NONE:
            ty = self.rope_type(lst)
        if ty is None:
            raise Unsupported("element type of an empty list is unknown")
        terms = []
        for p in pieces:
            if isinstance(p, SeqP):
                if p.ty != ty and not (p.ty.sort() == ty.sort()):
                    raise Unsupported(f"segment of {p.ty} in list of {ty}")
                terms.append(p.t)
            elif ty is CHAR:
                terms.append(STR.unwrap(self, p))
            else:
                terms.append(z3.Unit(ty.unwrap(self, p)))
        if not terms:
            if ty is CHAR:
                return z3.StringVal("")
            return z3.Empty(z3.SeqSort(ty.sort()))
        if len(terms) == 1:
            return terms[0]
        return z3.Concat(*terms)

    def decompose(self, s, rope):
        """Record (and assert) that segment s consists of the pieces of rope."""
        self.keep.append(s.t)
        self.decomp[s.t.get_id()] = (s.t, list(rope))
        self.fact(s.t == self.embed_rope(list(rope), s.ty))
        for t, cb in list(self.apps):
            if t.eq(s.t):
                cb(list(rope))

    def fresh_seq(self, name, ty):
        t = self.fresh_const(name, z3.StringSort() if ty is CHAR else z3.SeqSort(ty.sort()))
        if ty is not CHAR:
            self.seq_types[t.get_id()] = (t, ty)
        return SeqP(t, ty)

    def seg_empty(self, s):
        """Decide whether segment s is empty."""
        if self.branch(z3.Length(s.t) == 0):
            self.decompose(s, [])
            return True
        return False

    def rope_first(self, pieces):
        """Return (first element, remaining pieces) or None."""
        while True:
            pieces = self.norm(pieces)
            if not pieces:
                return None
            p = pieces[0]
            if not isinstance(p, SeqP):
                return p, pieces[1:]
            if self.seg_empty(p):
                continue
            x = p.ty.fresh(self, "hd")
            r = self.fresh_seq("tl", p.ty)
            self.decompose(p, [x, r])

    def rope_last(self, pieces):
        while True:
            pieces = self.norm(pieces)
            if not pieces:
                return None
            p = pieces[-1]
            if not isinstance(p, SeqP):
                return p, pieces[:-1]
            if self.seg_empty(p):
                continue
            x = p.ty.fresh(self, "la")
            r = self.fresh_seq("in", p.ty)
            self.decompose(p, [r, x])

    def rope_len(self, pieces):
        n = 0
        terms = []
        for p in self.norm(pieces):
            if isinstance(p, SeqP):
                terms.append(z3.Length(p.t))
            else:
                n += 1
        if not terms:
            return n
        t = z3.Sum(*terms) if len(terms) > 1 else terms[0]
        return SInt(t + n if n else t)

    def rope_split(self, pieces, k):
        """Split at position k (0 <= k, clamped to the length)."""
        left = []
        rest = self.norm(pieces)
        if isinstance(k, SInt):
            k = z3.simplify(k.t)
            if z3.is_int_value(k):
                k = k.as_long()
        while rest:
            if isinstance(k, int):
                if k <= 0:
                    return left, rest
            elif self.branch(k <= 0):
                return left, rest
            p = rest[0]
            if not isinstance(p, SeqP):
                left.append(p)
                rest = rest[1:]
                k = k - 1
                continue
            if isinstance(k, int) and k <= 2:
                x = self.rope_first(rest)
                if x is None:
                    return left, []
                left.append(x[0])
                rest = self.norm(x[1])
                k -= 1
                continue
            n = z3.Length(p.t)
            if self.branch(n <= k):
                left.append(p)
                rest = rest[1:]
                k = k - n
                continue
            a = self.fresh_seq("pre", p.ty)
            b = self.fresh_seq("suf", p.ty)
            self.decompose(p, [a, b])
            self.fact(z3.Length(a.t) == k)
            return left + [a], [b] + rest[1:]
        return left, []

    def expanded(self, pieces):
        """In bounded mode: the elements of a list one by one."""
        pieces = self.norm(list(pieces))
        if not self.bound or self.isolated:
            return pieces
        while True:
            seg = next((p for p in pieces if isinstance(p, SeqP)), None)
            if seg is None:
                return pieces
            n = self.choice(self.bound + 1)
            self.decompose(seg, [seg.ty.fresh(self, "el") for _ in range(n)])
            if not self.replaying() and self._check(self.QUICK_MS) == z3.unsat:
                raise PathEnd()
            pieces = self.norm(pieces)

    # -------------------------------------------------------------------------------------- folds
    HOMS = {
        "any": (lambda: z3.BoolVal(False), lambda a, b: z3.Or(a, b)),
        "sum": (lambda: z3.IntVal(0), lambda a, b: a + b),
    }

    def generic(self, ty):
        """The placeholder element for folds over segments of type ty."""
        d = self.isolated
        if isinstance(ty, OptT):
            raise Unsupported("fold over optional elements")
        c = z3.Const(f"gen{d}", ty.sort() if ty is not CHAR else z3.StringSort())
        return c, ty.wrap(self, c)

    def abstract(self, term, gen):
        """Return (key, captured constants) of a term with a placeholder."""
        captured = []
        seen = set()
        stack = [term]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if not x.eq(gen) and not x.decl().name().startswith("gen"):
                    captured.append(x)
            else:
                stack.extend(reversed(x.children()))
        captured.sort(key=lambda c: c.decl().name())
        subs = [(c, z3.Const(f"cap{i}", c.sort())) for i, c in enumerate(captured)]
        body = z3.substitute(term, *subs) if subs else term
        return self.same_body(self.canon(body), body), captured

    def same_body(self, key, body):
        """The key of a body that is the same function (written differently)."""
        if key in self.body_keys:
            return self.body_keys[key]
        sig = (str(body.sort()), tuple(sorted(f"{c}:{c.sort()}" for c in consts_of(body))))
        group = self.bodies.setdefault(sig, [])
        self.body_keys[key] = key
        for k, b in group:
            s = z3.Solver()
            s.set("timeout", 150)
            s.add(b != body)
            if s.check() == z3.unsat:
                self.body_keys[key] = k
                return k
        if len(group) < 12:
            group.append((key, body))
        return key

    COMMUTATIVE = {z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_EQ,
            z3.Z3_OP_DISTINCT, z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BADD, z3.Z3_OP_RE_UNION}

    def canon(self, term):
        """Digest of a term, independent of the order of commutative arguments."""
        memo = {}
        stack = [term]
        while stack:
            x = stack[-1]
            i = x.get_id()
            if i in memo:
                stack.pop()
                continue
            ch = x.children()
            todo = [y for y in ch if y.get_id() not in memo]
            if todo:
                stack.extend(todo)
                continue
            if not ch or not z3.is_app(x):
                text = x.sexpr()
            else:
                hs = [memo[y.get_id()] for y in ch]
                if x.decl().kind() in self.COMMUTATIVE:
                    hs.sort()
                text = f"({x.decl().sexpr()} {' '.join(hs)})"
            memo[i] = hashlib.sha256(text.encode()).hexdigest()
            stack.pop()
        return memo[term.get_id()]

    def uf(self, key, domain, rng):
        k = (key, tuple(str(d) for d in domain), str(rng))
        if k not in self.ufs:
            self.ufs[k] = z3.Function(f"{key[0]}#{len(self.ufs)}", *domain, rng)
        return self.ufs[k]

    def hom(self, kind, pieces, fn):
        """Fold a list: kind 'any' or 'sum'; fn maps an element value to a value."""
        unit, op = self.HOMS[kind]
        ty = BOOL if kind == "any" else INT
        acc = None
        for p in self.expanded(pieces):
            if isinstance(p, SeqP):
                if p.t.get_id() in self.perms:
                    # both folds are commutative: any permutation gives the same result
                    t = self.hom(kind, self.perms[p.t.get_id()][1], fn)

                    def on_perm(rope, t=t):
                        self.fact(t == self.hom(kind, rope, fn))
                    self.apps.append((p.t, on_perm))
                else:
                    t = self.hom_seg(kind, p, fn)
            else:
                v = fn(p)
                t = self.truth_term(v) if kind == "any" else ty.unwrap(self, v)
            acc = t if acc is None else op(acc, t)
        return acc if acc is not None else unit()

    def hom_seg(self, kind, s, fn):
        origin = self.concat_of.get(s.t.get_id())
        if origin is not None:
            # the elements are themselves made from the elements of another list
            s0, fn0, _ = origin

            def inner(y):
                t = self.hom(kind, fn0(y), fn)
                return SBool(t) if kind == "any" else SInt(t)
            return self.hom(kind, [s0], inner)
        c, x = self.generic(s.ty)

        def body():
            v = fn(x)
            if kind == "any":
                return SBool(self.truth_term(v))
            return SInt(INT.unwrap(self, v))

        v = self.merged(body, isolated=True)
        t = z3.simplify(BOOL.unwrap(self, v) if kind == "any" else INT.unwrap(self, v))
        if kind == "any" and z3.is_false(t):
            return t
        if kind == "any" and z3.is_true(t):
            return z3.Length(s.t) > 0
        if kind == "sum" and z3.is_int_value(t) and t.as_long() == 0:
            return t
        key, captured = self.abstract(t, c)
        f = self.uf((kind, key), [s.t.sort()] + [a.sort() for a in captured], t.sort())
        app = f(s.t, *captured)

        def on_decompose(rope, app=app):
            self.fact(app == self.hom(kind, rope, fn))
        self.apps.append((s.t, on_decompose))
        if not self.isolated:
            self.fact(z3.Implies(z3.Length(s.t) == 0, app == self.HOMS[kind][0]()))
            self.compare_folds(kind, s, app, t, c)
        return app

    def compare_folds(self, kind, s, app, t, c):
        """Folds of the same list have the same result, unless there is an element for which their
           bodies differ."""
        if any(a.eq(app) for _, _, a, _ in self.homs):
            return
        others = [(a, u) for k, r, a, u in self.homs if k == kind and r.eq(s.t)]
        self.homs.append((kind, s.t, app, t))
        for a, u in others[-4:]:
            w = self.fresh_const("differs", c.sort())
            self.fact(z3.Or(app == a, z3.substitute(t, (c, w)) != z3.substitute(u, (c, w))))

    def hom_concat(self, pieces, fn):
        """Concatenate fn(x) (a list of pieces) over all elements."""
        out = []
        for p in self.expanded(pieces):
            if isinstance(p, SeqP):
                out.extend(self.concat_seg(p, fn))
            else:
                out.extend(fn(p))
        return out

    def concat_seg(self, s, fn):
        c, x = self.generic(s.ty)
        holder = {}

        def body():
            r = fn(x)
            return MList(self, r)

        v = self.merged(body, isolated=True)
        ty = self.rope_type(v)
        if ty is None:
            return []
        if len(v.pieces) == 1 and isinstance(v.pieces[0], SData) and v.pieces[0].t.eq(c):
            return [s]
        if len(v.pieces) == 1 and isinstance(v.pieces[0], (SStr, SInt)) and v.pieces[0].t.eq(c):
            return [s]
        t = z3.simplify(self.embed_rope(v, ty))
        key, captured = self.abstract(t, c)
        f = self.uf(("concat", key), [s.t.sort()] + [a.sort() for a in captured], t.sort())
        r = SeqP(f(s.t, *captured), ty)
        self.keep.append(r.t)
        self.concat_of[r.t.get_id()] = (s, fn, r.t)
        if t.decl().kind() == z3.Z3_OP_SEQ_UNIT and not self.isolated:
            self.fact(z3.Length(r.t) == z3.Length(s.t))

        def on_decompose(rope, r=r):
            if r.t.get_id() not in self.decomp:
                self.decompose(r, self.hom_concat(rope, fn))
        self.apps.append((s.t, on_decompose))
        return [r]

    def foldl(self, step, init, pieces):
        """Left fold with an uninterpreted summary for segments of unknown length."""
        acc = init
        for p in self.expanded(pieces):
            if isinstance(p, SeqP):
                acc = self.foldl_seg(step, acc, p)
            else:
                acc = self.merged(lambda: self.call(step, [acc, p], {}))
        return acc

    def foldl_seg(self, step, acc, s):
        sty = self.fold_state_type(step, acc)
        try:
            sty.sort()
        except NotImplementedError:
            raise Unsupported(f"fold from {acc!r}") from None
        if self.isolated:
            raise Unsupported("fold of a segment in a generic element context")
        saved_iso = self.isolated
        c = z3.Const("genf", s.ty.sort())
        a = z3.Const("genacc", sty.sort())
        xv, av = s.ty.wrap(self, c), sty.wrap(self, a)
        self.folding = getattr(self, "folding", 0)
        body = self.merged(lambda: self.call(step, [av, xv], {}), isolated=True)
        t = z3.simplify(sty.unwrap(self, body))
        captured = []
        key, captured = self.abstract(t, c)
        f = self.uf(("foldl", key), [a.sort(), s.t.sort()] + [x.sort() for x in captured],
                sty.sort())
        a0 = sty.unwrap(self, acc)
        app = f(a0, s.t, *captured)
        self.keep.append(app)
        seen = self.fold_apps.setdefault(app.get_id(), False)
        if not seen:
            self.fold_apps[app.get_id()] = True

            def on_decompose(rope, app=app):
                self.fact(app == sty.unwrap(self, self.foldl(step, sty.wrap(self, a0), rope)))
            self.apps.append((s.t, on_decompose))
            for fn, pred in self.fold_lemmas:
                if fn is step:
                    self.fact(z3.Implies(self.as_bool_term(self.spec(pred, acc)),
                        self.as_bool_term(self.spec(pred, sty.wrap(self, app)))))
        return sty.wrap(self, app)

    def fold_lemma(self, label, step, pred, acc, x):
        """Obligation: pred(acc) is preserved by step for any acc and x; afterwards it is used
           for every fold of step."""
        self.ensure(label, self.mkbool(z3.Implies(self.as_bool_term(self.spec(pred, acc)),
            self.as_bool_term(self.spec(pred, self.spec(step, acc, x))))))
        self.fold_lemmas.append((step, pred))

    def fold_state_type(self, step, acc):
        ty = self.type_of(acc)
        return ty

    # ------------------------------------------------------------------------------------- bits
    def to_bits(self, v, n):
        if isinstance(v, SBits):
            if v.t.size() != n:
                raise Unsupported("bit widths differ")
            return v
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            if v >= 0:
                return SBits(z3.BitVecVal(v & (2 ** n - 1), n), False, v < 2 ** n)
            return SBits(z3.BitVecVal(v & (2 ** n - 1), n), True, ~v < 2 ** n)
        if isinstance(v, SInt):
            return SBits(z3.Int2BV(v.t, n), False, False)
        raise Unsupported(f"bits of {v!r}")

    def truth_term(self, v):
        raise NotImplementedError


def consts_of(term):
    """The uninterpreted constants of a term."""
    out, seen, todo = [], set(), [term]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo.extend(x.children())
    return out


def zstr(t):
    """Python string of a z3 string value."""
    s = t.as_string()
    out = []
    i = 0
    while i < len(s):
        if s.startswith("\\u{", i):
            j = s.index("}", i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


from .values import _None as _NoneTy  # noqa
