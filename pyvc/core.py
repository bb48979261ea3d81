"""Path exploration and proof obligations.

A contract is a Python function `body(ctx)` that builds an arbitrary (symbolic) pre-state, calls
the real (instrumented) code and states postconditions with `ctx.prove`.  The explorer runs the
body once per feasible path (depth first, by re-execution under a recorded list of decisions), so
every obligation is a closed formula  path-condition => postcondition  over unbounded integers,
reals, strings and uninterpreted sorts, discharged by z3.  There is no bound on any input; loops
over symbolic sequences are summarised by a generic element (values.py), other loops are cut at
invariants stated by the contract."""
import sys, time, os
Z3PATH = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if Z3PATH not in sys.path:
    sys.path.append(Z3PATH)
import z3


class EngineStop(BaseException):
    """Control exceptions of the engine; never caught by `except Exception` in the code."""

class Unsupported(EngineStop):
    """The code does something outside the modelled subset: undecided, never a violation."""

class PathEnd(EngineStop):
    """Ends the current path (infeasible or cut)."""


CUR = None          # current context


def ctx():
    if CUR is None:
        raise Unsupported('symbolic value used outside a contract')
    return CUR


class Obligation:
    __slots__ = ('name', 'status', 'detail', 'smt', 'seconds', 'trivial', 'contract')
    def __init__(self, name, status, detail='', smt=None, seconds=0.0, trivial=False):
        self.name, self.status, self.detail = name, status, detail
        self.smt, self.seconds, self.trivial = smt, seconds, trivial


class Ctx:
    """State of one path."""

    def __init__(self, prefix, report, keep_smt=False):
        self.prefix, self.report, self.keep_smt = prefix, report, keep_smt
        self.taken = []            # decisions so far
        self.labels = []           # readable decision labels
        self.pending = []          # alternative prefixes discovered on this path
        self.solver = z3.Solver()
        self.solver.set('timeout', report.timeout_ms)
        self.counter = {}
        self.splits = {}           # sequence variable name -> list of segments
        self.capture = None        # effect capture (generic loop bodies)
        self.env = {}              # free storage for models / ghosts
        self.objs = {}
        self.now_last = None
        self.depth = 0

    # ---- names -------------------------------------------------------------------------------
    def fresh_name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return base if n == 0 else f'{base}#{n}'

    # ---- assumptions and decisions -----------------------------------------------------------
    def assume(self, cond):
        cond = as_z3_bool(cond)
        if cond is True:
            return
        if cond is False:
            raise PathEnd('assumed false')
        self.solver.add(cond)

    def feasible(self, cond=None):
        if cond is not None and z3.is_true(cond):
            return True
        if cond is not None and z3.is_false(cond):
            return False
        t0 = time.time()
        r = self.solver.check() if cond is None else self.solver.check(cond)
        self.report.solver_s += time.time() - t0
        self.report.queries += 1
        return r != z3.unsat

    def choose(self, options, label=''):
        """Nondeterministic choice. options: list of (name, condition|None).  Returns the index."""
        i = len(self.taken)
        if i < len(self.prefix):
            k = self.prefix[i]
        else:
            if i > self.report.max_decisions:
                raise Unsupported(f'more than {self.report.max_decisions} decisions on a path ({label})')
            feas = [j for j, (_, c) in enumerate(options) if c is None or self.feasible(as_z3_bool2(c))]
            if not feas:
                raise PathEnd('no feasible option')
            k = feas[0]
            for j in reversed(feas[1:]):
                self.pending.append(self.taken + [j])
        self.taken.append(k)
        name, cond = options[k]
        if label or name:
            self.labels.append(f'{label}{"=" if label else ""}{name}')
        if cond is not None:
            self.solver.add(as_z3_bool2(cond))
        return k

    def branch(self, cond, label=''):
        cond = as_z3_bool(cond)
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self.choose([('T', cond), ('F', z3.Not(cond))], label) == 0

    # ---- obligations -------------------------------------------------------------------------
    def prove(self, name, cond, detail=''):
        """Record and try to discharge an obligation; continues assuming it."""
        rep = self.report
        e = sys.exc_info()[1]
        if isinstance(e, Unsupported):       # clean-up code of a path that is undecided already
            raise e
        cond = as_z3_bool(cond)
        if isinstance(cond, bool) or z3.is_true(cond) or z3.is_false(cond):
            ok = cond is True or (not isinstance(cond, bool) and z3.is_true(cond))
            if ok:
                rep.add(Obligation(name, 'proved', trivial=True))
                return True
            # concretely false: a violation iff the path is feasible
            if not self.feasible():
                rep.add(Obligation(name, 'proved'))
                raise PathEnd('infeasible')
            # infeasible-by-timeout is not evidence of a violation
            r = self.solver.check()
            st = 'refuted' if r == z3.sat else 'unknown'
            rep.add(Obligation(name, st, self.explain(self.solver.model() if st == 'refuted' else None, detail)))
            raise PathEnd('violated')
        smt = None
        t0 = time.time()
        self.solver.push()
        self.solver.add(z3.Not(cond))
        r = self.solver.check()
        dt = time.time() - t0
        rep.solver_s += dt
        rep.queries += 1
        if self.keep_smt:
            smt = self.solver.to_smt2()
        model = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        if r == z3.unsat:
            rep.add(Obligation(name, 'proved', smt=smt, seconds=dt))
        elif r == z3.sat:
            rep.add(Obligation(name, 'refuted', self.explain(model, detail), smt=smt, seconds=dt))
        else:
            rep.add(Obligation(name, 'unknown', detail, smt=smt, seconds=dt))
        self.solver.add(cond)
        return r == z3.unsat

    def aux(self, name, cond):
        """Auxiliary invariant (about private state, not part of the property): proved, or the
        contract is undecided (never a violation)."""
        cond = as_z3_bool2(cond)
        t0 = time.time()
        self.solver.push()
        self.solver.add(z3.Not(cond))
        r = self.solver.check()
        smt = self.solver.to_smt2() if self.keep_smt and r == z3.unsat else None
        self.solver.pop()
        self.report.solver_s += time.time() - t0
        self.report.queries += 1
        if r != z3.unsat:
            raise Unsupported(f'auxiliary invariant not established: {name}')
        self.report.add(Obligation(name, 'proved', smt=smt, seconds=time.time() - t0))
        self.solver.add(cond)

    def fail(self, name, detail=''):
        self.prove(name, False, detail)

    def cover(self, name):
        """Reachability marker: must be reached on at least one satisfiable path."""
        if name not in self.report.covered:
            if self.solver.check() == z3.sat:
                self.report.covered.add(name)

    def explain(self, model, detail):
        out = {'detail': str(detail)[:2000], 'path': list(self.labels)}
        if model is not None:
            out['model'] = {str(d): str(model[d]) for d in model.decls()}
        return out


def as_z3_bool(c):
    if isinstance(c, bool):
        return c
    if hasattr(c, 'zbool'):
        return c.zbool()
    if isinstance(c, z3.BoolRef):
        return c
    if isinstance(c, z3.ExprRef):
        raise Unsupported(f'not a boolean: {c}')
    raise Unsupported(f'not a boolean: {type(c)}')


def as_z3_bool2(c):
    c = as_z3_bool(c)
    return z3.BoolVal(c) if isinstance(c, bool) else c


class Report:
    """Results of all contracts of one check."""

    def __init__(self, timeout_ms=4000, max_paths=4000, max_decisions=200, keep_smt=False, budget_s=300):
        self.timeout_ms, self.max_paths, self.max_decisions = timeout_ms, max_paths, max_decisions
        self.keep_smt = keep_smt
        self.obligations = []
        self.solver_s = 0.0
        self.queries = 0
        self.paths = 0
        self.covered = set()
        self.expected_cover = set()
        self.unsupported = []      # (contract, reason)
        self.functions = {}        # qualified name -> file:line of real functions executed
        self.contracts = []        # (name, obligations, paths)
        self.deadline = time.time() + budget_s

    current = ''
    def add(self, ob):
        ob.contract = self.current
        self.obligations.append(ob)

    # ---- running -----------------------------------------------------------------------------
    def run(self, name, body, covers=(), setup=None):
        """Explore all paths of `body`."""
        global CUR
        n0 = len(self.obligations)
        self.current = name
        paths = 0
        bad = None
        stack = [[]]
        self.expected_cover.update(covers)
        while stack:
            prefix = stack.pop()
            if paths >= self.max_paths or time.time() > self.deadline:
                bad = f'path or time budget exhausted after {paths} paths'
                break
            c = Ctx(prefix, self, self.keep_smt)
            CUR = c
            try:
                if setup:
                    setup(c)
                body(c)
            except PathEnd:
                pass
            except Unsupported as e:
                if c.solver.check() != z3.unsat:
                    bad = f'{e} [path: {" ".join(c.labels[-8:])}]'
            except RecursionError as e:
                bad = f'recursion: {e}'
            except Exception as e:       # crash of the contract or of the code under contract
                if c.solver.check() != z3.unsat:
                    import traceback
                    tb = traceback.extract_tb(e.__traceback__)
                    bad = f'{type(e).__name__}: {e} at {[(os.path.basename(f.filename), f.lineno) for f in tb[-4:]]} [path: {" ".join(c.labels[-8:])}]'
            finally:
                CUR = None
            paths += 1
            stack.extend(c.pending)
            if bad:
                break
            if sum(o.status == 'refuted' for o in self.obligations[n0:]) >= 12:
                break                    # decided: further paths cannot discharge what is refuted
        self.paths += paths
        if bad:
            self.unsupported.append((name, bad))
        got = len(self.obligations) - n0
        if got == 0 and not bad:
            self.unsupported.append((name, 'no obligation generated'))
        self.contracts.append((name, got, paths, bad))

    # ---- summary -----------------------------------------------------------------------------
    @property
    def refuted(self):
        return [o for o in self.obligations if o.status == 'refuted']

    @property
    def unknown(self):
        return [o for o in self.obligations if o.status == 'unknown']

    @property
    def discharged(self):
        return [o for o in self.obligations if o.status == 'proved']

    @property
    def missing_cover(self):
        return sorted(self.expected_cover - self.covered)

    @property
    def complete(self):
        return not self.refuted and not self.unknown and not self.unsupported and not self.missing_cover and self.obligations
