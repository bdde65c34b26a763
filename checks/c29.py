"""C29 progress reporting never changes a result"""
import contextlib
import importlib
import inspect
import io
import types
from engine.harness import run_concrete, AssumeFailed
from .common import *

BOUNDS = ("every public function that can report its progress, with reporting switched on, in the smallest two instances of each harness of the "
          "properties of operators, Hamiltonians, sectors, symmetries, thermodynamics, dynamics, correlations, response, diagonalisation and clusters "
          "(thorough: all instances of these), each with its own symbolic inputs and bounds")
ASSUMPTIONS = ["what is printed is not judged, only that results are those of the corresponding property"]

MODULES = ("ed_base", "ed_fermions", "ed_spins", "ed_symmetry", "ed_nlce")
USED = {"c01": ("sum_op", "sum_op_q"), "c02": ("hamiltonian", "twisted"), "c03": ("hamiltonian", "labels"), "c04": ("number_sector", "projs_given", "projs_all", "projected_fermion", "projected_spin"),
        "c05": ("fermion_modes", "spin_sites", "geometric"), "c08": ("zn", "zn_haml", "transl2d", "dihedral"), "c13": ("average", "average_many", "average_zero", "elems"),
        "c14": ("pipeline", "number_sectors"), "c15": ("expvals", "norms", "overlaps", "subspace"), "c16": ("evolve", "evolve_time", "scalar_time"), "c17": ("thermal", "thermal_sites"),
        "c18": ("retarded", "ordered", "conductivity", "integral"), "c19": ("full", "sparse", "model_diag"), "c20": ("lattice_subclusters", "reduced")}


def functions(ctx):
    for name in MODULES:
        m = ctx.mod(name)
        for o in list(vars(m).values()):
            for f in (list(vars(o).values()) if isinstance(o, type) else [o]):
                f = getattr(f, "__func__", f)
                if isinstance(f, types.FunctionType):
                    yield f


@contextlib.contextmanager
def switched_on(ctx):
    """every parameter print_* = False defaults to True"""
    old = []
    try:
        for f in functions(ctx):
            d = f.__defaults__
            if not d:
                continue
            names = f.__code__.co_varnames[:f.__code__.co_argcount][-len(d):]
            new = tuple(True if n.startswith("print_") and v is False else v for n, v in zip(names, d))
            if new != d:
                old.append((f, d))
                f.__defaults__ = new
        yield len(old)
    finally:
        for f, d in old:
            f.__defaults__ = d


def fails_anyway(ctx, fn, case):
    """the same input fails without reporting too: not a matter of this property"""
    return run_concrete(fn, case, dict(ctx.used))[0] == "fail"


def reported(ctx, check, name, case):
    fn = getattr(importlib.import_module("checks." + check), name)
    try:
        with contextlib.redirect_stdout(io.StringIO()), switched_on(ctx) as n:
            ctx.true(n > 0, "functions with reporting found")
            fn(ctx, **case)
    except AssumeFailed:
        raise
    except Exception:
        if not ctx.sym and fails_anyway(ctx, fn, case):
            return
        raise
    if not ctx.sym and ctx.failures and fails_anyway(ctx, fn, case):
        ctx.failures.clear()


def tasks(tier):
    T = []
    for c, names in USED.items():
        count = {}
        m = importlib.import_module("checks." + c)
        for t in m.tasks("quick"):
            n = t[0].__name__
            count[n] = count.get(n, 0) + 1
            if n in names and (count[n] <= 2 or tier == "thorough"):
                T.append((reported, dict(check=c, name=n, case=t[1]), t[2] if len(t) > 2 else 200))
    return T
