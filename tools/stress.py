"""run the harnesses on the real code at random points of their whole ranges: the float behaviour of the unchanged code
must stay within the tolerance of every obligation, or a witness chosen by the solver might raise a false alarm"""
import sys, os, random, math, importlib, signal
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
sys.dont_write_bytecode = True
from engine import harness as H
from concurrent.futures import ProcessPoolExecutor

Base = H.ConcCtx


class Wide(Base):
    def real(self, name, lo=-H.DEF, hi=H.DEF, nonzero=False, pos=False):
        if name in self.values:
            return Base.real(self, name, lo, hi, nonzero, pos)
        r = self.rng.random()
        if r < 0.25:
            v = self.rng.choice([lo, hi])
        elif r < 0.5 and hi > 0:
            a = max(lo, 1e-3 * hi) if lo > 0 else 1e-3 * hi
            v = math.exp(self.rng.uniform(math.log(a), math.log(hi)))
            if lo < 0 and self.rng.random() < 0.5 and -v >= lo:
                v = -v
        elif r < 0.6 and lo <= 0 <= hi and not nonzero:
            v = 0.0
        else:
            v = self.rng.uniform(lo, hi)
        self.values[name] = v
        return Base.real(self, name, lo, hi, nonzero, pos)

H.ConcCtx = Wide

def one(a):
    cid, i, n = a
    m = importlib.import_module("checks." + cid.lower())
    t = m.tasks("quick")[i]
    out = []
    ok = 0
    signal.signal(signal.SIGALRM, H._alarm)
    signal.setitimer(signal.ITIMER_REAL, 60)
    try:
        for s in range(n):
            st, f, used = H.run_concrete(t[0], t[1], {}, seed=1000 + s)
            ok += st == "ok"
            if st == "fail":
                out.append((t[0].__name__, t[1], f[0].label, f[0].detail, {k: v for k, v in list(used.items())[:8]}))
    except BaseException as e:
        pass
    signal.setitimer(signal.ITIMER_REAL, 0)
    return t[0].__name__, t[1], ok, out

if __name__ == "__main__":
    n = int(sys.argv[1])
    ids = sys.argv[2:] or ["C%02d" % i for i in range(1, 27)]
    with ProcessPoolExecutor(6) as ex:
        for cid in ids:
            k = len(importlib.import_module("checks." + cid.lower()).tasks("quick"))
            tot = bad = 0
            shown = set()
            for name, case, ok, out in ex.map(one, [(cid, i, n) for i in range(k)]):
                tot += ok
                bad += len(out)
                if out and name not in shown:
                    shown.add(name)
                    print("  ", str(out[0])[:500], flush=True)
            print(cid, "ok", tot, "fail", bad, flush=True)
