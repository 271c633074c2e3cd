"""Shared reporting: verdict lines, replay files, evidence, known findings."""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def findings():
    """{finding id: (property, what)} of /verif/known_findings.txt."""
    out = {}
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith("known: "):
                p, fid, what = line[7:].split(" ", 2)
                out[fid.split("=", 1)[1]] = (p.split("=", 1)[1], what)
    return out


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.violations = []
        self.known = {}
        self.notes = []
        self.inconclusive = []
        self.spurious = []
        self.samples = []
        self.functions = []
        self.bounds = []
        self.assumptions = []
        self.outside = []
        self.extra = {}
        self.stats = dict(paths=0, queries=0, obligations=0, discharged=0, reached=0, solver_s=0.0)
        self.validated = 0

    def add_stats(self, d):
        for k, v in d.items():
            if k in self.stats:
                self.stats[k] += v

    def violation(self, what, replay=None):
        self.violations.append((what, replay))

    def finding(self, fid, what):
        """A failing input that belongs to finding `fid`: suppressed only if the
        committed file lists it."""
        if fid in findings():
            self.known.setdefault(fid, " ".join(what.split())[:300])
        else:
            self.violation(f"[{fid}] {what}")

    def finish(self, explanation):
        e = os.path.join(VERIF, "evidence")
        os.makedirs(e, exist_ok=True)
        cov = dict(
            explanation=explanation,
            functions_encoded=sorted(set(self.functions)),
            functions_encoded_count=len(set(self.functions)),
            bounds=self.bounds,
            outside_the_bounds=self.outside,
            paths=self.stats["paths"],
            solver_queries=self.stats["queries"],
            obligations=self.stats["obligations"],
            discharged=self.stats["discharged"],
            assertions_reached=self.stats["reached"],
            solver_s=round(self.stats["solver_s"], 2),
            inconclusive=self.inconclusive,
            counterexamples_not_confirmed_by_replay=self.spurious[:40],
            known_findings_seen=sorted(self.known),
            samples=self.samples[:12],
        )
        if self.validated:
            cov["specification_cases_validated_on_pytorch"] = self.validated
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="other",
                  coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(e, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for fid, what in sorted(self.known.items()):
            print(f"KNOWN-FINDING: property={self.prop} {fid}: {what[:400]}")
        for w in self.inconclusive[:20]:
            print(f"INCONCLUSIVE: {w}")
        for w in self.spurious[:10]:
            print(f"UNCONFIRMED (not a violation): {w}")
        print(f"{self.prop} [{self.tier}] functions={len(set(self.functions))} paths={self.stats['paths']} "
              f"obligations={self.stats['obligations']} discharged={self.stats['discharged']} "
              f"queries={self.stats['queries']} solver={self.stats['solver_s']:.1f}s "
              f"wall={time.time() - self.t0:.1f}s violations={len(self.violations)}")
        if self.violations:
            d = os.path.join(e, "replay")
            os.makedirs(d, exist_ok=True)
            for i, (what, rp) in enumerate(self.violations[:20]):
                path = os.path.join(d, f"{self.prop}-{i}.json")
                with open(path, "w") as f:
                    json.dump(dict(property=self.prop, what=what, replay=rp), f, indent=1, default=str)
                print("  " + str(what)[:900])
                print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        return 0


def _worker(fn, conn):
    while True:
        try:
            x = conn.recv()
        except EOFError:
            os._exit(0)
        try:
            conn.send(("ok", fn(x)))
        except BaseException as e:  # a worker never dies silently
            conn.send(("err", f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-1200:]))


def parallel(fn, items, deadline=700.0, procs=None, item_timeout=None):
    """Yields ("ok", item, result) | ("err", item, text) | ("late", item, None).
    A worker that crashes or overruns is replaced; its item is an error."""
    from multiprocessing.connection import wait

    items = list(items)
    if not items:
        return
    sys.stdout.flush()
    procs = procs or min(8, os.cpu_count() or 1, len(items))
    end = time.time() + deadline
    ctx = mp.get_context("fork")
    todo = list(reversed(items))
    busy = {}

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(fn, b), daemon=True)
        p.start()
        b.close()
        return p, a

    idle = [spawn() for _ in range(procs)]
    try:
        while todo or busy:
            while todo and idle:
                p, c = idle.pop()
                x = todo.pop()
                c.send(x)
                busy[c] = (p, x, time.time())
            now = time.time()
            if now > end:
                break
            for c in wait(list(busy), timeout=min(5, end - now)):
                p, x, t = busy.pop(c)
                try:
                    st, r = c.recv()
                    idle.append((p, c))
                except (EOFError, OSError):
                    p.join(1)
                    st, r = "err", f"worker crashed (exit code {p.exitcode})"
                    c.close()
                    idle.append(spawn())
                yield st, x, r
            if item_timeout:
                for c, (p, x, t) in list(busy.items()):
                    if time.time() - t > item_timeout:
                        p.kill()
                        p.join(1)
                        c.close()
                        del busy[c]
                        idle.append(spawn())
                        yield "err", x, f"overran {item_timeout}s"
    finally:
        for p, c in idle + [(v[0], k) for k, v in busy.items()]:
            p.kill()
    for p, x, t in busy.values():
        yield "late", x, None
    for x in todo:
        yield "late", x, None


def main(run):
    """Entry of a check: run(report) fills it; returns the explanation."""
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    r = Report(prop, tier, seed)
    expl = run(r)
    sys.stdout.flush()
    rc = r.finish(expl)
    sys.stdout.flush()
    os._exit(rc)
