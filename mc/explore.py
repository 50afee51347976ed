"""Exhaustive exploration: environment choices, distribution over processes, replay artefacts, evidence."""

import ast
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback
from collections import Counter

VERIF = "/verif"


class Violation(Exception):
    def __init__(self, msg, known=None, **details):
        super().__init__(msg)
        self.msg, self.known, self.details = msg, known, details


class Chooser:
    """Enumerates the answers at choice points by backtracking (depth first, first alternative first)."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.points = []

    def pick(self, n):
        i = len(self.points)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise RuntimeError("replay of a choice prefix diverged")
        else:
            c = 0
        self.points.append((n, c))
        return c

    def next(self):
        pts = list(self.points)
        while pts:
            n, c = pts.pop()
            if c + 1 < n:
                return [x for _, x in pts] + [c + 1]
        return None


def all_choices(fn):
    """Calls fn(chooser) once per complete sequence of answers."""
    prefix = []
    n = 0
    while prefix is not None:
        ch = Chooser(prefix)
        fn(ch)
        n += 1
        prefix = ch.next()
    return n


class Stats:
    """What one worker explored."""

    def __init__(self):
        self.c = Counter()
        self.outcomes = Counter()
        self.samples = []
        self.known = {}
        self.states = 0
        self._seen = set()

    def state(self, key):
        self._seen.add(hash(key))

    def case_done(self):
        self.states += len(self._seen)
        self._seen = set()

    def sample(self, s, n=2):
        if len(self.samples) < n:
            self.samples.append(s)

    def export(self):
        return (dict(self.c), dict(self.outcomes), self.samples, self.known, self.states)


def text(x):
    """x as text, which can be sent between processes whatever it is and however it is broken."""
    try:
        return str(x)
    except Exception as ex:
        return "<%s without text: %r>" % (type(x).__name__, type(ex))


def _worker(mod, tier, w, nw, conn, progress, stop):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(3000)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    st = Stats()
    try:
        chunk = getattr(mod, "CHUNK", 16)
        for i, case in enumerate(mod.cases(tier)):
            if (i // chunk) % nw != w:
                continue
            if stop.value:
                break
            progress[2 * w] = i
            progress[2 * w + 1] = int(time.monotonic())
            try:
                mod.check(case, st)
            except Violation as v:
                conn.send(("violation", i, repr(case), text(v.msg), {k: text(d) for k, d in v.details.items()}))
                stop.value = 1
                break
            except MemoryError:
                conn.send(("violation", i, repr(case), "out of memory", {}))
                stop.value = 1
                break
            except BaseException as ex:
                tb = traceback.extract_tb(ex.__traceback__)
                if any(f.filename.startswith("/repo/") for f in tb):
                    conn.send(("violation", i, repr(case), "unexpected %s from the implementation: %s" % (
                        type(ex).__name__, text(ex)), {"traceback": traceback.format_exc()[-3000:]}))
                    stop.value = 1
                    break
                raise
            st.c["cases"] += 1
            st.case_done()
        conn.send(("done", w, st.export()))
    except BaseException:
        conn.send(("error", w, traceback.format_exc()))
    finally:
        conn.close()


HANG_SECONDS = 150


def run(mod, pid, tier, seed):
    """Explores all cases of the module; returns the process exit status."""
    t0 = time.time()
    nw = min(8, os.cpu_count() or 1)
    warm = getattr(mod, "warm", None)
    if warm:
        warm()
    ctx = mp.get_context("fork")
    progress = ctx.Array("q", [0] * (2 * nw), lock=False)
    stop = ctx.Value("i", 0, lock=False)
    procs, conns = [], []
    for w in range(nw):
        progress[2 * w] = -1
        progress[2 * w + 1] = int(time.monotonic())
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(mod, tier, w, nw, b, progress, stop), daemon=True)
        p.start()
        b.close()
        procs.append(p)
        conns.append(a)
    total = Stats()
    violations, errors = [], []
    open_ = dict(enumerate(conns))
    limit = getattr(mod, "HANG_SECONDS", HANG_SECONDS)
    while open_:
        ready = mp.connection.wait(list(open_.values()), timeout=5)
        for w in list(open_):
            if open_[w] in ready:
                try:
                    m = open_[w].recv()
                except EOFError:
                    i = progress[2 * w]
                    violations.append((i, nth(mod, tier, i), "the process running this case died", {}))
                    stop.value = 1
                    del open_[w]
                    continue
                if m[0] == "violation":
                    violations.append(m[1:])
                elif m[0] == "error":
                    errors.append(m[2])
                    del open_[w]
                else:
                    c, o, s, k, n = m[2]
                    total.c.update(c)
                    total.outcomes.update(o)
                    total.samples += s
                    total.known.update(k)
                    total.states += n
                    del open_[w]
            elif time.monotonic() - progress[2 * w + 1] > limit and procs[w].is_alive():
                i = progress[2 * w]
                procs[w].kill()
                del open_[w]
                violations.append((i, nth(mod, tier, i), "no end within %d s" % limit, {}))
                stop.value = 1
    for p in procs:
        p.join(5)
        if p.is_alive():
            p.kill()
    wall = time.time() - t0
    if errors and not violations:
        sys.stderr.write(errors[0])
        print("ERROR property=%s: the check itself failed" % pid)
        return 2
    finish = getattr(mod, "finish", None)
    if finish and not violations:
        try:
            finish(total)
        except Violation as v:
            violations.append((-1, "None", v.msg, v.details))
    write_evidence(mod, pid, tier, seed, total, wall, len(violations))
    for k, text in sorted(total.known.items()):
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, text))
    if violations:
        violations.sort(key=lambda v: v[0])
        i, case, msg, details = violations[0]
        path = "%s/evidence/replay-%s.json" % (VERIF, pid)
        with open(path, "w") as f:
            json.dump({"property": pid, "tier": tier, "case_index": i, "case": case, "message": msg,
                       "details": {k: str(v) for k, v in details.items()},
                       "replay_cmd": "bash /verif/run replay %s" % path}, f, indent=1)
        print("violated: %s" % msg)
        for k, v in details.items():
            print("--- %s\n%s" % (k, v))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("held: %s states=%d %s wall=%.1fs" % (pid, total.states, dict(total.c), wall))
    return 0


def nth(mod, tier, i):
    for j, case in enumerate(mod.cases(tier)):
        if j == i:
            return repr(case)
    return "None"


def write_evidence(mod, pid, tier, seed, st, wall, nviol):
    cov = {
        "states": st.states,
        "transitions": st.c.get("transitions", 0),
        "traces_validated_against_impl": st.c.get("traces", 0),
        "samples": st.samples[:6] or ["none"],
        "exhaustive": nviol == 0,
        "rule": (mod.__doc__ or "").strip(),
        "bounds": getattr(mod, "BOUNDS", {}).get(tier, ""),
        "cases": st.c.get("cases", 0),
        "distinct_outcomes": len(st.outcomes),
        "outcomes": dict(st.outcomes.most_common(12)),
    }
    for k, v in st.c.items():
        if k not in ("transitions", "traces", "cases", "executions") and not (k == "programs" and v == st.c.get("cases")):
            cov[k] = v
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (VERIF, pid), "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
                   "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2),
                   "violations": nviol}, f, indent=1)


def replay(path):
    from importlib import import_module

    with open(path) as f:
        r = json.load(f)
    mod = import_module("mc.props." + r["property"].lower())
    try:
        mod.check(ast.literal_eval(r["case"]), Stats())
    except Violation as v:
        print("violated: %s" % v.msg)
        for k, d in v.details.items():
            print("--- %s\n%s" % (k, d))
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    print("not violated")
    return 0
