"""Thin driver around TLC: exhaustive runs, labelled-graph export, trace validation."""
import json
import os
import re
import shutil
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(ROOT, "specs")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(RuntimeError):
    """The machinery (not the code under test) failed."""


class TLCResult:
    def __init__(self, out, rc, states, distinct, prints, violated):
        self.out = out
        self.rc = rc
        self.states = states  # states generated (= transitions examined)
        self.distinct = distinct
        self.prints = prints  # decoded JSON objects printed with PrintT(ToJson(..))
        self.violated = violated  # name of a violated invariant/property, or None


def run_tlc(
    module,
    cfg,
    env=None,
    workers=1,
    timeout=600,
    extra=(),
    heap="6g",
    expect_ok=True,
    coverage=False,
):
    """Runs TLC on specs/<module>.tla with specs/<cfg>."""
    meta = tempfile.mkdtemp(prefix="vh_tlc_")
    try:
        cmd = [
            "java",
            "-XX:+UseParallelGC",
            f"-Xmx{heap}",
            "-Xss16m",
            "-cp",
            JARS,
            "tlc2.TLC",
            "-config",
            cfg,
            "-metadir",
            meta,
            "-noGenerateSpecTE",
            "-deadlock",
            "-workers",
            str(workers),
            *(["-coverage", "1"] if coverage else []),
            *extra,
            module + ".tla",
        ]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(
                cmd,
                cwd=SPECS,
                env=e,
                stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT,
                text=True,
                timeout=timeout,
            )
        except subprocess.TimeoutExpired:
            raise TLCError(f"TLC timed out on {module}/{cfg}")
        out = p.stdout
        prints = []
        for line in out.splitlines():
            if line.startswith('"{') or line.startswith('"['):
                try:
                    prints.append(json.loads(json.loads(line)))
                except ValueError:
                    raise TLCError("unparsable TLC print: " + line[:200])
        m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", out)
        m = m or re.findall(r"(\d+) states generated", out)
        states = distinct = 0
        if m:
            last = m[-1]
            if isinstance(last, tuple):
                states, distinct = int(last[0]), int(last[1])
            else:
                states = distinct = int(last)
        viol = re.search(
            r"(?:Invariant|Action property|Temporal properties?) (\S+) (?:is|was|were) violated",
            out,
        )
        violated = viol.group(1) if viol else None
        if expect_ok and p.returncode != 0:
            raise TLCError(
                f"TLC failed on {module}/{cfg} rc={p.returncode}\n"
                + "\n".join(out[max(0, out.find("Error:")) :].splitlines()[:12])
                + "\n...\n" + out[-3000:]
            )
        return TLCResult(out, p.returncode, states, distinct, prints, violated)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def validate_traces(module, cfg, events, workers=1, timeout=600, extra_env=None):
    """Checks a list of events (dicts) against a trace specification.

    The trace module prints one JSON object per rejected event
    ({"line": n, "clauses": [...], ...}) and a final {"done": n}.
    Returns (rejections, TLCResult)."""
    d = tempfile.mkdtemp(prefix="vh_trace_")
    try:
        path = os.path.join(d, "trace.ndjson")
        with open(path, "w") as f:
            for ev in events:
                f.write(json.dumps(ev, separators=(",", ":")) + "\n")
        env = {"TRACE": path}
        env.update(extra_env or {})
        r = run_tlc(module, cfg, env=env, workers=workers, timeout=timeout)
        done = [p for p in r.prints if isinstance(p, dict) and "done" in p]
        if not done or done[-1]["done"] != len(events):
            raise TLCError(
                f"trace validation did not consume the trace ({module}): "
                f"{done} vs {len(events)}\n" + r.out[-3000:]
            )
        rej = [p for p in r.prints if isinstance(p, dict) and "clauses" in p]
        return rej, r
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Graph:
    """Labelled transition graph printed by a spec: {"s":..,"a":..,"t":..}."""

    def __init__(self, prints):
        self.out = {}
        self.init = []
        self.state = {}
        for p in prints:
            if "init" in p:
                k = self.key(p["init"])
                self.state[k] = p["init"]
                if k not in self.init:
                    self.init.append(k)
            elif "a" in p:
                s, t = self.key(p["s"]), self.key(p["t"])
                self.state[s] = p["s"]
                self.state[t] = p["t"]
                lst = self.out.setdefault(s, [])
                item = (p["a"], t)
                if item not in lst:
                    lst.append(item)

    @staticmethod
    def key(s):
        return json.dumps(s, sort_keys=True)

    @property
    def n_edges(self):
        return sum(len(v) for v in self.out.values())

    def walks(self, rng, max_len=60, limit=None, want=None):
        """Walks from an initial state that jointly cover every transition whose
        label satisfies `want` (or the first `limit` edges' worth of them)."""
        todo = {
            (s, i)
            for s, v in self.out.items()
            for i in range(len(v))
            if want is None or want(v[i][0])
        }
        total = 0
        from collections import deque

        while todo:
            walk = []
            start = cur = rng.choice(self.init)
            while len(walk) < max_len:
                here = [i for i in range(len(self.out.get(cur, []))) if (cur, i) in todo]
                if here:
                    i = rng.choice(here)
                    todo.discard((cur, i))
                    a, t = self.out[cur][i]
                    walk.append((cur, a, t))
                    total += 1
                    cur = t
                    continue
                # shortest path to a state with uncovered outgoing edges
                prev = {cur: None}
                dq = deque([cur])
                goal = None
                while dq:
                    x = dq.popleft()
                    if any((x, i) in todo for i in range(len(self.out.get(x, [])))):
                        goal = x
                        break
                    for i, (a, t) in enumerate(self.out.get(x, [])):
                        if t not in prev:
                            prev[t] = (x, i)
                            dq.append(t)
                if goal is None:
                    break
                path = []
                x = goal
                while prev[x] is not None:
                    px, i = prev[x]
                    path.append((px, i))
                    x = px
                for px, i in reversed(path):
                    a, t = self.out[px][i]
                    walk.append((px, a, t))
                    cur = t
            if not walk:
                # uncovered edges unreachable from this init state
                reach = set(self.init)
                dq = deque(self.init)
                while dq:
                    x = dq.popleft()
                    for a, t in self.out.get(x, []):
                        if t not in reach:
                            reach.add(t)
                            dq.append(t)
                todo = {(s, i) for (s, i) in todo if s in reach}
                continue
            yield start, walk
            if limit is not None and total >= limit:
                return
