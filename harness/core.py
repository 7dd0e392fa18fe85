"""Conformance checking in both directions, and the bookkeeping of a check run.

TraceKind   jobs are run in the real code and give traces, TLC validates the traces with a trace
            module built on the specification (code -> specification).
OracleKind  TLC evaluates the specification for each input, the real code is run on the same input
            and its outcome compared with what the specification says (specification -> code).
"""

import time

import kit


class Run:
    """what one run of a check covered and found"""

    def __init__(self, prop, tier, rng):
        self.prop, self.tier, self.rng = prop, tier, rng
        self.states = self.transitions = self.traces = 0
        self.parts, self.samples, self.fails = [], [], []
        self.assumptions = []
        self.exhaustive = []

    @property
    def quick(self):
        return self.tier == "quick"

    def model_check(self, module, cfg=None, env=None, note="", need=(), **kw):
        """exhaustive exploration of a specification, its properties must hold. need: actions that
        must have been taken (guards against a vacuous model)"""
        t0 = time.time()
        e = dict(TIER=self.tier)
        e.update(env or {})
        r = kit.tlc(module, cfg, env=e, args=("-coverage", "1"), **kw)
        if r.violated:
            raise kit.MachineryError(f"{module}: {r.violated} does not hold in the specification\n" + r.out[-4000:])
        for a in need:
            if r.coverage.get(a, [0, 0])[1] == 0:
                raise kit.MachineryError(f"{module}: action {a} never taken")
        self.states += r.distinct
        self.transitions += r.generated
        self.parts.append(dict(part=f"model checking {cfg or module}", states=r.distinct, transitions=r.generated,
                               depth=r.depth, actions={k: v[1] for k, v in r.coverage.items()}, note=note,
                               wall_s=round(time.time() - t0, 1)))
        self.exhaustive.append(cfg or module)
        return r

    def generate(self, module, cfg, env=None, note="", **kw):
        """all behaviours TLC finds, as printed by the specification"""
        t0 = time.time()
        e = dict(TIER=self.tier)
        e.update(env or {})
        r = kit.tlc(module, cfg, env=e, **kw)
        if r.violated:
            raise kit.MachineryError(f"{module}: {r.violated} does not hold in the specification\n" + r.out[-4000:])
        self.states += r.distinct
        self.transitions += r.generated
        self.parts.append(dict(part=f"generated by {cfg}", behaviours=len(r.messages), states=r.distinct,
                               transitions=r.generated, note=note, wall_s=round(time.time() - t0, 1)))
        if not r.messages:
            raise kit.MachineryError(f"{cfg}: no behaviours generated")
        r.messages.sort(key=repr)  # TLC's workers print in any order
        return r.messages

    def add_fail(self, kind, job, clause, detail):
        self.fails.append(dict(kind=kind, job=job, clause=clause, detail=detail))


class TraceKind:
    registry = {}

    def __init__(self, name, run, module, workers=kit.NPROC, chunksize=None, timeout=840):
        self.name, self.run, self.module = name, run, module
        self.workers, self.chunksize, self.timeout = workers, chunksize, timeout
        TraceKind.registry[name] = self

    def check(self, run, jobs, note=""):
        t0 = time.time()
        traces = kit.pmap(self.run, jobs, self.workers, self.chunksize)
        t1 = time.time()
        fails, states, trans = kit.validate(self.module, [dict(w=t["w"], ev=t["ev"]) for t in traces])
        run.states += states
        run.transitions += trans
        run.traces += len(traces)
        ops = {}
        for t in traces:
            for e in t["ev"]:
                ops[e["op"]] = ops.get(e["op"], 0) + 1
        run.parts.append(dict(part=f"validated {self.name} with {self.module}", traces=len(traces), events=trans,
                              by_event=ops, note=note, wall_s=round(time.time() - t0, 1), run_s=round(t1 - t0, 1)))
        if traces and len(run.samples) < 3:
            s = traces[run.rng.randrange(len(traces))]
            run.samples.append(dict(kind=self.name, w=s["w"], ev=s["ev"][:3]))
        mine = any(c.startswith(run.prop) for f in fails for c in f["fails"])
        for f in fails:
            t = traces[f["trace"]]
            for c in f["fails"]:
                if c == "*":
                    if mine:
                        continue
                    c = f"{run.prop}:what was observed has no meaning in the specification"
                run.add_fail(self.name, jobs[f["trace"]], c,
                             dict(position=f["l"], why=f.get("why", ""), event=t["ev"][f["l"] - 1], w=t["w"],
                                  before=t["ev"][f["l"] - 2] if f["l"] > 1 else None))
        return traces


class OracleKind:
    registry = TraceKind.registry

    def __init__(self, name, compare, module, workers=kit.NPROC, chunksize=None):
        """compare((job, expected)) -> list of (clause, detail); job["in"] is the input TLC evaluates"""
        self.name, self.compare, self.module = name, compare, module
        self.workers, self.chunksize = workers, chunksize
        TraceKind.registry[name] = self

    def check(self, run, jobs, note=""):
        t0 = time.time()
        outs, states = kit.evaluate(self.module, [j["in"] for j in jobs])
        t1 = time.time()
        res = kit.pmap(self.compare, list(zip(jobs, outs)), self.workers, self.chunksize)
        run.states += states
        run.transitions += len(jobs)
        run.traces += len(jobs)
        run.parts.append(dict(part=f"{self.name} compared with {self.module}", inputs=len(jobs),
                              note=note, wall_s=round(time.time() - t0, 1), tlc_s=round(t1 - t0, 1)))
        if jobs and len(run.samples) < 3:
            i = run.rng.randrange(len(jobs))
            run.samples.append(dict(kind=self.name, input=jobs[i]["in"], expected=outs[i]))
        for j, o, r in zip(jobs, outs, res):
            for c, d in r:
                run.add_fail(self.name, j, c, dict(found=d, expected=o))
        return outs
