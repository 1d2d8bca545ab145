"""Record and judge: histories through the real code, observations through TLC."""


def record(c, drv, cases, module, name, fix=None, per_event=False, timeout=20, cfg=None, results=None):
    """Runs the histories, puts the observations into the traces and has TLC judge them.

    A trace stops at its first disagreement.  With per_event, the events of a trace do not
    depend on each other: the walk is repeated on what follows a disagreement, so that
    every event is judged."""
    res = results if results is not None else c.drive(drv, cases, timeout=timeout)
    traces, origin = [], []
    for i, (case, r) in enumerate(zip(cases, res)):
        if "skipped" in r:
            continue
        outs = r["out"] if "out" in r else [r]
        ops = []
        for op, o in zip(case["ops"], outs):
            e = dict(op)
            e["out"] = str(o) if isinstance(o, dict) and any(k in o for k in ("panic", "crash", "hang")) else o
            if fix:
                fix(case, e)
            ops.append(e)
        t = {k: v for k, v in case.items() if k not in ("t", "ops")}
        t["ops"] = ops
        traces.append(t)
        origin.append((i, 0))
    for k in (0, len(traces) // 2, len(traces) - 1):
        c.sample(traces[k])
    rounds = 0
    while traces:
        bad = c.validate(module, traces, cfg=cfg)
        again, origin2 = [], []
        for k, (pos, exp) in sorted(bad.items()):
            t = traces[k]
            e = t["ops"][pos]
            i, base = origin[k]
            label = name(t, e) if name.__code__.co_argcount == 2 else name(t)
            c.violation("%s|trace %d event %d" % (label, i, base + pos + 1),
                        {"trace": t if len(str(t)) < 20000 else {"event": e}, "event": pos + 1, "recorded": e.get("panic", e["out"]),
                         "specification": exp})
            if per_event and pos + 1 < len(t["ops"]):
                t2 = dict(t)
                t2["ops"] = t["ops"][pos + 1:]
                again.append(t2)
                origin2.append((i, base + pos + 1))
        rounds += 1
        if not per_event or rounds > 12:
            break
        traces, origin = again, origin2
