"""Validate traces, report rejections as violations, and show that the binding bites (canaries)."""
import copy
from . import tlc


def strip(t):
    return dict(c=t["c"], ev=[{k: v for k, v in e.items() if k != "tb"} for e in t["ev"]])


def validate(chk, module, traces, canaries=(), cfg=None, keyfn=None, timeout=600):
    """canaries: list of (description, corrupted trace); each must be rejected when all real traces are accepted."""
    good = [strip(t) for t in traces]
    can = [strip(t) for _, t in canaries]
    rej, r = tlc.validate(module, good + can, cfg, timeout=timeout)
    chk.tlc(r, module)
    bad = [x for x in rej if x["tid"] < len(traces)]
    for x in bad:
        t = traces[x["tid"]]
        e = t["ev"][x["l"] - 1] if x["l"] <= len(t["ev"]) else "end of trace"
        chk.violation("%s trace %d (%s), event %d: violated clause '%s'" % (
            module, x["tid"], t.get("info"), x["l"], x["clause"]),
            dict(module=module, clause=x["clause"], event=e, trace=t), key=keyfn(t, x) if keyfn else None)
    chk.traces(len(traces) - len(bad))
    rejected = {x["tid"] - len(traces) for x in rej if x["tid"] >= len(traces)}
    if not bad:
        for i, (what, _) in enumerate(canaries):
            if i not in rejected:
                raise tlc.MachineryError("canary accepted by %s: %s" % (module, what))
        chk.count("canaries_rejected", len(canaries))
    for t in traces[:2]:
        chk.sample(dict(info=t.get("info"), first_events=strip(t)["ev"][:4]))
    return bad


def corrupt(trace, pick, change):
    """A copy of trace with the first event satisfying pick changed."""
    t = copy.deepcopy(trace)
    for e in t["ev"]:
        if pick(e):
            change(e)
            return t
    return None
