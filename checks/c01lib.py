from lib import tracecheck as tc


def canaries(t):
    out = []

    def add(what, pick, change):
        x = tc.corrupt(t, pick, change)
        if x is not None:
            out.append((what, x))
    add("v shifted in lik", lambda e: e["e"] == "lik", lambda e: e.update(v=e["v"] - 1))
    add("t shifted in prop", lambda e: e["e"] == "prop", lambda e: e.update(t=e["t"] + 1))
    add("weights permuted", lambda e: e["e"] == "sel" and len(set(e["q"])) > 1, lambda e: e.update(q=e["q"][1:] + e["q"][:1]))
    add("evidence off", lambda e: e["e"] == "ret", lambda e: e.update(ell=e["ell"] + 100))
    add("returned particles", lambda e: e["e"] == "ret", lambda e: e.update(us=e["us"][:-1]))
    x = dict(t, ev=t["ev"][:-1])
    out.append(("no return", x))
    return out
