"""Streams for the types of the collect operation (values with logged drops)."""
import itertools, random

from reg import ev_u as U
V = "v"
TYPES = {
    "v": V, "opt": ("opt", V), "box": V, "vec": ("seq", V), "arr0": ("arr", V, 0), "arr1": ("arr", V, 1), "arr3": ("arr", V, 3),
    "tup2": ("tup", V, V), "tup3": ("tup", V, ("opt", V), V), "bmap": ("map", V, V), "hmap": ("map", V, V),
    "bset": ("seq", V), "hset": ("seq", V), "vecvec": ("seq", ("seq", V)), "arrvec": ("arr", ("seq", V), 2),
    "vecarr": ("seq", ("arr", V, 2)), "arrarr": ("arr", ("arr", V, 2), 2), "tuparr": ("tup", ("arr", V, 2), ("tup", V, V)),
    "mapvec": ("map", V, ("seq", V)), "maparr": ("map", V, ("arr", V, 2)), "setset": ("seq", ("seq", V)),
    "optarr": ("opt", ("arr", V, 2)), "vecopt": ("seq", ("opt", V)), "arropt": ("arr", ("opt", V), 2), "arrbox": ("arr", V, 2),
    "plain": ("st", {"a": V, "b": ("opt", V), "c": ("seq", V)}), "defaults": ("st", {"a": V, "b": V, "c": ("arr", V, 2)}),
    "alldefaults": ("st", {"a": V, "b": ("opt", V), "c": ("tup", V, V)}),
    "flat": ("st", {"a": V, "b": ("seq", V), "c": V}), "new": ("opt", V),
    "vecplain": ("seq", ("st", {"a": V, "b": ("opt", V), "c": ("seq", V)})),
}


def stream(t, r, wrong):
    """one stream for the type, possibly wrong"""
    if wrong and r.random() < wrong:
        return r.choice(([["null"]], [["bool", 1]], [["S"], ["s"]], [["M"], ["m"]], [["S"], U(r.randrange(3)), ["s"]],
                         [["M"], U(1), U(2), ["m"]], [["S"]] + [U(k) for k in range(5)] + [["s"]]))
    rec = lambda x: stream(x, r, wrong)
    if t == V: return [U(r.randrange(3))]
    if t[0] == "opt": return [["null"]] if r.random() < .3 else rec(t[1])
    if t[0] == "st":
        out = [["M"]]
        keys = list(t[1]) + ["x"]
        for k in [r.choice(keys) for _ in range(r.randrange(5))] if r.random() < .5 else r.sample(keys, len(keys) - r.randrange(2)):
            out += [["str", [ord(k)]]] + (rec(t[1][k]) if k in t[1] else rec(("seq", ("seq", V))))
        return out + [["m"]]
    if t[0] == "map":
        out = [["M"]]
        for _ in range(r.randrange(4)): out += rec(t[1]) + rec(t[2])
        return out + [["m"]]
    n = r.choice((0, 1, 2, 3, 3, 4, 9)) if t[0] == "seq" else (t[2] if t[0] == "arr" else len(t) - 1)
    if t[0] != "seq" and wrong and r.random() < wrong: n = max(0, n + r.choice((-1, 1, 2)))
    out = [["S"]]
    for k in range(n):
        out += rec(t[1] if t[0] in ("seq", "arr") else t[1 + k] if k < len(t) - 1 else V)
    return out + [["s"]]


def cases(seed, full, thorough):
    r = random.Random(seed)
    out = []
    for name, t in TYPES.items():
        seen = []
        for k in range(16 if not thorough else 120):
            s = stream(t, r, 0 if k < 5 else .15)
            if len(s) <= 60 and s not in seen: seen.append(s)
        for s in seen:
            for wrap in ("none", "path", "owned", "left"):
                base = {"op": "collect", "type": name, "ev": s, "wrap": wrap}
                out.append(base)
                # abandoned in the middle
                for k in range(len(s)) if wrap != "path" or thorough else (len(s) // 2,):
                    out.append(dict(base, ev=s[:k]))
                # something fails in the middle
                if wrap != "left":
                    for f in range(min(2 * len(s) + 2, 24)) if wrap == "none" or thorough else (r.randrange(2 * len(s) + 2),):
                        for p in (0, 1):
                            out.append(dict(base, fail=f, panic=p))
    return out
