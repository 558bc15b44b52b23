"""Long random histories for scripted sinks and values: deeper, wider and
with more varied components than those that can all be enumerated."""
import random

KINDS = "obn"


def drives(seed, n, wraps, longest=160):
    rng = random.Random(seed)
    out = []
    for r in range(n):
        if r % 400 == 0:
            # very deep
            lv = [rng.choice("MS") for _ in range(rng.choice((127, 128, 129, 130, 257, 300)))]
            ev = [e for x in lv for e in ((x, "a") if x == "M" else rng.choice(((x,), (x, "a"))))]
            if rng.random() < .7: ev += ["a"] + [x.lower() for x in reversed(lv)]
            out.append({"op": "drive", "ev": ev, "kinds": [rng.choice(KINDS) for _ in range(3)], "wrap": rng.choice(wraps), "fail": -1 if rng.random() < .7 else rng.randrange(2 * len(ev)), "panic": 0})
            continue
        want, deep = rng.choice((10, 20, 40, longest)), rng.choice((2, 4, 8, 30))
        ev, st = [], []          # st: [is map, a key comes next]
        def child():
            if st and st[-1][0]: st[-1][1] = not st[-1][1]
        grow = rng.choice((.2, .4, .5, .7))
        while len(ev) < want:
            x = rng.random()
            if not st and ev: break
            if not st and x < .97 or (x < grow and len(st) < deep):
                k = rng.choice("MS")
                child()
                ev.append(k)
                st.append([k == "M", k == "M"])
            elif st and x > 1 - rng.choice((.1, .2, .3)) and not (st[-1][0] and not st[-1][1]):
                ev.append("m" if st[-1][0] else "s")
                st.pop()
            else:
                child()
                ev.append("a")
        x = rng.random()
        if st and x < .5:
            # bring it to an end
            while st:
                if st[-1][0] and not st[-1][1]: ev.append("a")
                ev.append("m" if st.pop()[0] else "s")
        elif x < .65 and (st or not ev):
            # or to one that does not fit
            ev.append("s" if st and st[-1][0] else "m")
        kinds = [rng.choice(KINDS if rng.random() < .7 else "ob") for _ in range(rng.choice((1, 2, 3, 5, 7)))]
        c = {"op": "drive", "ev": ev, "kinds": kinds, "wrap": rng.choice(wraps), "fail": -1, "panic": 0}
        if rng.random() < .6:
            c["fail"] = rng.randrange(3 * len(ev) + 1)
            c["panic"] = rng.randrange(2)
        out.append(c)
    return out


def pulls(seed, n, wraps, largest=50):
    rng = random.Random(seed)
    def shape(d, size):
        """a shape of at most that size; the size used"""
        if d <= 0 or size < 2 or rng.random() < .15: return ["a"], 1
        k = rng.choice("SMT")
        out, used = [k], 1
        while used < size and rng.random() < .8:
            x, m = shape(d - 1, size - used - 1)
            used += m
            out.append(x)
            if k == "M":
                x, m = shape(d - 1, min(5, size - used))
                used += m
                out.append(x)
        return out, used
    out = []
    for r in range(n):
        # one long chain now and then
        if rng.random() < .2 or r % 300 == 0:
            sh = ["a"]
            for _ in range(rng.choice((5, 15, 30)) if r % 300 else rng.choice((127, 128, 129, 240))):
                k = rng.choice("SMT")
                sh = [k, ["a"], sh] if k == "M" and rng.random() < .7 else [k, sh, ["a"]] if k == "M" else [k, sh] + [["a"]] * rng.randrange(2)
            used = 40 if r % 300 else 700
        else:
            sh, used = shape(rng.choice((1, 2, 4, 8)), rng.choice((6, 15, largest)))
        c = {"op": "pull", "shape": sh, "kinds": [rng.choice("ob") for _ in range(rng.choice((1, 2, 3, 5)))], "wrap": rng.choice(wraps), "fail": -1, "panic": 0,
             "stop": 10000 if rng.random() < .5 else rng.randrange(3 * used + 2)}
        if rng.random() < .6:
            c["fail"] = rng.randrange(4 * used + 1)
            c["panic"] = rng.randrange(2)
        out.append(c)
    return out
