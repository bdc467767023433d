"""Workload generators shared by the checks."""
import math

US = 1000000


def floats(r, n, kind=None, nonneg=False):
    kind = kind or r.choice(["small", "int", "unit", "wide", "ties", "big", "tiny", "mixed"])
    out = []
    for _ in range(n):
        k = r.choice(["small", "int", "unit", "wide", "ties", "big", "tiny"]) if kind == "mixed" else kind
        if k == "small":
            v = r.uniform(-100, 100)
        elif k == "int":
            v = float(r.randint(-1000, 1000))
        elif k == "unit":
            v = r.random()
        elif k == "wide":
            v = math.copysign(10 ** r.uniform(-8, 8), r.random() - .5)
        elif k == "ties":
            v = float(r.choice([0, 1, 1, 2, -3, 5]))
        elif k == "big":
            v = r.uniform(-1e12, 1e12)
        else:
            v = r.uniform(-1e-9, 1e-9)
        out.append(abs(v) if nonneg else v)
    return out


def base_ts(r):
    return r.choice([
        r.randint(-40 * 365, 40 * 365) * 86400 * US,
        r.randint(-10 ** 15, 10 ** 15),
        0,
        r.randint(-5, 5) * 3600 * US,
    ])


def step(r, kind):
    if kind == "us":
        return r.randint(1, 50)
    if kind == "ms":
        return r.randint(1, 5000) * 1000
    if kind == "s":
        return r.randint(1, 600) * US
    if kind == "reg":
        return 10 * US
    if kind == "h":
        return r.randint(1, 72) * 3600 * US + r.choice([0, 0, r.randint(0, US)])
    return 10 ** r.randint(0, 10) + r.randint(0, 9)


def times(r, n, kind=None, base=None):
    """strictly increasing microsecond timestamps"""
    kind = kind or r.choice(["us", "ms", "s", "s", "reg", "h", "wild"])
    t = base_ts(r) if base is None else base
    out = []
    for _ in range(n):
        out.append(t)
        t += step(r, kind)
    return out


def counter_vals(r, n, nonneg=False):
    if nonneg:
        return [abs(v) for v in counter_vals(r, n)]
    style = r.choice(["mono", "resets", "walk", "const", "zeros", "int"])
    v, out = r.choice([0.0, r.uniform(0, 100), float(r.randint(0, 50))]), []
    for _ in range(n):
        out.append(v)
        if style == "mono":
            v += r.choice([0.0, r.uniform(0, 10)])
        elif style == "resets":
            v = r.choice([0.0, r.uniform(0, 5)]) if r.random() < .25 else v + r.uniform(0, 10)
        elif style == "walk":
            v += r.uniform(-5, 5)
        elif style == "zeros":
            v = r.choice([0.0, 0.0, 1.0, 5.0])
        elif style == "int":
            v = float(max(0, v + r.randint(-3, 10)) if r.random() < .8 else 0)
    return out


def size(r, big=60):
    x = r.random()
    if x < .1:
        return 1
    if x < .2:
        return 2
    if x < .35:
        return 3
    if x < .8:
        return r.randint(4, 20)
    return r.randint(20, big)


def split_contiguous(r, seq, k=None):
    """cuts a sequence into 1..k contiguous non-empty groups"""
    n = len(seq)
    k = min(n, k or r.randint(1, 6))
    cuts = sorted(r.sample(range(1, n), k - 1)) if k > 1 else []
    return [seq[a:b] for a, b in zip([0] + cuts, cuts + [n])]
