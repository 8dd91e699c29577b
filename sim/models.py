"""Small executable reference models.  Nothing here calls py_fatigue."""
import math
from collections import Counter

GRID = 2 ** 20


def q(v):
    """Snap a stress value to the comparison grid (about 1e-6)."""
    return int(round(float(v) * GRID))


# --------------------------------------------------------------- rainflow
def turning_points(x):
    tp = []
    for v in x:
        v = float(v)
        if tp and v == tp[-1]:
            continue
        if len(tp) >= 2 and (tp[-1] - tp[-2]) * (v - tp[-1]) > 0:
            tp[-1] = v
        else:
            tp.append(v)
    return tp


def rainflow(x):
    """ASTM rainflow: (full [(range, mean)], half [(range, mean)], residuals)."""
    stack, full, half, res = [], [], [], []
    for v in turning_points(x):
        stack.append(v)
        while len(stack) >= 3:
            y = abs(stack[-2] - stack[-3])
            if y > abs(stack[-1] - stack[-2]):
                break
            cyc = (y, (stack[-2] + stack[-3]) / 2)
            if len(stack) == 3:
                half.append(cyc)
                res.append(stack.pop(0))
            else:
                full.append(cyc)
                del stack[-3:-1]
    for a, b in zip(stack, stack[1:]):
        half.append((abs(a - b), (a + b) / 2))
    return full, half, res + stack


def changes(x):
    """A window the library can count: the stress changes in it."""
    return any(float(v) != float(x[0]) for v in x[1:])


# ---------------------------------------------------------------- spectra
def spectrum(cc):
    """(full, half) of a library count as weighted multisets on the grid."""
    full, half = Counter(), Counter()
    for r, m, n in zip(cc.stress_range, cc.mean_stress, cc.count_cycle):
        n = float(n)
        if n == 0.5:
            half[(q(r), q(m))] += 1
        elif n > 0:
            full[(q(r), q(m))] += n
    return full, half


def residuals(cc):
    r = cc.residuals_sequence
    return None if r is None else [q(v) for v in r]


def as_counter(pairs):
    c = Counter()
    for r, m in pairs:
        c[(q(r), q(m))] += 1
    return c


def unq(c):
    return {(k[0] / GRID, k[1] / GRID): v for k, v in sorted(c.items())}


def diff_txt(got, want, limit=4):
    """Short description of how two multisets differ."""
    extra = {k: got[k] - want.get(k, 0) for k in got if got[k] != want.get(k, 0)}
    lack = {k: want[k] for k in want if k not in got}
    def fmt(d):
        return [(k[0] / GRID, k[1] / GRID, v) for k, v in sorted(d.items())[:limit]]
    return f"differs (range, mean, surplus): {fmt(extra)} missing: {fmt(lack)}"


def same(a, b):
    return +a == +b


def close_multiset(got, want, tol):
    """Weighted multisets of (range, mean) equal within tol; returns None or a
    description.  Greedy matching in sorted order, mended by augmenting paths
    where values lie closer together than tol."""
    g = _expand(got)
    w = _expand(want)
    if abs(sum(n for *_x, n in g) - sum(n for *_x, n in w)) > 1e-9:
        return f"weights differ: {sum(n for *_x, n in g)} vs {sum(n for *_x, n in w)}"
    used = [0.0] * len(g)
    flow = [{} for _ in g]  # per got row: what it is matched with
    fits = {}

    def edges(k):
        if k not in fits:
            r, m, _n = w[k]
            fits[k] = [i for i, (gr, gm, _gn) in enumerate(g) if abs(gr - r) <= tol(r) and abs(gm - m) <= tol(m)]
        return fits[k]

    for k, (r, m, n) in enumerate(w):
        left = n
        for i in edges(k):
            if left <= 1e-12:
                break
            take = min(left, g[i][2] - used[i])
            if take > 1e-12:
                used[i] += take
                flow[i][k] = flow[i].get(k, 0.0) + take
                left -= take
        while left > 1e-9:
            # breadth-first search for a row with room left
            via, back, queue, end = {}, {k: None}, [k], None
            while queue and end is None:
                a = queue.pop(0)
                for i in edges(a):
                    if i in via:
                        continue
                    via[i] = a
                    if g[i][2] - used[i] > 1e-12:
                        end = i
                        break
                    for b, f in flow[i].items():
                        if f > 1e-12 and b not in back:
                            back[b] = i
                            queue.append(b)
            if end is None:
                return f"no match for (range={r}, mean={m}) x{left}"
            path, i, cap = [], end, min(left, g[end][2] - used[end])
            while True:
                a = via[i]
                if a == k:
                    path.append((i, a, None))
                    break
                j = back[a]
                path.append((i, a, j))
                cap = min(cap, flow[j][a])
                i = j
            used[end] += cap
            for i, a, j in path:
                flow[i][a] = flow[i].get(a, 0.0) + cap
                if j is not None:
                    flow[j][a] -= cap
            left -= cap
    return None


def _expand(items):
    return sorted((float(r), float(m), float(n)) for r, m, n in items)


def triples(cc, half):
    return [
        (r, m, n)
        for r, m, n in zip(cc.stress_range, cc.mean_stress, cc.count_cycle)
        if (float(n) == 0.5) == half and float(n) > 0
    ]


# --------------------------------------------------------- mean stress
def corrected_range(kind, mean, rng, factor=None):
    amp = rng / 2
    mx, mn = mean + amp, mean - amp
    if kind == "dnvgl-rp-c203":
        p = factor
        den = mx + abs(mn)
        f = (mx + p * abs(mn)) / den if den != 0 else math.nan
        if f > 1:
            f = 1
        if mn > 0:
            f = 1
        if p == 0.8 and f < p:
            f = p
        if p == 0.6 and f < p:
            f = 0
        return 2 * f * amp
    g = 0.5 if kind in ("swt", "smith-watson-topper") else factor
    if mx < 0 or amp < 0:
        return 0.0
    return mx ** (1 - g) * amp ** g


# ----------------------------------------------------------------- S-N
class SN:
    def __init__(self, slope, intercept, endurance=math.inf):
        self.m, self.a, self.ne = list(slope), list(intercept), endurance

    def cycles(self, s):
        if s <= 0:
            return math.inf
        n = max(10.0 ** (a - m * math.log10(s)) for m, a in zip(self.m, self.a))
        return math.inf if n > self.ne else n

    def near_endurance(self, s, rel=1e-9):
        if s <= 0 or self.ne == math.inf:
            return False
        n = max(10.0 ** (a - m * math.log10(s)) for m, a in zip(self.m, self.a))
        return abs(n - self.ne) <= rel * self.ne

    def damage(self, s, n):
        c = self.cycles(s)
        return 0.0 if c == math.inf else n / c


# ---------------------------------------------------------------- Paris
class Paris:
    def __init__(self, slope, intercept, threshold, critical):
        self.m, self.c = list(slope), list(intercept)
        self.th, self.cr = threshold, critical

    def knees(self):
        return [
            (self.c[i] / self.c[i + 1]) ** (1 / (self.m[i + 1] - self.m[i]))
            for i in range(len(self.c) - 1)
        ]

    def rate(self, k):
        if k < self.th:
            return 0.0
        if k > self.cr:
            return math.inf
        i = sum(1 for kn in self.knees() if k >= kn)
        return self.c[i] * k ** self.m[i]


def surface_factor(_depth, _geo):
    return 1.0


def cylinder_factor(depth, geo):
    """Net-section stress factor of an external crack in a hollow cylinder."""
    if depth >= geo["thickness"]:
        return 0.0
    ro = geo["outer_diameter"] / 2
    ri = ro - geo["thickness"]
    al = depth * geo["width_to_depth_ratio"] / ro
    cv, ah = ro * math.sin(al), depth - ro * (1 - math.cos(al))
    rc = (cv * cv + ah * ah) / (2 * ah)
    be = math.asin(cv / rc)

    def area(r, x):
        return (x - math.sin(2 * x) / 2) * r ** 2

    def arm(r, x):
        return 4 * r * math.sin(x) ** 3 / (3 * (2 * x - math.sin(2 * x)))

    def inertia(r, x):
        return r ** 4 / 4 * (x - math.sin(4 * x) / 4
                             - 16 * math.sin(x) ** 6 / (9 * (x - math.sin(x) * math.cos(x))))

    a0 = math.pi * (ro ** 2 - ri ** 2)
    a1, a2 = area(ro, al), area(rc, be)
    x1 = -arm(ro, al)
    x2 = arm(rc, be) - ro * math.cos(al) - rc * math.cos(be)
    q0 = -(a1 * x1 + a2 * x2) / (a0 - a1 - a2)
    net = (math.pi / 4 * (ro ** 4 - ri ** 4) + a0 * q0 ** 2
           - inertia(ro, al) - a1 * (q0 - x1) ** 2 - inertia(rc, be) - a2 * (q0 - x2) ** 2)
    xa = -(ro * math.cos(al) + q0) + 0.1 * ro * (1 + math.cos(al))
    return -math.pi * (ro ** 4 - ri ** 4) * xa / (4 * ro * net)


def ill_conditioned(depth, geo):
    """Does the closed form lose its digits here (arcsine near its end, flat crack front)?"""
    ro = geo["outer_diameter"] / 2
    al = depth * geo["width_to_depth_ratio"] / ro
    cv, ah = ro * math.sin(al), depth - ro * (1 - math.cos(al))
    if ah <= 0 or 2 * ah * cv / (cv * cv + ah * ah) > 0.999:
        return True
    f = cylinder_factor(depth, geo)
    return any(abs(cylinder_factor(depth * (1 + e), geo) - f) > 1e-10 * abs(f) for e in (1e-13, -1e-13, 2e-13))


def grow(cycles, depth, curve, factor, geo):
    """Integrate the growth law over [(stress, n), ...]; returns (depths, sifs,
    factors, failed, close): depth before each cycle survived, and whether any
    decision was too close to call in floating point."""
    ds, ks, fs, close = [], [], [], False
    for s, n in cycles:
        f = factor(depth, geo)
        k = s * math.sqrt(math.pi * depth) * f
        for lim in (curve.th, curve.cr):
            if 0 < lim < math.inf and abs(k - lim) <= 1e-6 * lim:
                close = True
        if "thickness" in geo:
            if abs(depth - geo["thickness"]) <= 1e-6 * depth or (f != 0.0 and (f < 0.01 or ill_conditioned(depth, geo))):
                close = True
        if f == 0.0 or k >= curve.cr:
            return ds, ks, fs, True, close
        if k < curve.th:
            nxt = depth
        else:
            nxt = depth + curve.rate(k) * n
            if abs(nxt / depth - 10) < 1e-5:
                close = True
            if nxt / depth > 10:
                return ds, ks, fs, True, close
        ds.append(depth)
        ks.append(k)
        fs.append(f)
        depth = nxt
    return ds, ks, fs, False, close
