#!/usr/bin/env python3
"""Property C24: what /repo's parameter generation script prints is what the published procedure defines.

  gencheck.py --one P T        run the script for one prime and width and judge what it prints
  run(tier, seed, repo)        the check: generated primes and widths, the shipped ones first

The script is executed under the stand-in for Sage in sagelike.py. The reference
below is written from the Poseidon2 paper and shares no code with either.
"""
import concurrent.futures, glob, json, math, os, random, re, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))

FIELDS = {
    "BN256": 21888242871839275222246405745257275088548364400416034343698204186575808495617,
    "BLS12": 52435875175126190479447740508185965837690552500527637822603658699938581184513,
    "Pallas": 28948022309329048855892746252171976963363056481941560715954676764349967630337,
    "Vesta": 28948022309329048855892746252171976963363056481941647379679742748393362948097,
    "Goldilocks": 18446744069414584321,
    "BabyBear": 2013265921,
}
SHIPPED = [("BN256", 3), ("BLS12", 2), ("BLS12", 3), ("BLS12", 4), ("BLS12", 8), ("Pallas", 3), ("Pallas", 4), ("Pallas", 8),
           ("Vesta", 3), ("Goldilocks", 8), ("Goldilocks", 12), ("Goldilocks", 16), ("Goldilocks", 20), ("BabyBear", 16), ("BabyBear", 24)]


# ---------------------------------------------------------------- reference

def smallest_degree(p):
    d = 3
    while math.gcd(d, p - 1) != 1:
        d += 1
    return d


def secure(p, t, rf, rp, d, eps):
    """The inequalities of the Poseidon2 analysis for 128 bits (eps: play in the real numbers)."""
    m, n = 128, p.bit_length()
    lp, l2d = math.log2(p) + eps, 1 / math.log2(d)
    up = lambda x: math.ceil(x + eps)
    need = [6 if m <= math.floor(lp - (d - 1) / 2) * (t + 1) else 10,
            1 + up(l2d * min(m, n)) + up(math.log(t) / math.log(d)) - rp,
            up(l2d * min(m, lp) - rp),
            up(t - 1 + l2d * min(m / (t + 1), lp / 2) - rp),
            up((t - 2 + m / (2 * math.log2(d)) - rp) / (t - 1))]
    if rf < max(need):
        return False
    s = t // 3
    k = s * rf / 2 + rp + d
    a = (rf - 1) * t + rp + s + k
    lb = (math.lgamma(a + 1) - math.lgamma(k + 1) - math.lgamma(a - k + 1)) / math.log(2)
    return up(2 * lb) >= m


def rounds(p, t, d, eps):
    """Cheapest secure numbers, with the margin of two full and 7.5 percent partial rounds."""
    best = None
    for rf in range(4, 100, 2):
        lo, hi = 1, 500
        # more rounds never hurt: the smallest number of partial rounds
        while lo < hi:
            mid = (lo + hi) // 2
            if secure(p, t, rf, mid, d, eps):
                hi = mid
            else:
                lo = mid + 1
        if lo >= 500:
            continue
        a, b = rf + 2, math.ceil(lo * 1.075)
        k = (t * a + b, a, b)
        if best is None or k < best:
            best = k
    return (best[1], best[2]) if best else (0, 0)


class Grain:
    def __init__(self, n, t, rf, rp):
        bits = "01" + "0000" + format(n, "012b") + format(t, "012b") + format(rf, "010b") + format(rp, "010b") + "1" * 30
        assert len(bits) == 80
        self.s = int(bits, 2)       # oldest bit on top
        for _ in range(160):
            self.step()

    def step(self):
        s = self.s
        b = (s >> 17 ^ s >> 28 ^ s >> 41 ^ s >> 56 ^ s >> 66 ^ s >> 79) & 1
        self.s = (s << 1 | b) & (1 << 80) - 1
        return b

    def bit(self):
        while True:
            keep, b = self.step(), self.step()
            if keep:
                return b

    def number(self, n):
        v = 0
        for _ in range(n):
            v = v << 1 | self.bit()
        return v


def pm(a, b, f, p):
    """Product modulo the monic polynomial f (lists from the top coefficient down would be slower to index)."""
    n = len(f) - 1
    r = [0] * (2 * n - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    for i in range(2 * n - 2, n - 1, -1):
        c = r[i] % p
        if c:
            for j in range(n):
                r[i - n + j] -= c * f[j]
    return [x % p for x in r[:n]]


def ppow(a, e, f, p):
    r = [1] + [0] * (len(f) - 2)
    for b in format(e, "b"):
        r = pm(r, r, f, p)
        if b == "1":
            r = pm(r, a, f, p)
    return r


def coprime(a, f, p):
    """Whether gcd(a, f) = 1, by the resultant's Euclidean scheme."""
    a, b = [x % p for x in f], [x % p for x in a]
    while True:
        while b and not b[-1]:
            b.pop()
        if not b:
            return len(a) == 1
        while len(a) >= len(b):
            q = a[-1] * pow(b[-1], -1, p) % p
            s = len(a) - len(b)
            for j, y in enumerate(b):
                a[s + j] = (a[s + j] - q * y) % p
            while a and not a[-1]:
                a.pop()
        a, b = b, a


def good_diagonal(m, p):
    """Whether the minimal polynomials of M, M^2, .., M^(2t) are irreducible of degree t, M being ones with diagonal m."""
    t = len(m)
    d = [(x - 1) % p for x in m]
    # characteristic polynomial of D + J: prod(x - d_i) - sum_i prod_{j != i}(x - d_j)
    f, g = [1], [0]
    for c in d:
        # (f, g) -> (f (x - c), g (x - c) + f)
        nf = [0] + f
        ng = [0] + g
        for i, x in enumerate(f):
            nf[i] = (nf[i] - c * x) % p
        for i, x in enumerate(g):
            ng[i] = (ng[i] - c * x) % p
        for i, x in enumerate(f):
            ng[i] = (ng[i] + x) % p
        f, g = nf, ng
    f = [(a - (g[i] if i < len(g) else 0)) % p for i, a in enumerate(f)]
    x = [0, 1] + [0] * (t - 2)
    # irreducible: no factor of degree up to t/2
    conj = [x]
    for k in range(1, t):
        if k == 1:
            y = ppow(x, p, f, p)
        else:
            # substitute: conj_k = conj_{k-1}(conj_1)
            y = [0] * t
            for c in reversed(conj[-1]):
                y = pm(y, conj[1], f, p)
                y[0] = (y[0] + c) % p
        conj.append(y)
        if k <= t // 2:
            z = y[:]
            z[1] = (z[1] - 1) % p
            if not coprime(z, f, p):
                return False
    # powers of the root that fall into a proper subfield
    pw = [[1] + [0] * (t - 1)]
    for i in range(2 * t):
        pw.append(pm(pw[-1], x, f, p))
    for k in range(1, t):
        if t % k:
            continue
        c = [1] + [0] * (t - 1)
        for i in range(1, 2 * t + 1):
            c = pm(c, conj[k], f, p)
            if c == pw[i]:
                return False
    return True


def reference(p, t, rf, rp, d):
    """(internal matrix, round constants by rounds, output for the input 0, 1, .., t-1)"""
    n = p.bit_length()
    g = Grain(n, t, rf, rp)

    def const():
        while True:
            v = g.number(n)
            if v < p:
                return v
    rc = []
    for r in range(rf + rp):
        if rf // 2 <= r < rf // 2 + rp:
            rc.append([const()] + [0] * (t - 1))
        else:
            rc.append([const() for _ in range(t)])
    if t == 2:
        diag = [2, 3]
    elif t == 3:
        diag = [2, 2, 3]
    else:
        while True:
            diag = [g.number(n) % p for _ in range(t)]
            if good_diagonal(diag, p):
                break
    mi = [[diag[i] % p if i == j else 1 for j in range(t)] for i in range(t)]
    if t < 4:
        me = [[2 if i == j else 1 for j in range(t)] for i in range(t)]
    else:
        m4 = [[5, 7, 1, 3], [4, 6, 1, 1], [1, 3, 5, 7], [1, 1, 4, 6]]
        me = [[m4[i % 4][j % 4] * (2 if i // 4 == j // 4 and t > 4 else 1) for j in range(t)] for i in range(t)]
    mul = lambda m, s: [sum(a * b for a, b in zip(row, s)) % p for row in m]
    s = mul(me, list(range(t)))
    for r, c in enumerate(rc):
        s = [(a + b) % p for a, b in zip(s, c)]
        if rf // 2 <= r < rf // 2 + rp:
            s = mul(mi, [pow(s[0], d, p)] + s[1:])
        else:
            s = mul(me, [pow(a, d, p) for a in s])
    return mi, rc, s


# ---------------------------------------------------------------- what the script prints

def numbers(text):
    """The values in from_hex("0x..") calls, which must have an even number of digits."""
    res = []
    for m in re.finditer(r'from_hex\(\s*"([^"]*)"\s*\)', text):
        if not re.fullmatch(r"0x([0-9a-fA-F]{2})+", m.group(1)):
            raise Bad("prints %s, which from_hex refuses" % m.group(0))
        res.append(int(m.group(1), 16))
    return res


class Bad(Exception):
    pass


def tables(text):
    res, end = {}, 0
    for m in re.finditer(r"pub\s+static\s+ref\s+(\w+)\s*:[^=]*=\s*vec!\[(.*?)\n\s*\];", text, re.S):
        body = m.group(2)
        rows = [numbers(r) for r in body.split("vec![")[1:]]
        res[m.group(1)] = rows if rows else numbers(body)
        end = m.end()
    tail = text[end:]
    return res, tail


def judge(text, p, t):
    """Raises Bad if what the script printed for p and t is not what it has to be."""
    d = smallest_degree(p)
    tab, tail = tables(text)
    m = re.search(r"Params::new\(\s*(\d+)\s*,\s*(\d+)\s*,\s*(\d+)\s*,\s*(\d+)", tail)
    if not m:
        raise Bad("prints no parameter line")
    pt, pd, rf, rp = map(int, m.groups())
    if pt != t:
        raise Bad("prints the width %d" % pt)
    if pd != d:
        raise Bad("prints the degree %d, the smallest bijective one is %d" % (pd, d))
    want = {rounds(p, t, d, e) for e in (0, 1e-7, -1e-7)}
    if (rf, rp) not in want:
        raise Bad("prints %d full and %d partial rounds, the analysis asks for %s" % (rf, rp, sorted(want)))
    mi, rc, out = reference(p, t, rf, rp, d)
    for name, value in (("MAT_DIAG%d_M_1" % t, [(mi[i][i] - 1) % p for i in range(t)]), ("MAT_INTERNAL%d" % t, mi), ("RC%d" % t, rc)):
        if name not in tab:
            raise Bad("prints no table %s" % name)
        if tab[name] != value:
            a, b = tab[name], value
            k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            raise Bad("%s differs from the published procedure at entry %d (%d entries, %d expected)" % (name, k, len(a), len(b)))
    vals = numbers(tail)
    if vals != list(range(t)) + out:
        raise Bad("the sample it prints is not the permutation of 0, 1, .., %d" % (t - 1))


def one(script, p, t):
    """{"verdict": held | refused | unknown | violated, ...} for one prime and width."""
    sys.path.insert(0, HERE)
    import sagelike
    src = open(script).read()
    try:
        done, text, ns, early = sagelike.run(src, {"p": p, "t": t})
    except (ZeroDivisionError, IndexError, KeyError, ValueError, AssertionError, OverflowError, UnboundLocalError) as e:
        last = traceback.extract_tb(e.__traceback__)[-1].filename
        if last == "script" or isinstance(e, ZeroDivisionError):
            return {"verdict": "violated", "message": "the script ends with %s: %s" % (type(e).__name__, e)}
        return {"verdict": "unknown", "message": "stand-in: %s: %s" % (type(e).__name__, e)}
    except Exception as e:
        return {"verdict": "unknown", "message": "stand-in: %s: %s" % (type(e).__name__, e)}
    rp, rt = ns.get("p"), ns.get("t")
    if not isinstance(rp, int) or not isinstance(rt, int):
        return {"verdict": "unknown", "message": "the script has no p and t"}
    rp, rt = int(rp), int(rt)
    if early and "from_hex(" not in text:
        return {"verdict": "refused", "p": rp, "t": rt, "message": text.strip()[-120:]}
    try:
        judge(text, rp, rt)
    except Bad as e:
        return {"verdict": "violated", "p": rp, "t": rt, "message": str(e)}
    m = re.search(r"Params::new\(\s*(\d+)\s*,\s*(\d+)\s*,\s*(\d+)\s*,\s*(\d+)", text)
    return {"verdict": "held", "p": rp, "t": rt, "degree": int(m.group(2)), "rounds": [int(m.group(3)), int(m.group(4))], "numbers": len(numbers(text))}


# ---------------------------------------------------------------- the search

def prime_near(n):
    sys.path.insert(0, HERE)
    import sagelike
    n |= 1
    while not sagelike.is_prime(n):
        n += 2
    return n


def draw(rng):
    """A prime of some size and shape and a width."""
    while True:
        k = rng.choice(("tiny", "tiny", "small", "word", "curve", "large", "large"))
        bits = {"tiny": rng.randint(5, 12), "small": rng.randint(13, 31), "word": rng.choice((32, 33, 61, 62, 63, 64, 65)),
                "curve": rng.randint(200, 260), "large": rng.choice((rng.randint(66, 140), rng.randint(66, 400)))}[k]
        shape = rng.randrange(4)
        if shape == 0:
            n = rng.getrandbits(bits) | 1 << (bits - 1)
        elif shape == 1:
            n = (1 << (bits - 1)) + rng.getrandbits(max(bits // 2 - 1, 1))     # just above a power of two
        elif shape == 2:
            n = (1 << bits) - 1 - rng.getrandbits(max(bits // 2 - 1, 1))       # just below one
        else:
            # p - 1 divisible by many small primes: larger degrees
            q = math.prod(rng.sample((3, 5, 7, 11, 13), rng.randint(1, 3)))
            n = None
            sys.path.insert(0, HERE)
            import sagelike
            for _ in range(4000):
                c = (rng.getrandbits(bits) | 1 << (bits - 1)) // (2 * q) * 2 * q + 1
                if c > 10 and sagelike.is_prime(c):
                    n = c
                    break
            if n is None:
                continue
        p = prime_near(n)
        if p < 11:
            continue
        small = p.bit_length() <= 70
        t = rng.choice((2, 3, 3, 4, 4, 8, 12) + ((12, 16) if small else (2, 3, 4, 8)))
        return p, t


def shrink(runner, p, t):
    """The smallest failing pair of a ladder."""
    ladder = [(q, w) for w in (2, 3, 4, 8, 12, 16) if w <= t for q in (11, 13, 23, 31, 101, 211, 257, 65537, 2013265921, 18446744069414584321) if q <= p]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for (q, w), r in zip(ladder, ex.map(lambda a: runner(*a), ladder)):
            if r["verdict"] == "violated":
                return q, w, r
    return None


def run(tier, seed, repo):
    scripts = sorted(glob.glob(os.path.join(repo, "*.sage")))
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "a case is one prime and width for which the script printed its tables and sample, all of which were compared "
           "(degree, rounds, every round constant, the internal matrix, the sample output); refused or undecided runs are not counted", "samples": [], "checks": {}}
    if not scripts:
        return cov, [], "no *.sage in %s" % repo
    script = scripts[0]

    def runner(p, t, limit=240):
        try:
            r = subprocess.run([sys.executable, "-B", os.path.abspath(__file__), "--one", script, str(p), str(t)], stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, timeout=limit)
            return json.loads(r.stdout)
        except subprocess.TimeoutExpired:
            if t <= 4:
                return {"verdict": "violated", "p": p, "t": t, "message": "prints nothing within %d s" % limit}
            return {"verdict": "unknown", "message": "no result within %d s" % limit}
        except ValueError:
            return {"verdict": "unknown", "message": "the run ended without a result"}
    t0 = time.time()
    budget = 100 if tier == "quick" else 2700
    rng = random.Random("C24-%d" % seed)
    profiles = {}

    def novel():
        """Of several draws the one whose degree and round numbers have been seen least."""
        best = None
        for _ in range(8):
            p, t = draw(rng)
            d = smallest_degree(p)
            r = rounds(p, t, d, 0)
            k = profiles.get(r, 0) + profiles.get((t, d), 0) / 4
            if best is None or k < best[0]:
                best = (k, p, t, r, (t, d))
        for k in best[3:]:
            profiles[k] = profiles.get(k, 0) + 1
        return best[1:3]
    seen, count, failures, notes = set(), {"held": 0, "refused": 0, "unknown": 0, "violated": 0}, [], []
    cases = [(FIELDS[f], t) for f, t in sorted(SHIPPED, key=lambda a: -a[1])]

    def source():
        yield from cases
        while time.time() - t0 < budget:
            yield novel()
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        src, pending = source(), {}
        stop = False
        while True:
            while not stop and len(pending) < 8:
                c = next(src, None)
                if c is None:
                    stop = True
                    break
                pending[ex.submit(runner, *c)] = c
            if not pending:
                break
            done, _ = concurrent.futures.wait(pending, return_when=concurrent.futures.FIRST_COMPLETED)
            for f in done:
                c, r = pending.pop(f), f.result()
                count[r["verdict"]] += 1
                if r["verdict"] == "held":
                    k = (r["p"], r["t"])
                    if k not in seen:
                        seen.add(k)
                        if len(cov["samples"]) < 12:
                            cov["samples"].append({"p": str(r["p"]), "t": r["t"], "degree": r["degree"], "rounds": r["rounds"], "numbers": r["numbers"]})
                elif r["verdict"] == "refused":
                    if c in cases:
                        failures.append((c, dict(r, message="refuses to print parameters for a shipped field and width: " + r["message"])))
                elif r["verdict"] == "unknown":
                    notes.append(r["message"])
                else:
                    failures.append(((r.get("p", c[0]), r.get("t", c[1])), r))
            if failures or len(notes) >= 24:
                stop = True
    total = sum(count.values())
    if not failures and count["refused"] * 2 > total:
        failures.append((cases[-1], {"message": "refuses to print parameters in %d of %d cases" % (count["refused"], total)}))
    cov["evaluations"] = total
    cov["distinct_nontrivial"] = len(seen)
    cov["checks"] = {"script": dict(count, notes=sorted(set(notes))[:5])}
    res = []
    for (p, t), r in failures[:1]:
        s = shrink(runner, p, t)
        if s:
            p, t, r = s
        res.append({"property": "C24", "profile": "script", "check": "printed parameters", "p": str(p), "t": t,
                    "message": "for the prime %d and width %d the script %s" % (p, t, r["message"])})
    return cov, res, "; ".join(sorted(set(notes))[:3])


def replay(f, repo):
    scripts = sorted(glob.glob(os.path.join(repo, "*.sage")))
    r = subprocess.run([sys.executable, "-B", os.path.abspath(__file__), "--one", scripts[0], f["p"], str(f["t"])], stdout=subprocess.PIPE)
    print(r.stdout.decode().strip())
    return 1 if json.loads(r.stdout)["verdict"] != "held" else 0


if __name__ == "__main__" and sys.argv[1:2] == ["--one"]:
    print(json.dumps(one(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))))
