"""Input generators shared by the checks. Every function returns sessions:
lists of (name, [driver commands]); all randomness comes from the given rng."""
from math import isqrt


def iroot3(x):
    r = round(x ** (1 / 3))
    while r ** 3 > x:
        r -= 1
    while (r + 1) ** 3 <= x:
        r += 1
    return r


SMALL_PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97]


def is_prime(n):
    if n < 2:
        return False
    for p in SMALL_PRIMES:
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in SMALL_PRIMES[:12]:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def next_prime(n):
    n += 1
    while not is_prime(n):
        n += 1
    return n


def prev_prime(n):
    n -= 1
    while n >= 2 and not is_prime(n):
        n -= 1
    return n


def pi_small(n):
    return sum(1 for p in SMALL_PRIMES if p <= n)


def logu(rng, lo, hi):
    """log-uniform integer in [lo, hi]"""
    from math import log, exp
    return min(hi, max(lo, int(exp(rng.uniform(log(lo), log(hi + 1))))))


def env(rng, clock=True):
    """A random schedule, clock behaviour and machine size."""
    v = ["sched %d %d" % (rng.randrange(6) if rng.random() < 0.8 else 2, rng.randrange(1, 10 ** 6))]
    if v[0].startswith("sched 4"):
        v = ["sched 2 %d" % rng.randrange(1, 10 ** 6)]
    if clock:
        v.append("clock %d %d" % (rng.randrange(1, 7), rng.randrange(1, 10 ** 6)))
    return v


def forced(rng, sessions, part=0.6):
    """Most sessions with work shared among threads on small inputs already."""
    out = []
    for n, v in sessions:
        if rng.random() < part:
            v = ["force %d" % rng.choice([20, 50, 200, 1000]), "sched %d %d" % (rng.choice([0, 1, 2, 3, 5]), rng.randrange(1, 10 ** 6))] + v
        out.append((n, v))
    return out


def split(name, lines, n):
    """Distribute command lines over n sessions (round robin, order kept within each)."""
    r = [[] for _ in range(n)]
    for i, ln in enumerate(lines):
        r[i % n].append(ln)
    return [("%s/%d" % (name, i), v) for i, v in enumerate(r) if v]


def interesting_x(rng, lo, hi, n):
    """x next to perfect powers, primes, products of neighbouring primes, and random ones."""
    out = set()
    while len(out) < n:
        k = rng.randrange(8)
        b = logu(rng, max(lo, 2), hi)
        if k == 0:
            x = isqrt(b) ** 2 + rng.randrange(-2, 3)
        elif k == 1:
            x = iroot3(b) ** 3 + rng.randrange(-2, 3)
        elif k == 2:
            p = next_prime(isqrt(b))
            x = p * p + rng.randrange(-1, 2)
        elif k == 3:
            p = next_prime(isqrt(b))
            x = p * next_prime(p) + rng.randrange(-1, 2)
        elif k == 4:
            x = next_prime(b) - rng.randrange(0, 2)
        elif k == 5:
            x = (1 << max(1, b.bit_length() - 1)) + rng.randrange(-1, 2)
        elif k == 6:
            p = next_prime(iroot3(b))
            x = p * p * p + rng.randrange(-1, 2)
        else:
            x = b
        if lo <= x <= hi:
            out.add(x)
    return sorted(out)


def cs(rng, y, cmax=8):
    """c as the program chooses it (all primes <= y, at most 8), sometimes another legal value:
    the factor table and the wheel leave out multiples of 2, 3, 5 and 7, so c >= 4 or all of y."""
    c = min(pi_small(y), cmax)
    return rng.randrange(4, c + 1) if c > 4 and rng.random() < 0.35 else c


def ycs(rng, x, n, cmax=8):
    """Pairs (y, c) legal for the decomposition of x: x^(1/3) <= y <= sqrt(x)."""
    lo, hi = max(1, iroot3(x)), max(isqrt(x), 1)
    out = set()
    for _ in range(n * 3):
        if len(out) >= n:
            break
        k = rng.randrange(5)
        if k == 0:
            y = lo
        elif k == 1:
            y = hi
        elif k == 2:
            y = prev_prime(min(hi, lo * 3) + 1)
        else:
            y = logu(rng, lo, hi) if hi > lo else lo
        y = min(hi, max(lo, y, 1))
        out.add((y, cs(rng, y, cmax)))
    return sorted(out)
