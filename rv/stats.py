"""Chi-square tests in the standard library."""
import math


def gammq(a, x):
    """Regularised upper incomplete gamma function Q(a, x)."""
    if x <= 0:
        return 1.0
    if x < a + 1:
        term = total = 1.0 / a
        n = a
        for _ in range(10000):
            n += 1
            term *= x / n
            total += term
            if abs(term) < abs(total) * 1e-16:
                break
        return max(0.0, 1.0 - total * math.exp(-x + a * math.log(x) - math.lgamma(a)))
    b = x + 1 - a
    c = 1e300
    d = 1 / b
    h = d
    for i in range(1, 10000):
        an = -i * (i - a)
        b += 2
        d = an * d + b
        d = 1e-300 if abs(d) < 1e-300 else d
        c = b + an / c
        c = 1e-300 if abs(c) < 1e-300 else c
        d = 1 / d
        delta = d * c
        h *= delta
        if abs(delta - 1) < 1e-16:
            break
    return math.exp(-x + a * math.log(x) - math.lgamma(a)) * h


def chi_square(counts, probabilities, n, minimum=40.0):
    """p-value of the counts; cells with expectation below `minimum` are pooled."""
    stat, cells, pool_e, pool_o = 0.0, 0, 0.0, 0.0
    for k, p in probabilities.items():
        e, o = p * n, counts.get(k, 0)
        if e < minimum:
            pool_e += e
            pool_o += o
        else:
            stat += (o - e) ** 2 / e
            cells += 1
    if pool_e >= minimum:
        stat += (pool_o - pool_e) ** 2 / pool_e
        cells += 1
    elif pool_e > 0 and pool_o > pool_e + 60:
        return 0.0
    if cells < 2:
        return 1.0
    return gammq((cells - 1) / 2.0, stat / 2.0)
