from run import close, raises


class M:
    def __init__(self, v):
        self.score_val = v


def run(b):
    from viqa import fuse_metrics_linear_combination as fuse

    for n in list(range(0, 9)) + [17, 40]:
        for _ in range(4):
            s, w = b.rng.normal(size=n) * 10, b.rng.normal(size=n)
            b.case("weighted sum", lambda: close(fuse([M(float(x)) for x in s], [float(x) for x in w]), float((s * w).sum())),
                   scores=s, weights=w)
        for m in (n - 1, n + 1, n + 3):
            if m >= 0:
                b.case("unequal lengths", lambda: raises(ValueError, fuse, [M(1.0)] * n, [1.0] * m), n=n, m=m)
