"""helpers shared by the checks"""


def words(k, n):
    """de Bruijn sequence: a cyclic sequence over 0..k-1 in which every word of length n occurs exactly once"""
    a, out = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1:p + 1])
            return
        a[t] = a[t - p]
        db(t + 1, p)
        for j in range(a[t - p] + 1, k):
            a[t] = j
            db(t + 1, t)
    db(1, 1)
    return out


def forms(x):
    """(name, array, indices into x): the values of the 1D float array x in every memory layout, and in large arrays"""
    import numpy as np
    n = len(x)
    idx = np.arange(n)
    ro = x.copy()
    ro.flags.writeable = False
    yield "read-only", ro, idx
    yield "reversed", x[::-1], idx[::-1]
    yield "strided", np.repeat(x, 3)[::3], idx
    two = np.resize(idx, (6, (n + 5) // 6 + 1))
    yield "2D", x[two], two
    yield "transposed", np.ascontiguousarray(x[two]).T, two.T
    yield "Fortran", np.asfortranarray(x[two]), two
    yield "3D", x[two].reshape(2, 3, -1), two.reshape(2, 3, -1)
    yield "one", x[:1], idx[:1]
    for shape in ((70001,), (300, 270), (2, 33000), (1030, 66)):
        big = np.resize(idx, shape)
        yield f"size {shape}", x[big], big


def elementwise(ctx, f, x, key, tol=1e-12, want=None, skip=(), ints=True):
    """f gives every value the same result in every layout and size (tolerance relative to the largest result; want: results, default f(x))"""
    import numpy as np
    want = np.asarray(f(x.copy())) if want is None else np.asarray(want)
    top = np.max(np.abs(want)) if want.size else 0
    for name, a, i in forms(x):
        if name in skip:
            continue
        keep = a.copy()
        got = np.asarray(f(a))
        ctx.op()
        ctx.check(got.shape == want[i].shape and np.all(np.abs(got - want[i]) <= tol * top), key, lambda: f"{name}: other results than for the same values in a plain array (shape {got.shape})")
        ctx.check(np.array_equal(a, keep), key + "-argument", lambda: f"{name}: argument modified")
    whole = np.round(x)
    if ints and len(set(whole)) > 1:
        for t in (np.int64, np.int32):
            a, b = f(whole), f(whole.astype(t))
            ctx.check(np.allclose(a, b, rtol=1e-9, atol=1e-12 * top), key + "-integers", lambda: f"{t.__name__}: {b} != {a}")
    ctx.state(want)
