"""Truncated exponential convolution: recurrence, adjoint, in place, strides, precisions."""
import numpy as np

from engine.runner import Harness


def layout(a, how):
    """The values of `a` in an array with the requested memory layout."""
    if how == 'c':
        return a.copy(), None
    if how == 'pad':           # rows separated by memory that is not part of the signal
        big = np.full((a.shape[0], a.shape[1] + 2), -77, a.dtype)
        big[:, :a.shape[1]] = a
        return big[:, :a.shape[1]], big
    big = np.full((a.shape[0] * 2, a.shape[1]), -77, a.dtype)     # 'skip': every other row
    big[::2] = a
    return big[::2], big


def padding(env, big, how, nt, label):
    if big is None:
        return
    rest = big[:, nt:] if how == 'pad' else big[1::2]
    env.true(bool(np.all(rest == -77)), label)


def response(env, tau, nt):
    """Dense matrix of the response of one row."""
    d = [[0] * nt for _ in range(nt)]
    if not isinstance(tau, (int, float)):
        w = env.fn('exp', -1 / tau)
        v = 1 - w
    else:
        w, v = 0, 1
    for i in range(nt):
        for j in range(i + 1):
            c = 1 if j == 0 else v
            for _ in range(i - j):
                c = c * w
            d[i][j] = c
    return d


def taus(env, ntau, zeros):
    out = []
    for i in range(ntau):
        if zeros and env.bool(f'null{i}'):
            out.append(0)
            continue
        s = env.real(f'rate{i}')
        env.assume(s > 0)
        out.append(1 / s)
    return out


def apply(env, dt, shape, ntau, transposed, inplace, li, lo, nthreads):
    from pysimulators.operators import ConvolutionTruncatedExponentialOperator
    env.threads(nthreads)
    nd, nt = shape if len(shape) == 2 else (1,) + shape
    tau = taus(env, ntau, True)
    ta = env.arr(tau, dt)
    if ntau == 1 and len(shape) == 1:
        ta = ta.reshape(())
    if env.symbolic:
        op = ConvolutionTruncatedExponentialOperator(ta)
    else:
        # (exp(-1/tau) of the model is arbitrary: use a moderate time constant)
        op = ConvolutionTruncatedExponentialOperator(ta)
    if transposed:
        op = op.T
    x = [env.real(f'x{i}') for i in range(nd * nt)]
    xa, xbig = layout(env.arr(x, dt).reshape(shape), li)
    if inplace:
        got = xa
        op(xa, xa)
    else:
        o = np.full(shape, -55, dt)
        got, obig = layout(o, lo)
        op(xa, got)
        env.eq(xa, x, 'input unchanged', tol=1e-4)
        padding(env, obig, lo, nt, 'memory between the rows of the output unchanged')
    padding(env, xbig, li, nt, 'memory between the rows of the input unchanged')
    want = []
    got = env.vals(got)
    for r in range(nd):
        t = tau[r if ntau > 1 else 0]
        d = response(env, t, nt)
        row = x[r * nt:(r + 1) * nt]
        for i in range(nt):
            want.append(sum((d[j][i] if transposed else d[i][j]) * row[j] for j in range(nt)))
        if transposed and not isinstance(t, int):    # (the implementation divides the first sample by v > 0)
            v = 1 - env.fn('exp', -1 / t)
            got[r * nt] = got[r * nt] * v
            want[r * nt] = want[r * nt] * v
    env.eq(got, want, 'transposed response' if transposed else 'response', tol=1e-4)


def constant(env, dt, nd, nt, ntau, inplace):
    """A constant signal is unchanged."""
    from pysimulators.operators import ConvolutionTruncatedExponentialOperator
    tau = taus(env, ntau, False)
    op = ConvolutionTruncatedExponentialOperator(env.arr(tau, dt))
    c = env.real('c')
    xa = env.arr([c] * (nd * nt), dt).reshape(nd, nt)
    if inplace:
        op(xa, xa)
        got = xa
    else:
        got = op(xa)
    env.eq(got, [c] * (nd * nt), 'constant signal', tol=1e-4)


def wrong_taus(env, nd, ntau):
    """As many time constants as rows, or one."""
    from pysimulators.operators import ConvolutionTruncatedExponentialOperator
    op = ConvolutionTruncatedExponentialOperator(np.ones(ntau))
    x = np.zeros((nd, 2))
    env.raises(ValueError, lambda: op(x), 'number of time constants')


def _apply(tier):
    out = []
    n = 6 if tier == 'quick' else 10
    for dt in ('float32', 'float64'):
        for tr in (False, True):
            for k in range(1, n + 1):
                for ip in (False, True):
                    out.append((dt, (k,), 1, tr, ip, 'c', 'c', 1))
            for ip in (False, True):
                for sh in ((2, 3), (3, 2), (1, 3)):
                    for ntau in {1, sh[0]}:
                        for nth in (1, 2):
                            for li in ('c', 'pad', 'skip'):
                                for lo in ('c',) if ip else ('c', 'pad', 'skip'):
                                    if nth == 2 and (li != lo or sh == (1, 3)):
                                        continue
                                    out.append((dt, sh, ntau, tr, ip, li, lo, nth))
    return out


HARNESSES = [
    Harness('apply', apply, _apply, 'up to 6 samples in one row (thorough: 10), 2x3, 3x2 and 1x3, row strides, 1 or 2 threads'),
    Harness('constant', constant, [(dt, nd, nt, ntau, ip) for dt in ('float32', 'float64') for nd, nt in ((1, 4), (3, 3))
                                   for ntau in {1, nd} for ip in (False, True)], 'up to 3x3'),
    Harness('wrong_taus', wrong_taus, [(nd, nt) for nd in (1, 2, 3) for nt in (1, 2, 3, 4) if nt not in (1, nd)],
            'up to 3 rows, 4 time constants'),
]
