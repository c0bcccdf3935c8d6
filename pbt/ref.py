"""Independent reference computations (plain numpy, straight from the definitions)."""
import math

import numpy

from .core import check


# ---------------------------------------------------------------------- comparison

def close(a, b, rtol=1e-6, atol=1e-9):
    a, b = numpy.asarray(a, dtype=float), numpy.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    both_nan = numpy.isnan(a) & numpy.isnan(b)
    return bool(numpy.all(both_nan | (numpy.abs(a - b) <= atol + rtol * numpy.abs(b))))


def same(a, b, what, rtol=1e-6, atol=1e-9):
    a, b = numpy.asarray(a, dtype=float), numpy.asarray(b, dtype=float)
    check(a.shape == b.shape, '%s: shapes %s and %s differ', what, a.shape, b.shape)
    if close(a, b, rtol, atol):
        return
    with numpy.errstate(all='ignore'):
        bad = ~((numpy.isnan(a) & numpy.isnan(b)) | (numpy.abs(a - b) <= atol + rtol * numpy.abs(b)))
    idx = tuple(int(x[0]) for x in numpy.nonzero(bad)) if a.ndim else ()
    check(False, '%s: at %s got %r, expected %r (%d of %d entries differ)', what, idx, float(a[idx]), float(b[idx]),
          int(bad.sum()), bad.size)


def within(a, lo, hi, what, rtol=1e-6, atol=1e-9):
    a, lo, hi = [numpy.asarray(x, dtype=float) for x in (a, lo, hi)]
    check(a.shape == lo.shape, '%s: shapes %s and %s differ', what, a.shape, lo.shape)
    ok = (a >= lo - atol - rtol * numpy.abs(lo)) & (a <= hi + atol + rtol * numpy.abs(hi))
    if not ok.all():
        idx = tuple(int(x[0]) for x in numpy.nonzero(~ok))
        check(False, '%s: at %s got %r, expected between %r and %r (%d of %d entries differ)', what, idx,
              float(a[idx]), float(lo[idx]), float(hi[idx]), int((~ok).sum()), ok.size)


# ---------------------------------------------------------------------- time origins

def block_size(steps):
    """Number of frames after which the gaps between steps repeat (1: even, len: not periodic).

    Mirrors the documented notion used by atooms for block-periodic trajectories."""
    if len(steps) < 2:
        return 1
    gaps = [b - a for a, b in zip(steps[:-1], steps[1:])]
    old = 0
    for i, g in enumerate(gaps):
        if g < old and g == gaps[0]:
            return i
        old = g
    return 1 if gaps[0] == gaps[-1] else len(steps)


def skip(steps, norigins, n_particles=1):
    """Interval between time origins (frames)."""
    bs = block_size(steps)
    nbl = len(steps) // bs
    if norigins is None:
        out = int(len(steps) * n_particles / 40000) if bs == 1 else bs
    else:
        x = float(norigins)
        if x < 0:
            out = bs
        elif x == 1:
            out = len(steps)
        elif x > 1:
            out = int(nbl / x) * bs
        else:
            out = int(1 / x) * bs
    return min(len(steps), max(bs, out))


def lag_origins(steps, norigins, n_particles=1):
    """Map each available lag (in steps) to the list of (i0, i1) frame pairs that realise it.

    Origins of a lag are the frames spaced by the origin interval, starting from the first frame of the
    block from which this lag exists.  For evenly spaced and block-periodic steps only."""
    bs, sk = block_size(steps), skip(steps, norigins, n_particles)
    single = norigins is not None and float(norigins) == 1
    out = {}
    for off in ([0] if single else range(bs)):
        if off >= len(steps):
            break
        for j in range(off, len(steps)):
            lag = steps[j] - steps[off]
            if lag in out:
                continue
            out[lag] = [(i0, i0 + j - off) for i0 in range(off, len(steps) - (j - off), sk)]
    return out


def is_regular(steps):
    """Even spacing or exact block periodicity (the domain in which lags are uniquely defined)."""
    bs = block_size(steps)
    if bs >= len(steps):
        return len(steps) < 3
    gaps = [b - a for a, b in zip(steps[:-1], steps[1:])]
    return all(gaps[i] == gaps[i % bs] for i in range(len(gaps)))


def requested_lags(steps, dt, grid, available):
    """The available lag (in steps) closest to each requested time, as the documentation promises."""
    out = set()
    for t in grid:
        x = int(round(t / dt))
        out.add(min(sorted(available), key=lambda s: abs(s - x)))
    return sorted(out)


# ---------------------------------------------------------------------- geometry

def min_image(r, side):
    """Minimum-image vector for positions anywhere (search over images; exact for orthorhombic cells)."""
    return r - side * numpy.round(r / side)


def pair_distances(x, y, side, self_pairs):
    """Distances of all pairs (i<j if x is y and not self_pairs...)."""
    if len(x) == 0 or len(y) == 0:
        return numpy.zeros(0)
    d = min_image(x[:, None, :] - y[None, :, :], side)
    r = numpy.sqrt((d**2).sum(axis=2))
    if self_pairs == 'half':
        iu = numpy.triu_indices(len(x), 1)
        return r[iu]
    return r.ravel()


def hist_bounds(values, edges, eps=1e-9):
    """Lower and upper bound of the histogram counts when values within eps of an edge may go either way."""
    values = numpy.sort(numpy.asarray(values, dtype=float))
    edges = numpy.asarray(edges, dtype=float)
    below = numpy.searchsorted(values, edges - eps, 'left')         # values < edge - eps
    upto = numpy.searchsorted(values, edges + eps, 'right')         # values <= edge + eps
    lo = numpy.maximum(0, below[1:] - upto[:-1]).astype(float)
    hi = (upto[1:] - below[:-1]).astype(float)
    return lo, hi


def shell_volume(edges, dim):
    e = numpy.asarray(edges, dtype=float)
    unit = {1: 2.0, 2: math.pi, 3: 4. / 3. * math.pi, 4: math.pi**2 / 2, 5: 8. / 15 * math.pi**2, 6: math.pi**3 / 6}[dim]
    return unit * (e[1:]**dim - e[:-1]**dim)


# ---------------------------------------------------------------------- Fourier space

def rho_k(pos, kvec, weight=None):
    if len(pos) == 0:
        return 0j
    phase = numpy.exp(1j * (pos @ numpy.asarray(kvec, dtype=float)))
    return phase.sum() if weight is None else (numpy.asarray(weight) * phase).sum()


def integer_vectors(side, kmax):
    """All (integer vector, norm) with norm below kmax."""
    k0 = 2 * math.pi / numpy.asarray(side, dtype=float)
    ranges = [range(-int(kmax / k) - 1, int(kmax / k) + 2) for k in k0]
    grids = numpy.meshgrid(*[numpy.array(r) for r in ranges], indexing='ij')
    ints = numpy.stack([g.ravel() for g in grids], axis=1)
    norm = numpy.sqrt(((ints * k0)**2).sum(axis=1))
    return ints, norm
