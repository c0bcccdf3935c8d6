"""Reference angles between neighbours."""
import numpy

from . import ref
from .core import Reject

EPS = 1e-5


def histogram(d, fa, fb, ia, ib, same_group, rcut, edges, frames):
    """Bounds of the number of angles per bin, and of those in no bin."""
    lo, hi = numpy.zeros(len(edges) - 1), numpy.zeros(len(edges) - 1)
    most = 0
    for i in frames:
        for p in range(len(fa[i])):
            dist = fa[i][p][None] - fb[i]
            if len(dist) == 0:
                continue
            tie = numpy.abs(numpy.abs(dist) - d.sides[i] / 2) < 1e-9
            dist = ref.min_image(dist, d.sides[i])
            r = numpy.sqrt((dist**2).sum(axis=1))
            cut = numpy.array([rcut[ia[i][p]][s] for s in ib[i]])
            if (numpy.abs(r - cut) < 1e-9).any():
                raise Reject('a neighbour at the cutoff')
            near = (r < cut) & (r > 0)
            if tie[near].any():
                raise Reject('a neighbour at half a side has two images')
            if (near & (r < 1e-7)).any():
                raise Reject('almost coincident particles')
            u = dist[near] / r[near][:, None]
            most = max(most, len(u))
            if len(u) < 2:
                continue
            cosine = numpy.clip(u @ u.T, -1, 1)
            off = ~numpy.eye(len(u), dtype=bool)
            theta = numpy.degrees(numpy.arccos(cosine))[off]
            l, h = ref.hist_bounds(theta, edges, EPS)
            # everything starts at zero degrees
            extra = (theta <= edges[0] + EPS).sum()
            l[0] += extra
            lo += l
            hi += numpy.maximum(h, l)
    return lo, hi, most


def species_ids(d, groups, names):
    a = groups[0] if groups else None
    b = groups[1] if len(groups) > 1 else a
    out = []
    for g in (a, b):
        out.append([[names.index(d.species[k]) for k in range(d.counts[i]) if g is None or d.species[k] == g] for i in range(d.frames)])
    return out
