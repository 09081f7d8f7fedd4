"""What is painted on matplotlib figures."""
import matplotlib
import matplotlib.pyplot as plt
from common import Malformed


def figures():
    return [plt.figure(n) for n in plt.get_fignums()]


def rects(ax):
    """every rectangle painted on the axes: (x, y, w, h, colour)"""
    out = []

    def add(vs, fc):
        xs, ys = sorted({round(float(v[0]), 6) for v in vs}), sorted({round(float(v[1]), 6) for v in vs})
        if len(xs) > 2 or len(ys) > 2:
            raise Malformed('not a rectangle')
        out.append((xs[0], ys[0], xs[-1] - xs[0], ys[-1] - ys[0], matplotlib.colors.to_hex(fc)))
    for col in ax.collections:
        fcs = col.get_facecolor()
        for i, p in enumerate(col.get_paths()):
            add(p.vertices, fcs[i % len(fcs)])
    for p in ax.patches:
        add(p.get_patch_transform().transform_path(p.get_path()).vertices, p.get_facecolor())
    return out


def legend(ax):
    leg = ax.get_legend()
    if leg is None:
        return []
    hs = getattr(leg, 'legend_handles', None) or getattr(leg, 'legendHandles')
    return [(t.get_text(), matplotlib.colors.to_hex(h.get_facecolor())) for t, h in zip(leg.get_texts(), hs)]


def whole(x):
    if abs(x - round(x)) > 1e-6:
        raise Malformed('coordinate %r' % x)
    return int(round(x))
