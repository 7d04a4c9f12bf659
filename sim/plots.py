"""What a plot shows, read from the figure (layout is stubbed out)."""
import numpy as np

_ready = [False]


def plt():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as p
    if not _ready[0]:
        p.tight_layout = lambda *a, **k: None
        _ready[0] = True
    return p


def curves(fig):
    """All curves of a figure, axes by axes, then close every figure."""
    out = [np.array(line.get_xydata(), dtype=float)
           for ax in fig.axes for line in ax.lines]
    close()
    return tuple(out)


def show(call, *a, **k):
    """Curves of every figure made by a plotting method."""
    p = plt()
    p.close('all')
    call(*a, **k)
    out = []
    for n in p.get_fignums():
        for ax in p.figure(n).axes:
            out += [np.array(line.get_xydata(), dtype=float)
                    for line in ax.lines]
    p.close('all')
    return tuple(out)


def close():
    plt().close('all')


class _Any:
    """Something that takes part in a drawing and shows nothing."""

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return self

    def __call__(self, *a, **k):
        return self


class _Sheet(_Any):
    """A figure and its axes: records circles and texts."""

    def __init__(self):
        self.seen = []

    def add_patch(self, patch):
        self.seen.append(tuple(float(v) for v in patch.center)
                         + (float(patch.radius),))
        return patch

    def add_subplot(self, *a, **k):
        return self

    def text(self, x, y, s, *a, **k):
        self.seen.append((float(x), float(y), float(s)))
        return self

    def plot(self, x, y, *a, **k):
        self.seen += [(float(p), float(q), 0.) for p, q in zip(x, y)]
        return [self]


class _Board(_Any):
    """matplotlib.pyplot that draws on a sheet."""

    def __init__(self):
        self.sheet = _Sheet()
        import matplotlib
        self.rcParams = matplotlib.rcParams

    def figure(self, *a, **k):
        return self.sheet

    def gca(self):
        return self.sheet

    def Circle(self, *a, **k):
        from matplotlib.patches import Circle
        return Circle(*a, **k)


def section(world, pipe):
    """What the cross-section view of a pipe shows."""
    mpl = world.mod('_mpl')
    real, mpl.plt = mpl.plt, _Board()
    try:
        pipe.visualize_pipes()
        return np.array(mpl.plt.sheet.seen)
    finally:
        mpl.plt = real
