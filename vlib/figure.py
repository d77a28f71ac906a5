"""What a drawn figure shows, read back from matplotlib and from the commands of an ipycanvas canvas."""
import contextlib

import matplotlib

matplotlib.use('Agg')
from matplotlib import colors as mcolors  # noqa: E402
from matplotlib import pyplot as plt  # noqa: E402

BLACK = '#000000'


def hexa(c):
    return mcolors.to_hex(c).upper()


def r6(x):
    v = round(float(x), 6)
    return int(v) if v == int(v) else v


class Shown:
    """a figure left open"""

    def __init__(self, fig):
        self.fig = fig
        self.axes = list(fig.axes)
        self.ax = fig.axes[0]

    def rects(self, ax=None):
        """(x0, y0, x1, y1, color), in painting order"""
        ax = ax or self.ax
        out = []
        for a in sorted(ax.collections + ax.patches, key=lambda a: a.get_zorder()):
            if hasattr(a, 'get_paths') and hasattr(a, 'get_facecolors'):
                fcs = a.get_facecolors()
                for i, p in enumerate(a.get_paths()):
                    v = p.vertices
                    out.append((r6(v[:, 0].min()), r6(v[:, 1].min()), r6(v[:, 0].max()), r6(v[:, 1].max()), hexa(fcs[i % len(fcs)])))
            else:
                b = a.get_bbox()
                out.append((r6(b.x0), r6(b.y0), r6(b.x1), r6(b.y1), hexa(a.get_facecolor())))
        return out

    def legend(self, ax=None):
        """[(text, color)], None without a legend"""
        lg = (ax or self.ax).get_legend()
        if lg is None:
            return None
        texts = [t.get_text() for t in lg.get_texts()]
        for t in lg.get_texts():
            if '$' in t.get_text() and t.get_parse_math():
                raise AssertionError(f'the legend entry {t.get_text()!r} is interpreted as a formula')
        hs = lg.legend_handles if hasattr(lg, 'legend_handles') else lg.legendHandles
        return list(zip(texts, [hexa(h.get_facecolor()) for h in hs])) if len(hs) == len(texts) else [(None, None)]

    def size(self):
        """the largest numbers on both axes"""
        out = []
        for axis in (self.ax.xaxis, self.ax.yaxis):
            labels = [axis.get_major_formatter()(t, i) for i, t in enumerate(axis.get_major_locator()())]
            out.append([(r6(t), l) for t, l in zip(axis.get_major_locator()(), labels) if l])
        return out


@contextlib.contextmanager
def figures():
    """collects figures which are open at the end of the block into the given list; closes everything"""
    plt.close('all')
    out = []
    try:
        yield out
        out.extend(Shown(plt.figure(n)) for n in plt.get_fignums() if plt.figure(n).axes)
    except BaseException:
        plt.close('all')
        raise


def close():
    plt.close('all')


def rows(rects, height, what, check):
    """{row: painted normal form [(x0, x1, color)]}; where rectangles overlap the later one is seen"""
    by = {}
    for x0, y0, x1, y1, c in rects:
        if x1 <= x0:
            continue
        check(y0 % height == 0 and y1 - y0 == height, f'{what}: a cell from {y0} to {y1} is not in a row of height {height}')
        by.setdefault(int(y0 // height), []).append((x0, x1, c))
    return {r: painted(v) for r, v in by.items()}


def painted(intervals):
    """the visible stretches (x0, x1, value) of intervals painted one after the other; adjacent equal ones are merged"""
    cuts = sorted({x for a, b, _ in intervals for x in (a, b)})
    out = []
    for a, b in zip(cuts, cuts[1:]):
        top = [v for x0, x1, v in intervals if x0 <= a and b <= x1]
        if not top:
            continue
        if out and out[-1][1] == a and out[-1][2] == top[-1]:
            out[-1] = (out[-1][0], b, top[-1])
        else:
            out.append((a, b, top[-1]))
    return out


def covered_twice(intervals):
    s = sorted((a, b) for a, b, *_ in intervals if b > a)
    return any(x[1] > y[0] for x, y in zip(s, s[1:]))


# ------------------------------------------------------------------------------------------------ canvases
import ipycanvas.canvas as ipc  # noqa: E402


class Recorded:
    """the commands a canvas gets"""

    def __init__(self):
        self.commands = {}

    def of(self, canvas):
        return self.commands.get(id(canvas), [])


NAMES = {v: k for k, v in ipc.COMMANDS.items()}


@contextlib.contextmanager
def recorded_canvases():
    rec = Recorded()
    rec.keep = []
    manager = type(ipc._CANVAS_MANAGER)
    saved = manager.send_command

    def send_command(self, canvas, command, buffers=[]):
        if isinstance(canvas, ipc._CanvasBase) or hasattr(canvas, 'sync_image_data'):
            if id(canvas) not in rec.commands:
                rec.keep.append(canvas)
            rec.commands.setdefault(id(canvas), []).append((NAMES.get(command[0], command[0]), command[1], buffers))
        return saved(self, canvas, command, buffers)

    manager.send_command = send_command
    try:
        yield rec
    finally:
        manager.send_command = saved


def _values(arg, buffers, n):
    if isinstance(arg, dict):
        import numpy as np
        return [float(x) for x in np.frombuffer(buffers[arg['idx']], dtype=arg['dtype'])]
    return [float(arg)] * n


class Painting:
    """what the commands paint"""

    def __init__(self, commands):
        self.rects, self.texts = [], []
        style = 'black'
        for name, args, buffers in commands:
            if name == 'set' and args[0] == 0:
                style = args[1]
            elif name == 'fillRect':
                x, y, w = args[:3]
                h = args[3] if len(args) > 3 else w
                self.rects.append((x, y, x + w, y + h, hexa(style)))
            elif name == 'fillRects':
                n = max([a['shape'][0] for a in args if isinstance(a, dict)] + [1])
                cols = [_values(a, buffers, n) for a in args]
                if len(cols) == 3:
                    cols.append(cols[2])
                self.rects += [(x, y, x + w, y + h, hexa(style)) for x, y, w, h in zip(*cols)]
            elif name == 'fillText':
                self.texts.append((args[0], args[1], args[2], hexa(style)))

    def color_at(self, x, y):
        for x0, y0, x1, y1, c in reversed(self.rects):
            if x0 <= x < x1 and y0 <= y < y1:
                return c
        return None

    def color_left_of(self, x, y, background='#FFFFFF'):
        """the first color other than the background to the left of a point"""
        while x >= 0:
            c = self.color_at(x, y)
            if c is not None and c != background:
                return c
            x -= 1
        return None
