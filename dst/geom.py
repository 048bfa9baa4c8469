"""Reference model of detector geometries: plain numbers, written and read independently of karabo_data."""
import re

import numpy as np

KINDS = {
    # cls, tiles per module, tile (ss, fs), module (ss, fs), pixel size
    'AGIPD': ('AGIPD_1MGeometry', 8, (64, 128), (512, 128), 2e-4),
    'LPD': ('LPD_1MGeometry', 16, (32, 128), (256, 256), 5e-4),
    'DSSC': ('DSSC_1MGeometry', 2, (128, 256), (128, 512), 236e-6),
}
HEX = 1.5 / 3 ** .5


def tile_start(kind, t):
    """Where the first pixel of a tile is in the data of its module (ss, fs)."""
    if kind == 'AGIPD':
        return 64 * t, 0
    if kind == 'DSSC':
        return 0, 256 * t
    return (32 * (7 - t), 0) if t < 8 else (32 * (t - 8), 128)


class Ref:
    """Corner of the first pixel, steps along slow and fast scan for each tile, in metres."""
    def __init__(self, kind, corner, ss, fs):
        self.kind, self.corner, self.ss, self.fs = kind, np.array(corner, float), np.array(ss, float), np.array(fs, float)
        _, self.nt, self.tile, self.mod, self.px = KINDS[kind]

    def positions(self, m, ss, fs, centre=None):
        """Positions of (fractional) coordinates in the data of module m."""
        out = []
        for i in range(len(m)):
            t, a, b = self.in_tile(ss[i], fs[i])
            out.append(self.corner[m[i], t] + a * self.ss[m[i], t] + b * self.fs[m[i], t])
        return np.array(out)

    def in_tile(self, ss, fs):
        h, w = self.tile
        for t in range(self.nt):
            a, b = tile_start(self.kind, t)
            if a <= ss < a + h and b <= fs < b + w:
                return t, ss - a, fs - b

    def pixel(self, m, ss, fs, centre):
        """Position of a pixel: of its first corner, or its centre."""
        t, a, b = self.in_tile(ss, fs)
        if self.kind == 'DSSC':      # odd rows are shifted by half a pixel
            b = b - .5 * (a % 2)
            if centre:
                a, b = a + 2 / 3, b + .5
        elif centre:
            a, b = a + .5, b + .5
        return self.corner[m, t] + a * self.ss[m, t] + b * self.fs[m, t]

    def shape2(self):
        return np.array([self.px, self.px * HEX if self.kind == 'DSSC' else self.px])

    def snapped(self):
        """Pixel grid: corner, steps per tile in whole pixels (x, y); None if the rounding is a close call."""
        c = self.corner[..., :2] / self.shape2()
        if (np.abs(np.abs(c - np.floor(c)) - .5) < 1e-4).any():
            return None
        s, f = (np.rint(v[..., :2] / self.shape2()).astype(int) for v in (self.ss, self.fs))
        return np.rint(c).astype(int), s, f

    def assemble(self, data, out=None):
        """(image, centre (y, x), how many tiles cover each pixel)."""
        sn = self.snapped()
        if sn is None:
            return None
        c, s, f = sn
        h, w = self.tile
        a, b = np.meshgrid(np.arange(h), np.arange(w), indexing='ij')
        where = []
        for m in range(16):
            for t in range(self.nt):
                # the pixel between steps n and n+1; in direction -1 that is the one below
                x = c[m, t, 0] + a * s[m, t, 0] + b * f[m, t, 0] + min(0, s[m, t, 0] + f[m, t, 0])
                y = c[m, t, 1] + a * s[m, t, 1] + b * f[m, t, 1] + min(0, s[m, t, 1] + f[m, t, 1])
                where.append((y, x))
        y0, x0 = min(y.min() for y, _ in where), min(x.min() for _, x in where)
        y1, x1 = max(y.max() for y, _ in where), max(x.max() for _, x in where)
        img = np.zeros(data.shape[:-3] + (y1 - y0 + 1, x1 - x0 + 1), data.dtype)
        if data.dtype.kind == 'f':
            img[...] = np.nan
        if out is not None:
            img = out
        cover = np.zeros(img.shape[-2:], 'i2')
        for i, (y, x) in enumerate(where):
            m, t = divmod(i, self.nt)
            p, q = tile_start(self.kind, t)
            img[..., y - y0, x - x0] = data[..., m, p:p + h, q:q + w]
            cover[y - y0, x - x0] += 1
        return img, (-y0, -x0), cover


def base(kind, quads, asic=None, panel=None):
    """Idealised geometry from positions of quadrants (in metres)."""
    _, nt, (h, w), _, px = KINDS[kind]
    C, S, F = np.zeros((16, nt, 3)), np.zeros((16, nt, 3)), np.zeros((16, nt, 3))
    for m in range(16):
        q, n = divmod(m, 4)
        X, Y = quads[q]
        for t in range(nt):
            if kind == 'AGIPD':
                sx, sy = (1, -1) if q < 2 else (-1, 1)
                C[m, t, :2] = X + sx * t * (64 * px + asic), Y - n * (128 * px + panel)
                S[m, t, 0], F[m, t, 1] = sx * px, sy * px
            elif kind == 'LPD':
                mx = X - (256 * px + asic + panel) * (n < 2)
                my = Y - (256 * px + 7 * asic + panel) * (n in (1, 2))
                tx = mx - (128 * px + asic) * (t < 8)
                ty = my - (32 * px + asic) * (t if t < 8 else 15 - t)
                C[m, t, :2] = tx - 128 * px, ty - 32 * px
                S[m, t, 1], F[m, t, 0] = px, px
            else:
                sx, sy = (-1, 1) if q < 2 else (1, -1)
                low = X + t * (256 * px + asic) * (1 if sx > 0 else -1) + (0 if sx > 0 else 256 * px + asic), Y + n * (128 * px * HEX + panel)
                C[m, t, :2] = low
                C[m, t, 0] += 256 * px if sx < 0 else 0
                C[m, t, 1] += 128 * px * HEX if sy < 0 else 0
                S[m, t, 1], F[m, t, 0] = sy * px * HEX, sx * px
    return Ref(kind, C, S, F)


def offsets(ref):
    """Positions of the tiles as in the XFEL geometry files (HDF5), in metres."""
    size = np.array([ref.px, ref.shape2()[1]]) * ref.tile[::-1]
    far = ref.corner + ref.ss * ref.tile[0] + ref.fs * ref.tile[1]
    return np.minimum(ref.corner, far)[..., :2] + (size if ref.kind == 'LPD' else 0)


VEC = re.compile(r'([+-]?)\s*(\d*\.?\d*)([xyz])')


def read_crystfel(text):
    """An independent reader of CrystFEL geometry files: (top level entries, panels)."""
    top, panels, dims = {}, {}, {}
    for line in text.splitlines():
        line = line.partition(';')[0].strip()
        k, eq, v = line.partition('=')
        if not eq:
            continue
        k, v = k.strip(), v.strip()
        p, slash, k2 = k.partition('/')
        if slash:
            panels.setdefault(p, {})[k2] = v
        else:
            top[k] = v
    return top, panels


def vector(s):
    out = [0., 0., 0.]
    left = VEC.sub('', s).strip()
    if left:
        raise ValueError('not a direction: %r' % s)
    for sign, n, ax in VEC.findall(s):
        out['xyz'.index(ax)] = float(n or 1) * (-1 if sign == '-' else 1)
    return out


def write_crystfel(ref, r):
    """A geometry file in another style than karabo_data's: positions to the last digit."""
    def num(x):
        s = '%.12f' % x
        return s

    def vec(v, short):
        parts = []
        for x, ax in zip(v, 'xyz'):
            if abs(x) < 1e-12 and ax == 'z':      # (cfelpyutils needs the others)
                continue
            parts.append(('+' if x > 0 else '-') + ax if short and abs(abs(x) - 1) < 1e-12 else '%+.12f' % x + ax)
        return ' '.join(parts)
    glob = r.random() < .5
    cat = r.random() < .5           # modules one after another along slow scan, or an axis of their own
    short = r.random() < .5
    lines = ['; written by a colleague', 'data = /entry_1/data_1/data', 'adu_per_eV = 0.0075', 'clen = %s ; m' % r.choice(['0.2', '5.5']),
             'photon_energy = 9300', 'dim0 = %']
    if glob:
        lines.append('res = %r ; pixels per metre' % (1 / ref.px))
    names = [(m, t) for m in range(16) for t in range(ref.nt)]
    if r.random() < .3:
        r.shuffle(names)
    for m, t in names:
        a, b = tile_start(ref.kind, t)
        h, w = ref.tile
        if cat:
            a += m * ref.mod[0]
        e = [] if glob else ['res = %r' % (1 / ref.px)]
        e += ['min_ss = %d' % a, 'max_ss = %d' % (a + h - 1), 'min_fs = %d' % b, 'max_fs = %d' % (b + w - 1),
              'ss = ' + vec(ref.ss[m, t] / ref.px, short), 'fs = ' + vec(ref.fs[m, t] / ref.px, short),
              'corner_x = ' + num(ref.corner[m, t, 0] / ref.px), 'corner_y = ' + num(ref.corner[m, t, 1] / ref.px)]
        if ref.corner[m, t, 2] or r.random() < .5:
            e.append('coffset = ' + num(ref.corner[m, t, 2]))
        e += ['dim1 = ss', 'dim2 = fs'] if cat else ['dim1 = %d' % m, 'dim2 = ss', 'dim3 = fs']
        if r.random() < .1:
            r.shuffle(e)
        lines += ['', '; panel'] + ['p%da%d/%s' % (m, t, x) for x in e]
    return '\n'.join(lines) + '\n'
