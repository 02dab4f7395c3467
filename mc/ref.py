"""Reference model: scalar, plain Python, written from the documentation."""
import datetime as dt
import math

NAN = float('nan')


# corrections --------------------------------------------------------------
ELL = {'median': (4.01, 0.55, -0.92), 'gaussian': (4.41, 0.51, -0.95)}
HARM = {
    ('ampere', 'median'): (3.31000535, ((1, -0.5452934, -1.24389141,
                                         2.42619653, -0.66677988),
                                        (2, -1.03467488, -0.30763009,
                                         0.52426756, 0.04359299),
                                        (3, 0.60201848, 0.50618522,
                                         1.04360529, 0.25186405))),
    ('ampere', 'gaussian'): (3.80100827, ((1, 0.98555723, -3.43760943,
                                           1.85084271, -0.36730751),
                                          (2, -0.81975654, -1.02823832,
                                           1.30637288, -0.53599218),
                                          (3, 0.40380183, -1.22462708,
                                           -1.2733629, -0.62743381))),
    ('si12', 'ocb'): (0.0405, ((1, -1.5078, 1.0, 0.5095, 1.0),
                               (2, 0.9371, 1.0, 0.0708, 1.0))),
    ('si12', 'eab'): (-0.1447, ((1, -1.9779, 1.0, 2.6799, 1.0),
                                (2, 0.5778, 1.0, -1.2297, 1.0))),
    ('si13', 'ocb'): (0.5797, ((1, -0.6837, 1.0, -0.5020, 1.0),
                               (2, 0.2971, 1.0, -0.4173, 1.0))),
    ('si13', 'eab'): (0.2500, ((1, -2.9931, 1.0, 0.8818, 1.0),
                               (2, 0.8511, 1.0, -0.6300, 1.0))),
    ('wic', 'ocb'): (1.0298, ((1, -1.1249, 1.0, -0.7380, 1.0),
                              (2, 0.1838, 1.0, -0.6171, 1.0))),
    ('wic', 'eab'): (-0.4935, ((1, -2.1186, 1.0, 0.3188, 1.0),
                               (2, 0.5749, 1.0, -0.3118, 1.0)))}


def ang(mlt):
    return mlt * math.pi / 12.0


def circular(mlt, r_add=0.0):
    return r_add


def elliptical(mlt, instrument='ampere', method='median'):
    if instrument.lower() != 'ampere' or method.lower() not in ELL:
        raise ValueError('unknown')
    a, e, t = ELL[method.lower()]
    return -a * (1.0 - e * e) / (1.0 + e * math.cos(ang(mlt) - t))


def harmonic(mlt, instrument='ampere', method='median'):
    key = (instrument.lower(), method.lower())
    if key not in HARM:
        raise ValueError('unknown')
    const, terms = HARM[key]
    tot = const
    for n, ca, cp, sa, sp in terms:
        tot += ca * math.cos(n * (ang(mlt) + cp))
        tot += sa * math.sin(n * (ang(mlt) + sp))
    return -tot


# single boundary ----------------------------------------------------------
class Bound(object):
    """One boundary record."""

    def __init__(self, r, phi, rc, hemi, blat, corr=None):
        self.r, self.phi, self.rc = r, phi, rc
        self.hemi, self.blat = hemi, blat
        self.corr = corr or (lambda mlt: 0.0)
        self.xc = rc * math.cos(math.radians(phi))
        self.yc = rc * math.sin(math.radians(phi))

    def normal(self, lat, mlt):
        """-> ocb_lat, ocb_mlt, r_corr"""
        if lat != lat or mlt != mlt or sign(lat) != self.hemi:
            return NAN, NAN, NAN
        rad = 90.0 - self.hemi * lat
        corr = self.corr(mlt)
        scale = (90.0 - abs(self.blat)) / (self.r + corr)
        xn = (rad * math.cos(ang(mlt)) - self.xc) * scale
        yn = (rad * math.sin(ang(mlt)) - self.yc) * scale
        return (self.hemi * (90.0 - math.hypot(xn, yn)),
                math.atan2(yn, xn) * 12.0 / math.pi % 24.0, corr)

    def revert(self, olat, omlt, corr):
        if olat != olat or omlt != omlt or corr != corr \
           or sign(olat) != self.hemi:
            return NAN, NAN
        rad = 90.0 - self.hemi * olat
        scale = (self.r + corr) / (90.0 - abs(self.blat))
        xp = rad * math.cos(ang(omlt)) * scale + self.xc
        yp = rad * math.sin(ang(omlt)) * scale + self.yc
        return (self.hemi * (90.0 - math.hypot(xp, yp)),
                math.atan2(yp, xp) * 12.0 / math.pi % 24.0)

    def edge(self, mlt):
        """Magnetic latitude of the boundary at a local time (positive root)
        or NaN."""
        if mlt != mlt:
            return NAN
        dm = ang(mlt) - math.radians(self.phi)
        sr = self.r + self.corr(mlt)
        disc = sr * sr - (self.rc * math.sin(dm))**2
        if disc < 0.0:
            return NAN
        rad = self.rc * math.cos(dm) + math.sqrt(disc)
        if rad < 0.0:
            return NAN
        return self.hemi * (90.0 - rad)


def sign(val):
    return int(val > 0) - int(val < 0)


class Dual(object):
    def __init__(self, ob, eb):
        self.ob, self.eb = ob, eb

    def region(self, lat, mlt):
        """0 polar cap, 1 auroral, 2 sub-auroral, None undefined"""
        o, e = self.ob.edge(mlt), self.eb.edge(mlt)
        return o, e

    def normal(self, lat, mlt):
        """-> bound_lat, bound_mlt, ocb_lat, r_corr, region, margin"""
        olat, omlt, corr = self.ob.normal(lat, mlt)
        if olat != olat:
            return NAN, NAN, NAN, NAN, None, 1.0
        o, e = abs(self.ob.edge(mlt)), abs(self.eb.edge(mlt))
        a = abs(lat)
        bo, be = abs(self.ob.blat), abs(self.eb.blat)
        hh = self.ob.hemi
        margin = min(abs(a - o), abs(a - e))
        if a < e:
            return hh * be * a / e, omlt, olat, corr, 2, margin
        if a < o:
            return (hh * (be + (a - e) * (bo - be) / (o - e)), omlt, olat,
                    corr, 1, margin)
        if abs(olat) >= bo - 1.0e-8:
            return olat, omlt, olat, corr, 0, margin
        return NAN, omlt, olat, corr, None, margin

    def radii(self, blat, mlt, corr):
        """-> scaled, unscaled of the region of a bound_lat"""
        bo, be = abs(self.ob.blat), abs(self.eb.blat)
        o, e = abs(self.ob.edge(mlt)), abs(self.eb.edge(mlt))
        b = abs(blat)
        if b != b or b >= bo:
            return 90.0 - bo, self.ob.r + corr
        if b >= be:
            return bo - be, abs(o - e)
        return be, e


# sphere -------------------------------------------------------------------
def unit(lat, lon):
    cl = math.cos(math.radians(lat))
    return (cl * math.cos(math.radians(lon)), cl * math.sin(math.radians(lon)),
            math.sin(math.radians(lat)))


def dot(a, b):
    return sum(p * q for p, q in zip(a, b))


def axes(lat, lon):
    """north, east unit vectors"""
    la, lo = math.radians(lat), math.radians(lon)
    north = (-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo),
             math.cos(la))
    east = (-math.sin(lo), math.cos(lo), 0.0)
    return north, east


def bearing(lat, lon, plat, plon):
    """Angle (rad, clockwise from north) of the direction to a point."""
    north, east = axes(lat, lon)
    targ = unit(plat, plon)
    return math.atan2(dot(targ, east), dot(targ, north))


def rotate(vn, ve, lat, mlt, plat, pmlt):
    """Components relative to the direction towards the pole (plat, pmlt) and
    90 degrees clockwise of it."""
    bear = bearing(lat, mlt * 15.0, plat, pmlt * 15.0)
    return (vn * math.cos(bear) + ve * math.sin(bear),
            -vn * math.sin(bear) + ve * math.cos(bear))


# selection ----------------------------------------------------------------
def good(rec_vals, fom, lo, hi, criteria):
    """Is a record selected?"""
    if not (fom >= lo and fom <= hi):
        return False
    for key, (kind, lim) in criteria.items():
        if key not in rec_vals:
            continue
        val = rec_vals[key]
        if kind == 'min' and not val > lim:
            return False
        if kind == 'mineq' and not val >= lim:
            return False
        if kind == 'max' and not val < lim:
            return False
        if kind == 'maxeq' and not val <= lim:
            return False
        if kind == 'equal' and not val == lim:
            return False
    return True


def scan(good_times, data, tol):
    """Reference for scanning ordered data against ordered good boundaries:
    each datum is paired with the (first) nearest good boundary within tol."""
    out = []
    for i, t in enumerate(data):
        best = None
        for ind, bt in good_times:
            diff = abs((bt - t).total_seconds())
            if diff <= tol and (best is None or diff < best[0]):
                best = (diff, ind)
        if best is not None:
            out.append((i, best[1]))
    return out
