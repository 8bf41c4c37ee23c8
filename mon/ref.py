"""independent reference semantics

Nothing in here uses the package under test: physical constants are written
out, formulas are taken from refractiveindex.info/about and the literature.
"""
import numpy as np

C0 = 299792458.0
H = 6.62607015e-34
QE = 1.602176634e-19
HC = H*C0/QE            # eV m
PI = float(np.pi)

# canonical (type, unit) -> accepted unit spellings (lower case)
UNITS = {
    ('wavelength', 'm'): ('meter', 'metre', 'm'),
    ('wavelength', 'cm'): ('centimeter', 'centimetre', 'cm'),
    ('wavelength', 'um'): ('micrometer', 'micrometre', 'um'),
    ('wavelength', 'nm'): ('nanometer', 'nanometre', 'nm'),
    ('wavelength', 'a'): ('a', 'angstrom'),
    ('frequency', 'hz'): ('hertz', 'hz'),
    ('energy', 'ev'): ('electronvolt', 'ev'),
    ('angularfrequency', '1/s'): ('1/s', 'rad/s'),
    ('wavenumber', '1/cm'): ('1/cm',),
}
PAIRS = tuple(UNITS)
SCALE = {'m': 1.0, 'cm': 1e-2, 'um': 1e-6, 'nm': 1e-9, 'a': 1e-10}
DISPLAY = {'m': 'm', 'cm': 'cm', 'um': u'\u03bcm', 'nm': 'nm', 'hz': 'Hz',
           'ev': 'eV', '1/s': '1/s', '1/cm': '1/cm', 'a': u'\u00c5'}
RTOL = 1e-9


def to_metre(pair, values):
    """any quantity -> wavelength in metre"""
    stype, unit = pair
    values = np.asarray(values, dtype=np.double)
    with np.errstate(all='ignore'):
        if stype == 'wavelength':
            return values*SCALE[unit]
        if stype == 'frequency':
            return C0/values
        if stype == 'energy':
            return HC/values
        if stype == 'angularfrequency':
            return 2*PI*C0/values
        if stype == 'wavenumber':
            return 2*PI/(values*100.0)
    raise KeyError(pair)


def from_metre(pair, values):
    """wavelength in metre -> any quantity"""
    stype, unit = pair
    values = np.asarray(values, dtype=np.double)
    with np.errstate(all='ignore'):
        if stype == 'wavelength':
            return values/SCALE[unit]
        if stype == 'frequency':
            return C0/values
        if stype == 'energy':
            return HC/values
        if stype == 'angularfrequency':
            return 2*PI*C0/values
        if stype == 'wavenumber':
            return 2*PI/(values*100.0)
    raise KeyError(pair)


def convert(src, dst, values):
    return from_metre(dst, to_metre(src, values))


def round_step(pair):
    """documented rounding steps of converted values, in the unit itself"""
    stype, unit = pair
    if stype == 'energy':
        return 1e-9
    if stype == 'wavelength':
        return 1e-15/SCALE[unit]
    return 0.0


def inverse_type(pair):
    return pair[0] != 'wavelength'


# --------------------------------------------------------------------------
# dispersion formulas
# --------------------------------------------------------------------------
def _terms(par, start, width):
    par = list(par)
    out = []
    pos = start
    while pos + width <= len(par):
        out.append(par[pos:pos+width])
        pos += width
    return out


def sellmeier(par, wl):
    acc = 1.0 + par[0] + 0*wl
    for bb, cc in _terms(par, 1, 2):
        acc = acc + bb*wl**2/(wl**2 - cc**2)
    return np.sqrt(acc)


def sellmeier2(par, wl):
    acc = 1.0 + par[0] + 0*wl
    for bb, cc in _terms(par, 1, 2):
        acc = acc + bb*wl**2/(wl**2 - cc)
    return np.sqrt(acc)


def polynomial(par, wl):
    acc = par[0] + 0*wl
    for bb, cc in _terms(par, 1, 2):
        acc = acc + bb*wl**cc
    return np.sqrt(acc)


def rii(par, wl):
    acc = par[0] + 0*wl
    for c1, c2, c3, c4 in _terms(par[:9], 1, 4):
        acc = acc + c1*wl**c2/(wl**2 - c3**c4)
    for bb, cc in _terms(par, 9, 2):
        acc = acc + bb*wl**cc
    return np.sqrt(acc)


def cauchy(par, wl):
    acc = par[0] + 0*wl
    for bb, cc in _terms(par, 1, 2):
        acc = acc + bb*wl**cc
    return acc


def gases(par, wl):
    acc = 1.0 + par[0] + 0*wl
    for bb, cc in _terms(par, 1, 2):
        acc = acc + bb/(cc - wl**-2.0)
    return acc


def herzberger(par, wl):
    ll = 1.0/(wl**2 - 0.028)
    return (par[0] + par[1]*ll + par[2]*ll**2 + par[3]*wl**2 +
            par[4]*wl**4 + par[5]*wl**6)


def retro(par, wl):
    rhs = par[0] + par[1]*wl**2/(wl**2 - par[2]) + par[3]*wl**2
    return np.sqrt((1 + 2*rhs)/(1 - rhs))


def exotic(par, wl):
    return np.sqrt(par[0] + par[1]/(wl**2 - par[2]) +
                   par[3]*(wl - par[4])/((wl - par[4])**2 + par[5]))


def drude(par, en):
    wp, ga = par
    return 1.0 - wp**2/(en**2 + 1j*ga*en)


def drude_lorentz(par, en):
    wp, ff, w0, ga = par
    return 1.0 + ff*wp**2/(w0**2 - en**2 - 1j*ga*en)


def tauc_lorentz_imag(par, en):
    aa, e0, cc, eg = par[:4]
    val = aa*e0*cc*(en - eg)**2/((en**2 - e0**2)**2 + cc**2*en**2)/en
    return np.where(en > eg, val, 0.0)


def tauc_lorentz_real(par, en):
    """numerical Kramers-Kronig transform, independent of closed forms

    eps1(E) = eps_inf + 2/pi P int_{Eg}^{inf} x eps2(x)/(x^2-E^2) dx
    """
    from scipy.integrate import quad
    aa, e0, cc, eg, einf = [float(p) for p in par]
    en = float(en)

    def eps2(xx):
        if xx <= eg:
            return 0.0
        return (aa*e0*cc*(xx - eg)**2 /
                ((xx**2 - e0**2)**2 + cc**2*xx**2)/xx)

    def regular(xx):
        return xx*eps2(xx)/((xx + en)*(xx - en))

    def numerator(xx):
        return xx*eps2(xx)/(xx + en)

    def pieces(low, high):
        cuts = [e0 - cc, e0, e0 + cc, 2*e0 + 2*cc, 10*(e0 + cc + eg + en)]
        pts = [low] + sorted(c for c in cuts if low < c < high) + [high]
        return sum(quad(regular, p0, p1, limit=400, epsabs=1e-13,
                        epsrel=1e-11)[0] for p0, p1 in zip(pts, pts[1:]))

    if en < eg:
        val = pieces(eg, np.inf)
    elif en == eg:
        val = pieces(eg*(1 + 1e-14), np.inf)
    else:
        half = min(en - eg, 0.25*cc)
        low, high = en - half, en + half
        val = quad(numerator, low, high, weight='cauchy', wvar=en,
                   limit=400)[0]
        if low > eg:
            val += pieces(eg, low)
        val += pieces(high, np.inf)
    return einf + 2/PI*val


MODELS_N = {'Sellmeier': sellmeier, 'Sellmeier2': sellmeier2,
            'Polynomial': polynomial, 'RefractiveIndexInfo': rii,
            'Cauchy': cauchy, 'Gases': gases, 'Herzberger': herzberger,
            'Retro': retro, 'Exotic': exotic}
MODELS_EPS = {'Drude': drude, 'DrudeLorentz': drude_lorentz}
FORMULA_NUMBER = {'Sellmeier': 1, 'Sellmeier2': 2, 'Polynomial': 3,
                  'RefractiveIndexInfo': 4, 'Cauchy': 5, 'Gases': 6,
                  'Herzberger': 7, 'Retro': 8, 'Exotic': 9}


def fano(par, en):
    qq, er, ga = par
    eps = 2*(en - er)/ga
    return (eps + qq)**2/(eps**2 + 1)/(1 + qq**2)


# --------------------------------------------------------------------------
# data parts and materials
# --------------------------------------------------------------------------
class RefConst:
    kind = 'const'

    def __init__(self, value, pair=('wavelength', 'm'), rng=(0.0, np.inf)):
        self.value = value
        self.pair = pair
        self.rng = rng

    def range_m(self):
        return np.sort(to_metre(self.pair, np.array(self.rng, dtype=float)))

    def evaluate(self, lam):
        return np.asarray(self.value + 0.0*np.where(np.isfinite(lam), lam, 0))

    def tol(self, lam):
        return 0.0*np.asarray(lam) + 1e-12*abs(self.value)


class RefTable:
    kind = 'table'

    def __init__(self, xx, yy, pair):
        order = np.argsort(xx, kind='stable')
        self.xx = np.asarray(xx, dtype=float)[order]
        self.yy = np.asarray(yy, dtype=float)[order]
        self.pair = pair
        self.extra = 0.0    # absolute error of the ordinates themselves

    def range_m(self):
        if len(self.xx) == 1:
            val = to_metre(self.pair, self.xx[0])
            return np.array([val, val])
        return np.sort(to_metre(self.pair, self.xx[[0, -1]]))

    def evaluate(self, lam):
        pos = from_metre(self.pair, lam)
        return self.at(pos)

    def at(self, pos):
        pos = np.asarray(pos, dtype=float)
        if len(self.xx) == 1:
            return self.yy[0] + 0*pos
        seg = np.clip(np.searchsorted(self.xx, pos) - 1, 0, len(self.xx) - 2)
        x0, x1 = self.xx[seg], self.xx[seg+1]
        y0, y1 = self.yy[seg], self.yy[seg+1]
        frac = np.clip((pos - x0)/(x1 - x0), 0.0, 1.0)
        return y0*(1 - frac) + y1*frac

    def tol(self, lam):
        """change of the value over the conversion tolerance of the abscissa"""
        if len(self.xx) == 1:
            return (0.0*np.asarray(lam) + self.extra +
                    1e-12*np.max(np.abs(self.yy)))
        pos = from_metre(self.pair, lam)
        dx = RTOL*np.abs(pos) + round_step(self.pair)
        val = self.at(pos)
        spread = np.maximum(np.abs(self.at(pos+dx) - val),
                            np.abs(self.at(pos-dx) - val))
        return spread + self.extra + 1e-10*np.max(
            np.abs(self.yy[np.isfinite(self.yy)]), initial=0.0)


class RefModel:
    kind = 'model'

    def __init__(self, name, par, rng):
        self.name = name
        self.par = [float(p) for p in par]
        self.rng = [float(r) for r in rng]
        self.pair = (('wavelength', 'um') if name in MODELS_N else
                     ('energy', 'ev'))
        self.func = MODELS_N.get(name) or MODELS_EPS.get(name)

    def range_m(self):
        return np.sort(to_metre(self.pair, np.array(self.rng)))

    def evaluate(self, lam):
        return self.at(from_metre(self.pair, lam))

    def at(self, pos):
        with np.errstate(all='ignore'):
            return self.func(self.par, np.asarray(pos, dtype=float))

    def tol(self, lam):
        pos = from_metre(self.pair, lam)
        dx = RTOL*np.abs(pos) + round_step(self.pair)
        val = self.at(pos)
        spread = np.maximum(np.abs(self.at(pos+dx) - val),
                            np.abs(self.at(pos-dx) - val))
        return 2*spread + 1e-10*np.abs(val) + 1e-12


class RefMaterial:
    """name: 'nk' or 'eps'; parts real/imag, or complex"""

    def __init__(self, name, real=None, imag=None, cplx=None):
        self.name = name
        self.real = real if real is not None else RefConst(0.0)
        self.imag = imag if imag is not None else RefConst(0.0)
        self.cplx = cplx

    def range_m(self):
        if self.cplx is not None:
            return self.cplx.range_m()
        r1, r2 = self.real.range_m(), self.imag.range_m()
        return np.array([max(r1[0], r2[0]), min(r1[1], r2[1])])

    def native(self, lam):
        if self.cplx is not None:
            return self.cplx.evaluate(lam) + 0j
        return self.real.evaluate(lam) + 1j*self.imag.evaluate(lam)

    def native_tol(self, lam):
        if self.cplx is not None:
            return self.cplx.tol(lam)
        return self.real.tol(lam) + self.imag.tol(lam)

    def nk(self, lam):
        val = self.native(lam)
        return np.sqrt(val) if self.name == 'eps' else val

    def eps(self, lam):
        val = self.native(lam)
        return val**2 if self.name == 'nk' else val

    def nk_tol(self, lam):
        tol = self.native_tol(lam)
        if self.name == 'eps':
            mag = np.maximum(np.abs(self.native(lam)), 1e-30)
            return np.minimum(tol/np.sqrt(mag), np.sqrt(tol)) + 1e-12*np.sqrt(mag)
        return tol + 1e-12*np.abs(self.native(lam))

    def eps_tol(self, lam):
        tol = self.native_tol(lam)
        mag = np.abs(self.native(lam))
        if self.name == 'nk':
            return 2*mag*tol + tol**2 + 1e-12*mag**2
        return tol + 1e-12*mag
