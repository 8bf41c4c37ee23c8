"""C03 invalid quantity/unit combinations are refused everywhere"""
import numpy as np
import dispersion
from dispersion import Spectrum, Material, Constant, Interpolation
import dispersion.spectral_data as sdata
from .. import gen, ref
from ..ref import PAIRS, UNITS

PROP = 'C03'
RULE = ("a case is one (quantity name, unit name, entry point); all "
        "combinations of 12 quantity names and 40 unit names are enumerated "
        "at every entry point; distinct by that triple")
ASSUMPTIONS = []
REQUIRED = ['refusals observed', 'acceptances observed',
            'model unit refusals', 'value refusals']

TYPES = ['wavelength', 'frequency', 'energy', 'angularfrequency',
         'wavenumber', 'colour', '', 'wave length', 'wavelengths',
         'angular_frequency', 'angular frequency', 'nm', 'freq',
         ' wavelength']
UNIT_NAMES = sorted({u for names in UNITS.values() for u in names}) + [
    'mm', 'km', 'inch', '', 'thz', 'mev', 'kev', '1/m', 'cm-1', 'rad',
    'nanometers', 'n m', 'micron', 'hz/s', 'joule', 'pm', 'µm', ' nm', 'nm ',
    'wavelength', 'angstroms', '1/cm/s', 'rads', 's']
VALID = {(pair[0], name) for pair in PAIRS for name in UNITS[pair]}


def pair_of(stype, unit):
    for pair in PAIRS:
        if pair[0] == stype and unit in UNITS[pair]:
            return pair
    return None


FIXED = {}


def setup_worker():
    FIXED['mats'] = [
        Material(fixed_n=1.5), Material(fixed_eps=-3 + 1j),
        Material(tabulated_nk=np.array([[1.0, 1.5, 0.1], [1e9, 2.0, 0.2]])),
        Material(model_kw={'name': 'Drude', 'spectrum_type': 'energy',
                           'unit': 'ev', 'valid_range': [1e-9, 1e12],
                           'parameters': np.array([5.0, 0.1])})]


def entries(stype, unit, rng_vals):
    """callables which must accept or refuse this combination"""
    tab = np.array([[rng_vals[0], 1.5], [rng_vals[1], 2.5]])
    tab3 = np.column_stack([tab, [0.1, 0.2]])
    spec = Spectrum([5e-7, 6e-7])
    conv_scalar = Spectrum(500., 'wavelength', 'nm')
    val = rng_vals[0]
    table = {
        'Spectrum(float)': lambda: Spectrum(val, stype, unit),
        'Spectrum(list)': lambda: Spectrum(list(rng_vals), stype, unit),
        'Spectrum(kw)': lambda: Spectrum(np.array(rng_vals), unit=unit,
                                         spectrum_type=stype),
        'convert_to': lambda: spec.convert_to(stype, unit),
        'convert_to(scalar)': lambda: conv_scalar.convert_to(stype, unit),
        'convert_to(in_place)':
            lambda: spec.convert_to(stype, unit, in_place=True),
        'convert_from': lambda: Spectrum.convert_from(
            stype, unit, np.array(rng_vals)),
        'convert_from(scalar)': lambda: Spectrum.convert_from(stype, unit,
                                                              val),
        'Constant': lambda: Constant(1.0, valid_range=rng_vals,
                                     spectrum_type=stype, unit=unit),
        'Interpolation': lambda: Interpolation(tab, spectrum_type=stype,
                                               unit=unit),
        'Material(tabulated_n)': lambda: Material(
            tabulated_n=tab, spectrum_type=stype, unit=unit),
        'Material(tabulated_nk)': lambda: Material(
            tabulated_nk=tab3, spectrum_type=stype, unit=unit),
        'Material(tabulated_eps)': lambda: Material(
            tabulated_eps=tab3, spectrum_type=stype, unit=unit),
        'Material(tabulated_n_alpha)': lambda: Material(
            tabulated_n_alpha=tab3, spectrum_type=stype, unit=unit),
        'Material(one row)': lambda: Material(
            tabulated_nk=tab3[:1], spectrum_type=stype, unit=unit),
    }
    for i, mat in enumerate(FIXED['mats'][:2]):
        table['get_nk_data[%d]' % i] = \
            lambda mat=mat: mat.get_nk_data(val, stype, unit)
        table['get_permittivity[%d]' % i] = \
            lambda mat=mat: mat.get_permittivity(np.array(rng_vals), stype,
                                                 unit)
        table['get_nk_data[%d](kw)' % i] = \
            lambda mat=mat: mat.get_nk_data(list(rng_vals),
                                            spectrum_type=stype, unit=unit)
    return table


def entries_refused_only(stype, unit):
    """entry points where only the refusal is decided here"""
    table = {}
    for i, mat in enumerate(FIXED['mats'][2:]):
        table['get_nk_data[range %d]' % i] = \
            lambda mat=mat: mat.get_nk_data(1.0, stype, unit)
        table['get_permittivity[range %d]' % i] = \
            lambda mat=mat: mat.get_permittivity(1.0, stype, unit)
    return table


COMBOS = [(t, u) for t in TYPES for u in UNIT_NAMES]


def case_combo(ctx):
    stype, unit = COMBOS[ctx.idx]
    valid = (stype, unit) in VALID
    pair = pair_of(stype, unit)
    if valid:
        rng_vals = tuple(np.sort(ref.from_metre(pair, [4e-7, 9e-7])))
    else:
        rng_vals = (1.0, 2.0)
    for variant in range(2):
        if variant == 0:
            sname, uname = stype, unit
        else:
            sname, uname = (gen.mixed_case(ctx, stype),
                            gen.mixed_case(ctx, unit))
        for name, func in entries(sname, uname, rng_vals).items():
            if valid:
                ctx.accepts(func, "valid combination refused", entry=name,
                            quantity=sname, unit=uname)
            else:
                ctx.raises(ValueError, func, "invalid combination accepted "
                           "by " + name, entry=name, quantity=sname,
                           unit=uname)
            ctx.sig(stype, unit, name)
        if not valid:
            for name, func in entries_refused_only(sname, uname).items():
                ctx.raises(ValueError, func, "invalid combination accepted "
                           "by " + name, entry=name, quantity=sname,
                           unit=uname)
                ctx.sig(stype, unit, name)
    ctx.describe(quantity=stype, unit=unit, valid=valid)


SPELLED = [(pair, name) for pair in PAIRS for name in UNITS[pair]]
MODEL_COMBOS = [(m, p, u) for m in tuple(gen.MODEL_NAMES) + ('Fano',)
                for p, u in SPELLED]


def case_model(ctx):
    name, pair, unit = MODEL_COMBOS[ctx.idx]
    par = [1.0, 2.0, 0.3] if name == 'Fano' else \
        gen.model_parameters(ctx, name)[0]
    need = gen.model_pair(name)
    vrange = [0.5, 2.0]
    stype, uname = gen.mixed_case(ctx, pair[0]), gen.mixed_case(ctx, unit)

    def direct():
        return getattr(sdata, name)(np.array(par), vrange,
                                    spectrum_type=stype, unit=uname)

    def material():
        return Material(model_kw={'name': name, 'spectrum_type': stype,
                                  'unit': uname, 'valid_range': vrange,
                                  'parameters': np.array(par)})
    entries_ = [('class', direct)]
    if name != 'Fano':      # not a model of a material
        entries_.append(('Material', material))
    for entry, func in entries_:
        if pair == need:
            ctx.accepts(func, "model refused in its own unit", model=name,
                        unit=uname, entry=entry)
        else:
            ctx.raises(ValueError, func, "model accepted in a unit its "
                       "formula is not written in", 'model unit refusals',
                       model=name, pair=pair, unit=uname, entry=entry)
        ctx.sig(name, pair, unit, entry)
    ctx.describe(model=name, pair=pair, unit=unit)


BAD_VALUES = [5, None, 'abc', '500', {}, {1.0, 2.0}, 1 + 2j, object(), b'12',
              np.int64(5), True, {'a': 1.0}, range(3), (x for x in [1.0])]


def case_values(ctx):
    for value in BAD_VALUES:
        pair = gen.any_pair(ctx)
        stype, unit = gen.spell(ctx, pair)
        ctx.raises(ValueError, lambda: Spectrum(value, stype, unit),
                   "values which are neither float nor sequence",
                   'value refusals', value=repr(value), unit=unit)
        ctx.raises(ValueError, lambda: FIXED['mats'][0].get_nk_data(
            value, stype, unit), "values which are neither float nor "
            "sequence (material)", 'value refusals', value=repr(value))
        ctx.raises(ValueError, lambda: FIXED['mats'][1].get_permittivity(
            value, stype, unit), "values which are neither float nor "
            "sequence (permittivity)", 'value refusals', value=repr(value))
        ctx.sig('value', repr(type(value)), pair)
    ctx.describe(values=[repr(v) for v in BAD_VALUES])


SCENARIOS = {
    'combinations': {'case': case_combo, 'quick': len(COMBOS),
                     'thorough': len(COMBOS), 'exhaustive': True},
    'models': {'case': case_model, 'quick': len(MODEL_COMBOS),
               'thorough': len(MODEL_COMBOS), 'exhaustive': True},
    'values': {'case': case_values, 'quick': 24, 'thorough': 200},
}
