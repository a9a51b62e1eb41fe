"""Reference: generic rate coefficients, complex rate coefficients and photolysis parameters of the Master Chemical Mechanism
(v3.2 values), and the solar geometry of AtChem2 for day 150 at 51.51 N, 0.13 E.

`F` supplies exp, log10, power, cos, sin and real constants, so the same text gives symbolic terms or floats."""

M0 = '2.55E+19'

SIMPLE = {   # name: (A, -E/R, factor)
    'KRONO2': ('2.70E-12', '360', None), 'KRO2NO': ('2.7E-12', '360', None), 'KRO2HO2': ('2.91E-13', '1300', None),
    'KAPHO2': ('5.2E-13', '980', None), 'KAPNO': ('7.5E-12', '290', None), 'KRO2NO3': ('2.3E-12', '0', None),
    'KNO3AL': ('1.4E-12', '-1860', None), 'KDEC': ('1.00E+06', '0', None), 'KROSEC': ('2.50E-14', '-300', None),
    'KALKOXY': ('3.70E-14', '-460', 'O2'), 'KALKPXY': ('1.80E-14', '-260', 'O2'), 'KROPRIM': ('2.50E-14', '-300', None),
    'KCH3O2': ('1.03E-13', '365', None), 'K298CH3O2': ('3.5E-13', '0', None), 'K14ISOM1': ('3.00E7', '-5300', None),
}
# fall-off: k0 = a0*M*(T/300)**n0*exp(e0/T), ki likewise without M, broadening Fc
FALLOFF = {
    'KFPAN': (('3.28E-28', '-6.87', '0'), ('1.125E-11', '-1.105', '0'), '0.30'),
    'KBPAN': (('1.10E-05', '0', '-10100'), ('1.90E+17', '0', '-14100'), '0.30'),
    'KMT01': (('1.00E-31', '-1.6', '0'), ('5.0E-11', '0.3', '0'), '0.85'),
    'KMT02': (('1.30E-31', '-1.5', '0'), ('2.30E-11', '0.24', '0'), '0.6'),
    'KMT03': (('3.60E-30', '-4.1', '0'), ('1.90E-12', '0.2', '0'), '0.35'),
    'KMT04': (('1.30E-03', '-3.5', '-11000'), ('9.70E+14', '0.1', '-11080'), '0.35'),
    'KMT07': (('7.40E-31', '-2.4', '0'), ('3.30E-11', '-0.3', '0'), '0.81'),
    'KMT08': (('3.2E-30', '-4.5', '0'), ('3.0E-11', '0', '0'), '0.41'),
    'KMT09': (('1.4E-31', '-3.1', '0'), ('4.0E-12', '0', '0'), '0.4'),
    'KMT10': (('4.10E-05', '0', '-10650'), ('6.0E+15', '0', '-11170'), '0.4'),
    'KMT12': (('2.5E-31', '-2.6', '0'), ('2.0E-12', '0', '0'), '0.53'),
    'KMT13': (('2.50E-30', '-5.5', '0'), ('1.80E-11', '0', '0'), '0.36'),
    'KMT14': (('9.00E-05', '0', '-9690'), ('1.10E+16', '0', '-10560'), '0.36'),
    'KMT15': (('8.60E-29', '-3.1', '0'), ('9.00E-12', '-0.85', '0'), '0.48'),
    'KMT16': (('8.00E-27', '-3.5', '0'), ('3.00E-11', '-1.0', '0'), '0.5'),
    'KMT17': (('5.00E-30', '-1.5', '0'), ('1.00E-12', '0', '0'), 'T'),
}
NAMES = ['M', 'N2', 'O2', 'H2O', 'RO2', 'TEMP'] + list(SIMPLE) + list(FALLOFF) + ['KBPPN', 'KMT05', 'KMT06', 'KMT11', 'KMT18']

PHOT = {
    1: ('6.073E-05', '1.743', '0.474'), 2: ('4.775E-04', '0.298', '0.080'), 3: ('1.041E-05', '0.723', '0.279'),
    4: ('1.165E-02', '0.244', '0.267'), 5: ('2.485E-02', '0.168', '0.108'), 6: ('1.747E-01', '0.155', '0.125'),
    7: ('2.644E-03', '0.261', '0.288'), 8: ('9.312E-07', '1.230', '0.307'), 11: ('4.642E-05', '0.762', '0.353'),
    12: ('6.853E-05', '0.477', '0.323'), 13: ('7.344E-06', '1.202', '0.417'), 14: ('2.879E-05', '1.067', '0.358'),
    15: ('2.792E-05', '0.805', '0.338'), 16: ('1.675E-05', '0.805', '0.338'), 17: ('7.914E-05', '0.764', '0.364'),
    18: ('1.482E-06', '0.396', '0.298'), 19: ('1.482E-05', '0.396', '0.298'), 20: ('7.600E-04', '0.396', '0.298'),
    21: ('7.992E-07', '1.578', '0.271'), 22: ('5.804E-06', '1.092', '0.377'), 23: ('2.4246E-06', '0.395', '0.296'),
    24: ('2.424E-06', '0.395', '0.296'), 31: ('6.845E-05', '0.130', '0.201'), 32: ('1.032E-05', '0.130', '0.201'),
    33: ('3.802E-05', '0.644', '0.312'), 34: ('1.537E-04', '0.170', '0.208'), 35: ('3.326E-04', '0.148', '0.215'),
    41: ('7.649E-06', '0.682', '0.279'), 51: ('1.588E-06', '1.154', '0.318'), 52: ('1.907E-06', '1.244', '0.335'),
    53: ('2.485E-06', '1.196', '0.328'), 54: ('4.095E-06', '1.111', '0.316'), 55: ('1.135E-05', '0.974', '0.309'),
    56: ('4.365E-05', '1.089', '0.323'), 57: ('3.363E-06', '1.296', '0.322'), 61: ('7.537E-04', '0.499', '0.266'),
}


def constants(F, T, H2O, RO2):
    c = F.c
    M = c(M0)
    O2 = c('0.2095') * M
    d = {'M': M, 'N2': c('0.79') * M, 'O2': O2, 'H2O': H2O, 'RO2': RO2, 'TEMP': T}

    def arr(a, e):
        return c(a) if e == '0' else c(a) * F.exp(c(e) / T)
    for k, (a, e, f) in SIMPLE.items():
        d[k] = arr(a, e) if f is None else arr(a, e) * O2

    def lim(p, m):
        r = c(p[0]) if m is None else c(p[0]) * m
        if p[1] != '0':
            r = r * F.pow(T / c('300'), c(p[1]))
        if p[2] != '0':
            r = r * F.exp(c(p[2]) / T)
        return r
    for k, (p0, pi, fc) in FALLOFF.items():
        k0, ki = lim(p0, M), lim(pi, None)
        f = c('0.17') * F.exp(c('-51') / T) + F.exp(-T / c('204')) if fc == 'T' else c(fc)
        kr = k0 / ki
        nc = c('0.75') - c('1.27') * F.log10(f)
        q = F.log10(kr) / nc
        F_ = F.pow(c('10'), F.log10(f) / (c('1') + q * q))
        d[k] = (k0 * ki) * F_ / (k0 + ki)
    k0, ki = lim(('1.7E-03', '0', '-11280'), M), lim(('8.3E+16', '0', '-13940'), None)
    d['KBPPN'] = (k0 * ki) * c('0.36') / (k0 + ki)
    d['KMT05'] = c('1.44E-13') * (c('1') + M / c('4.2E19'))
    d['KMT06'] = c('1') + c('1.40E-21') * F.exp(c('2200') / T) * H2O
    k1, k3, k4 = arr('2.40E-14', '460'), arr('6.50E-34', '1335'), arr('2.70E-17', '2199')
    d['KMT11'] = k1 + (k3 * M) / (c('1') + k3 * M / k4)
    d['KMT18'] = c('9.5E-39') * O2 * F.exp(c('5270') / T) / (c('1') + c('7.5E-29') * O2 * F.exp(c('5610') / T))
    return d


def cosx(F, pi, frac_day):
    """cosine of the zenith angle; frac_day = fraction of the day elapsed"""
    c = F.c
    th = c('2') * pi * (c('150') - c('1')) / c('365')
    dec = c('0.006918') + c('-0.399912') * F.cos(th) + c('0.070257') * F.sin(th) + c('-0.006758') * F.cos(c('2') * th) + \
        c('0.000907') * F.sin(c('2') * th) + c('-0.002697') * F.cos(c('3') * th) + c('0.001480') * F.sin(c('3') * th)
    eq = c('0.000075') + c('0.001868') * F.cos(th) + c('-0.032077') * F.sin(th) + c('-0.014615') * F.cos(c('2') * th) + \
        c('-0.040849') * F.sin(c('2') * th)
    lha = pi * ((frac_day * c('24') / c('12')) - (c('1') + c('0.13') / c('180'))) + eq
    lat = c('51.51') * pi / c('180')
    return F.cos(lha) * (F.cos(lat) * F.cos(dec)) + F.sin(lat) * F.sin(dec)


def photolysis(F, cx):
    """values for the sun up"""
    return {k: F.c(l) * F.pow(cx, F.c(m)) * F.exp(-F.c(n) / cx) for k, (l, m, n) in PHOT.items()}
