"""The published condensation law (Topping et al. 2018, Jacobson; Fuchs and Sutugin 1971), over any number type.

N is a namespace with exp, cbrt, PI and num (exact constant).  Returns per size bin: radius, water activity, and per
condensed species the transfer in molecules / cc / s; and the organic mass in micrograms / m3."""


def law(N, a, nb, nc, ignored=()):
    q = N.num
    out = dict(size=[], aw=[], flux=[], soa=None)
    soa = q(0)
    for b in range(nb):
        n = a['cond'][b]
        total = a['ycore'][b] * a['core_diss']
        for x in n:
            total = total + x
        m = [x / a['NA'] * w for x, w in zip(n, a['mw_array'])]           # g / cc
        for x in m[:-1]:
            soa = soa + x
        M = a['core_mass_array'][b]
        V = a['core_mass_array'][b] / a['core_density_array'][b]
        for x, r in zip(m, a['density_input']):
            M = M + x
            V = V + x / r
        rho = M / V                                                        # kg / m3
        volume = (M * q('1e3')) / (a['N_perbin'][b] * q('1e6')) / rho      # m3 per particle
        r = N.cbrt(q(3) * volume / (q(4) * N.PI))
        out['size'].append(r)
        out['aw'].append(n[-1] / total)
        fl = []
        for i in range(nc):
            kn = a['gamma_gas'][i] / r
            al = a['alpha_d_org'][i]
            corr = q(1) / (q(1) + ((q('1.33') * kn + q('0.71')) / (kn + q(1)) + q(4) * (q(1) - al) / (q(3) * al)) * kn)
            kelvin = N.exp(q(4) * a['mw_array'][i] * q('1e-3') * a['sigma'] / (a['R_gas'] * a['Model_temp'] * q(2) * r * rho))
            x = q(0) if i in ignored else n[i] / total
            pa = kelvin * x * a['Psat'][i] * q(101325)
            cstar = pa * a['NA'] / (q('8.3144598e6') * a['Model_temp'])
            k = q(4) * N.PI * (r * q(100)) * a['N_perbin'][b] * a['DStar_org'][i] * corr
            fl.append((k, a['C_g_i_t'][i], cstar))
        out['flux'].append(fl)
    out['soa'] = soa * q('1e12')
    return out
