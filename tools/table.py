"""the list of properties (single source for properties.jsonl and MANIFEST.json): python3 tools/table.py writes both"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, na=na))


PEF = 'Parse_eqn_file.py'
prop('C01', 'The parsed stoichiometry is exactly what the mechanism file says',
     'For every reaction of a mechanism file, the recorded amount of each species consumed (produced) equals the sum of the coefficients written '
     'in front of that species on the left (right) of the reaction, an absent coefficient counting as 1. Species names, including names that contain digits, '
     'survive unchanged, and line breaks, repeated terms and spacing do not matter.',
     ['inputs'], 'all mechanism texts of the supported grammar: names, coefficients, digits, spacing, line breaks, repeated species',
     'tests parse one shipped mechanism without explicit coefficients and compare a few generated numbers',
     [PEF], [('extract_mechanism', PEF)], 'Shapes: up to 3 reactions, 3 terms a side, names up to 3 symbolic characters, coefficients d, dd, d.d, .d, d.dd with symbolic digits.')
prop('C02', 'Species and array positions are in one-to-one correspondence',
     'After parsing, every species that occurs in the mechanism, and nothing else, owns exactly one position, the positions are 0..n-1 without gaps or repeats, '
     'and position-to-name and name-to-position tables are inverse to each other. The photon marker never becomes a species.',
     ['inputs'], 'all mechanism texts, all coincidences of names across reactions',
     'the tests use one mechanism and never check the tables against the text',
     [PEF], [('extract_mechanism', PEF)], 'Same shapes as C01.')
prop('C03', 'No reaction is lost, invented or given another reaction\'s rate',
     'Parsing a mechanism yields exactly one entry per reaction of the file, in file order, and the rate expression recorded for a reaction is the text written '
     'after the colon of that reaction, whatever comments, blank lines or line wrapping surround it.',
     ['inputs'], 'all mechanism texts with comments, wrapped lines and arbitrary rate expressions of the grammar',
     'one file is parsed by the tests and only sums of values are compared',
     [PEF], [('extract_mechanism', PEF)], 'Same shapes as C01 with symbolic characters in the rate text.')
prop('C04', 'The Python form of a rate expression means what the mechanism wrote',
     'For every rate expression of the mechanism language, the converted Python expression evaluates to the same number as the original for every temperature, '
     'water, oxygen, peroxy-radical total and photolysis value. This holds wherever functions, exponents and photolysis references occur, and however often.',
     ['inputs', 'programs'], 'all expressions of the bounded grammar with symbolic digits and signs, every expression of the shipped mechanisms, all values of the variables',
     'the tests evaluate one mechanism at one temperature', ['rate_coeff_conversion.py', PEF],
     [('convert_rate_mcm_numba', 'rate_coeff_conversion.py'), ('write_rate_file_numba', PEF)])
prop('C05', 'The Fortran form of a rate expression means what the mechanism wrote',
     'For every rate expression of the mechanism language, the converted Fortran expression evaluates to the same number as the original for every temperature, '
     'water, oxygen, peroxy-radical total and photolysis value. This holds wherever functions, exponents and photolysis references occur, and however often.',
     ['inputs', 'programs'], 'all expressions of the bounded grammar with symbolic digits and signs, every expression of the shipped mechanisms, all values of the variables',
     'the tests evaluate one mechanism at one temperature', ['rate_coeff_conversion.py', PEF],
     [('convert_rate_mcm_fortran', 'rate_coeff_conversion.py'), ('write_rate_file_fortran', PEF)])
prop('C06', 'Both generated rate files implement the published generic rate constants',
     'At every temperature and water-vapour concentration, every generic and complex rate constant computed by the generated Python code and by the generated Fortran code '
     'equals the value of its published definition, so both back ends agree.',
     ['inputs'], 'all temperatures and concentrations (reals), every named constant',
     'the tests compare one generated file against stored numbers at 298.15 K only', [PEF],
     [('write_rate_file_numba', PEF), ('write_rate_file_fortran', PEF)])
prop('C07', 'Photolysis is zero at night, never negative, daily periodic and follows the published law',
     'At every time of day each photolysis rate is l*cos(x)**m*exp(-n/cos(x)) with the published parameters while the sun is up and exactly zero while it is down; it is never negative '
     'and repeats every 24 hours. The generated Python and Fortran code agree.',
     ['inputs'], 'all times (reals)', 'tests use one time of day', [PEF],
     [('write_rate_file_numba', PEF), ('write_rate_file_fortran', PEF)])
prop('C08', 'Rate constants are positive and finite over the atmospheric range',
     'For every temperature between 200 K and 330 K and any non-negative water vapour, every generic rate constant produced by the generated code is positive and no denominator, '
     'logarithm or power leaves its domain.',
     ['inputs'], 'all temperatures in the range, all water vapour concentrations up to saturation', 'tests use one temperature', [PEF],
     [('write_rate_file_numba', PEF), ('write_rate_file_fortran', PEF)])
prop('C09', 'Generated reaction rates follow the law of mass action',
     'For every mechanism and every set of concentrations, the generated Python and Fortran routines return for each reaction the product of the concentrations of its reactants, '
     'each raised to its total coefficient in that reaction, in file order.',
     ['inputs', 'programs'], 'all mechanisms of the listed shapes (symbolic coefficients, every coincidence of names), all positive concentrations',
     'tests compare one mechanism without coefficients against stored sums', [PEF],
     [('write_reactants_indices', PEF), ('write_reactants_indices_fortran', PEF)])
prop('C10', 'The generated tendencies balance every reaction',
     'For every mechanism and every set of reaction rates, the generated Python and Fortran routines give each species the sum over reactions of (coefficient produced minus coefficient consumed) '
     'times the rate, and leave the fixed bath species at zero tendency.',
     ['inputs', 'programs'], 'all mechanisms of the listed shapes, all rates', 'tests compare one mechanism without coefficients against stored sums', [PEF],
     [('write_loss_gain_matrix', PEF), ('write_loss_gain_fortran', PEF)])
prop('C11', 'The saved index lists and sparse matrices encode the mechanism',
     'The reactant-order and net-stoichiometry matrices and the per-reaction index lists written to disk have one row or column per species and per reaction and contain exactly the coefficients of the mechanism, '
     'a species on both sides of a reaction holding the difference.',
     ['inputs', 'programs'], 'all mechanisms of the listed shapes', 'tests never load these files', [PEF],
     [('write_reactants_indices', PEF), ('write_loss_gain_matrix', PEF), ('save_sparse_csr', PEF)])
prop('C12', 'The generated Python Jacobian is the derivative of the tendencies',
     'For every mechanism, every element of the Jacobian evaluated by the generated Python code equals the partial derivative of the tendency of one species with respect to the concentration of another.',
     ['inputs', 'programs'], 'all mechanisms of the listed shapes, all positive concentrations, all rate constants', 'no stable test evaluates the Jacobian', [PEF],
     [('write_gas_jacobian_numba', PEF)])
prop('C13', 'The generated Fortran Jacobian is the derivative of the tendencies',
     'For every mechanism, every element of the Jacobian evaluated by the generated Fortran code equals the partial derivative of the tendency of one species with respect to the concentration of another.',
     ['inputs', 'programs'], 'all mechanisms of the listed shapes, all positive concentrations, all rate constants', 'no stable test evaluates the Jacobian', [PEF],
     [('write_gas_jacobian_fortran', PEF)])
prop('C14', 'The peroxy-radical pool contains exactly the peroxy radicals of the mechanism, once each',
     'The positions saved for the peroxy-radical sum are those of the species of the mechanism that are peroxy radicals of the published list, each exactly once, whatever other species the mechanism contains.',
     ['inputs'], 'all species names (symbolic characters), every name of the published list, every order of species', 'the tests check one mechanism', [PEF],
     [('write_RO2_indices', PEF)])
prop('C15', 'Multi-threaded Fortran gives the single-threaded result for any number of processors',
     'With the threading option on, the generated Fortran covers every reaction and species exactly once for any processor count, no two concurrent blocks touch the same array element and no statement of a threaded region is '
     'repeated by every thread, so the results equal those of the serial code.',
     ['schedules', 'configurations', 'programs'], 'every processor count in the bound, every mechanism of the listed shapes, all interleavings of concurrent blocks',
     'tests run one mechanism on one machine', [PEF],
     [('write_reactants_indices_fortran', PEF), ('write_loss_gain_fortran', PEF), ('write_gas_jacobian_fortran', PEF), ('write_rate_file_fortran', PEF), ('write_partitioning_section_fortran_ignore', PEF)])

GAS = ['ODE_solver.py', 'f2py/ODE_solver.py']
prop('C16', 'The gas-phase right-hand side composes rates, reactants and balance correctly',
     'At every time and state the right-hand side handed to the solver equals the generated tendencies applied to (generated rate constants at the current time of day, temperature, water and '
     'peroxy-radical total) times (generated reactant products), whatever batch the time lies in. The supplied Jacobian uses the same inputs, and evaluating either never alters the state.',
     ['inputs', 'histories'], 'all times, states, temperatures, water concentrations and start times; every batch of the bound',
     'the solver modules need assimulo and are not run by any test', GAS,
     [('run_simulation', 'ODE_solver.py'), ('run_simulation', 'f2py/ODE_solver.py')], 'Generated functions are uninterpreted.')
prop('C17', 'Batches join without gap or loss and every batch end is saved',
     'For every simulation time and batch length the batches cover the simulation from zero without gap or overlap, each starts from exactly the state in which the previous one ended, and '
     'the saved time and concentration rows are the initial state of the integrator and the end of each batch in order. The returned, saved and tabulated outputs agree.',
     ['histories', 'inputs'], 'all simulation times and batch lengths within the bound on the number of batches',
     'the solver modules are not run by any test', GAS,
     [('run_simulation', 'ODE_solver.py'), ('run_simulation', 'f2py/ODE_solver.py')], 'Up to 15 batches (40 thorough) of any length.')
prop('C18', 'Initial concentrations reach the species they were given for',
     'Every species with an initial abundance in ppb starts at that abundance times the ppb-to-molecules conversion at the position the mechanism gives it, and every other species starts at zero.',
     ['inputs', 'configurations'], 'all abundances, several species-to-position maps and subsets', 'the solver modules are not run by any test', GAS,
     [('run_simulation', 'ODE_solver.py'), ('run_simulation', 'f2py/ODE_solver.py')])

PART = 'Parse_eqn_file.py'
prop('C19', 'Condensation conserves molecules between gas and particles',
     'For every state, whatever each species gains on all size bins together it loses from the gas phase at the same rate, and species that do not condense are not changed by partitioning. '
     'This holds for any choice of condensing species and any number of bins.',
     ['inputs', 'configurations'], 'all concentrations and property values, several species-to-condensed maps and bin counts, with and without ignored species',
     'the partitioning tests need UManSysProp and compare stored numbers at one state', [PART],
     [('write_partitioning_section_fortran_ignore', PART), ('write_partitioning_section_fortran', PART)], 'Up to 3 bins and 4 condensing species (16 and 6 thorough).')
prop('C20', 'Condensation follows the published growth law',
     'For every state the emitted partitioning code gives each bin the radius of its volume per particle and the mole fraction of water, and each species the transfer rate '
     '4*pi*r*N*D*f(Kn, alpha)*(C_gas - C_eq) with the Fuchs-Sutugin correction, the Kelvin factor and ideal mole fractions; the organic mass is the sum of organics over all bins.',
     ['inputs', 'configurations'], 'all concentrations, temperatures and property values',
     'the partitioning tests need UManSysProp and compare stored numbers at one state', [PART],
     [('write_partitioning_section_fortran_ignore', PART), ('write_partitioning_section_fortran', PART)], 'Up to 3 bins and 4 condensing species (16 and 6 thorough).')

prop('C21', 'The initial size distribution is the lognormal one requested',
     'For every total number, geometric mean size and width, and size range, the initial aerosol bins have sizes evenly spaced in logarithm from the lower to the upper limit, the number in each bin is '
     'proportional to the lognormal density at its size, and the numbers add up to the requested total.',
     ['inputs', 'configurations'], 'all totals, mean sizes, widths and size ranges, for each number of bins', 'no test checks the numbers of a size distribution',
     ['Aerosol/Size_distributions.py'], [('lognormal', 'Aerosol/Size_distributions.py')], 'Up to 12 bins (40 thorough).')

prop('C22', 'Every condensing compound gets its own properties from the chosen methods',
     'For every set of compounds and choice of property methods, the density, molecular weight, elemental ratios and saturation vapour pressure of each compound are those of the chosen methods, at the '
     'position the mechanism gives it; exactly the compounds without a structure, or above the vapour-pressure cutoff when that is in force, are excluded from condensation. '
     'Diffusivity, thermal velocity and mean free path follow from molecular weight and temperature by the published formulas.',
     ['inputs', 'configurations'], 'all property values, temperatures, cutoffs, method choices and subsets of compounds with a structure',
     'UManSysProp is not available to the tests, which do not touch this module', ['Aerosol/Property_calculation.py'],
     [('Pure_component1', 'Aerosol/Property_calculation.py'), ('Pure_component2', 'Aerosol/Property_calculation.py')], 'Up to 3 compounds (4 thorough), all 72 method combinations.')

AERO = ['Aerosol/f2py/ODE_solver.py', 'Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py']
prop('C23', 'The aerosol right-hand side is chemistry plus partitioning of the same state',
     'In a coupled run the tendency of every gas species is its chemical tendency plus its exchange with particles, and of every condensed component its exchange alone, all taken at the state and time of the call. '
     'Partitioning is given each property in its place: state, core masses, vapour pressures in atmospheres with water from the temperature, and the gas concentrations of exactly the condensing species.',
     ['inputs', 'configurations', 'histories'], 'all states, times, temperatures, property values and sequences of batches; several layouts of species and bins',
     'the aerosol solver modules are not run by any test', AERO + ['Parse_eqn_file.py'],
     [('run_simulation, dydt_func', AERO[0]), ('run_simulation, dydt_func', AERO[1]), ('write_partitioning_section_fortran_ignore', 'Parse_eqn_file.py')],
     'Up to 5 batches (10 thorough), 4 species, 3 bins (16 thorough).')
prop('C24', 'Aerosol runs start as specified, cover the time, and save what was computed',
     'A coupled run starts from the abundances given (ppb for gases, molecules for water) and the given condensed amounts, integrates batches that cover the simulation time and each continue the one before, '
     'and saves for every batch its end time, end state, organic mass and bin sizes, with the list of condensing species.',
     ['inputs', 'configurations', 'histories'], 'all durations, batch lengths, abundances and states', 'the aerosol solver modules are not run by any test', AERO,
     [('run_simulation', AERO[0]), ('run_simulation', AERO[1])], 'Up to 12 batches (30 thorough) of any length.')

prop('C25', 'A yield file gives every compound its own position, structure and yield',
     'For every file of SMILES strings with yields, the distinct compounds are numbered 0..n-1 in one consistent map between positions and structures, each has the molecule built from its own SMILES, and '
     'each is given the yield of its own line.',
     ['inputs'], 'all SMILES strings of given lengths, all yields, blank layouts and coincidences between lines', 'no test reads a yield file', ['Parse_eqn_file.py'],
     [('extract_species', 'Parse_eqn_file.py')], 'Up to 3 lines of up to 3 characters (5 lines thorough).')
prop('C26', 'Every species gets the structure of its own entry in the MCM xml or none',
     'For every xml file and mechanism, each species of the mechanism that has an entry with a SMILES gets that SMILES and the molecule built from it; species without one, the listed oxidants and radicals, and '
     'entries that are not in the mechanism get none, and what was parsed from the mechanism is kept.',
     ['inputs'], 'all species names and SMILES strings of given lengths, every subset of entries with a SMILES', 'the MCM xml is not available to the tests', ['Parse_eqn_file.py'],
     [('extract_smiles_species', 'Parse_eqn_file.py')], 'Up to 3 entries, names of up to 3 characters (4 thorough).')

DRV = ['Aerosol/f2py/Aerosol_simulation_f2py.py', 'Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py', 'Gas_simulation.py', 'f2py/Gas_simulation_f2py.py']
prop('C27', 'Aerosol drivers hand the solver aligned properties and the right amounts',
     'For all settings, the aerosol and fixed-yield drivers give the solver density, molecular weight, vapour pressure and transport properties of exactly the condensing species, in ascending order, then water, '
     'with water as one more gas species. Core molecules follow from bin radius, number, density and molecular weight; every bin starts with water in equilibrium with the humidity and nothing else condensed. '
     'Water vapour, start time, fixed yields (ppb to molecules) and constants are those of the settings.',
     ['inputs', 'configurations'], 'all values of the numbers at the top of the drivers, all property values, sizes and yields; several numberings, subsets and bin counts', 'the drivers are not run by any test', DRV[:2],
     [('main program', DRV[0]), ('main program', DRV[1])], 'Up to 4 species and 3 bins (16 thorough).')
prop('C28', 'Drivers build every module the solver imports from the mechanism that is run',
     'In all four drivers, before the simulation is run, each generated module that the solver imports is written from the dictionaries, numbering and converted rates of the mechanism just parsed, and compiled; '
     'only generated files are removed. The solver gets that mechanism, the settings, start time and water vapour, and a run from the saved files gets the same inputs.',
     ['inputs', 'configurations', 'histories'], 'all values of the settings; first run and run from saved files; several numberings and peroxy radical lists', 'the drivers are not run by any test', DRV,
     [('main program', f) for f in DRV], 'Mechanisms of up to 4 species; two runs in a row.')

prop('C29', 'The plots of a run show the saved results',
     'In the composition plots of a fixed-yield run, one per saved time, each size bin stacks one bar per condensed organic compound in order, as high as its share of the organic mass of that bin and standing on the '
     'previous ones; amounts below zero count as zero and the title states the total organic mass in micrograms per cubic metre, whichever compounds are left out of condensation. '
     'The mass plot of a coupled run shows the saved organic mass against the saved times. The curves a gas-phase run draws are the decimal logarithms of the saved concentrations of the species they are labelled with, against the times of the batch ends.',
     ['inputs', 'configurations'], 'all results of up to 2 batches (3 thorough), all molecular weights, several selections of condensing compounds and bin counts', 'no test draws a plot, and a wrong offset or order still gives plausible bars',
     ['Aerosol/f2py/Fixed_yield/Plotting.py', 'Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py', 'Aerosol/f2py/ODE_solver.py', 'f2py/ODE_solver.py', 'ODE_solver.py'],
     [('stacked_bar', 'Aerosol/f2py/Fixed_yield/Plotting.py'), ('run_simulation', 'f2py/ODE_solver.py'), ('run_simulation', 'Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py'), ('run_simulation', 'Aerosol/f2py/ODE_solver.py')],
     'Up to 4 species and 3 bins (16 thorough).')
prop('C30', 'A species that is absent is never consumed',
     'For every mechanism, every non-negative state and every non-negative rate constants, the generated reactant products (Python and Fortran) are not negative, and the generated tendency of a species whose '
     'concentration is zero is not negative, so that exact integration keeps concentrations non-negative. Bath species are not integrated.',
     ['programs', 'inputs'], 'every mechanism of the listed shapes with any coefficients and coincidences of names, all concentrations and rate constants', 'the tests evaluate one state with all species present',
     ['Parse_eqn_file.py'], [(f, 'Parse_eqn_file.py') for f in ('write_reactants_indices', 'write_reactants_indices_fortran', 'write_loss_gain_matrix', 'write_loss_gain_fortran')],
     'Up to 3 reactions with symbolic coefficients, 19 with fixed names.')

LEVEL_NOTE = 'Bounded symbolic execution of the current source; z3 decides every path condition and claim. '


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
    checks, na = [], []
    for p in P:
        if p['na'] or not os.path.exists(os.path.join(HERE, 'props', p['id'].lower() + '.py')):
            na.append({'property': p['id'], 'reason': p['na'] or 'check under construction'})
            continue
        checks.append({'property': p['id'], 'quick_cmd': 'python3-vt run.py %s quick' % p['id'], 'thorough_cmd': 'python3-vt run.py %s thorough' % p['id'],
                       'technique': 'symbolic execution of the real source (and of the code it emits) with z3 deciding every path and claim; counterexamples replayed on the real code',
                       'level': 'model_checking', 'level_note': LEVEL_NOTE + (p['note'] or ''), 'evidence_file': 'evidence/%s.json' % p['id']})
    m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
         'notes': 'Solver-based checking of the real code; see DESIGN.md. known_findings.txt lists repaired and open defects.'}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')


if __name__ == '__main__':
    main()
