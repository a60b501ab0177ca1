#!/usr/bin/env python3
"""writes MANIFEST.json: one check per omgv/checks/cNN.py that is listed in CLAIMS"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'symbolic execution of the real code (Python re-execution over terms, CasADi graph translation) decided by z3'
TECHS = {'C19': 'symbolic execution of the exported C++ (compiled with a symbolic scalar in the place of double) and of the Python problem, compared by z3'}
CLAIMS = {
    'C01': 'exact for concrete knot vectors, all coefficients and all points; z3 LRA over monomials',
    'C02': 'exact for concrete knot vectors, all coefficients; symbolic first-knot shift (NRA)',
    'C03': 'all values of decision and parameter vectors; symbolic time for shutdown',
    'C04': 'every value of decision variables, obstacle motion and time within the bounds of each scene; LRA over monomials',
    'C05': 'every value of decision variables, parameters and time within the bounds of each scene; LRA over monomials',
    'C06': 'every value of decision variables, parameters and time within the bounds of each scene; LRA over monomials',
    'C07': 'every smooth trajectory (values and derivatives of the flat outputs are free reals); every path; NRA',
    'C08': 'every value of decision variables, prediction, target and time within the bounds of each scene; LRA over monomials',
    'C10': 'every initial state, command value and command time in two calls of 1-3 samples; every path; LRA/NRA',
    'C11': 'every plan (spline coefficients) and clock value within the stated timings; loops of 3-6 updates, run, run_once, step and sleep; LRA/NRA',
    'C12': 'every local solution, copy and multiplier; up to 6 iterations of fleets of 2-4 vehicles; LRA',
    'C13': 'every configuration and every trajectory coefficient for fleets of 2-6 vehicles; LRA over monomials',
    'C14': 'search: every occupancy of grids up to 3 x 3 and 4 x 3; occupied cells: every position and size of an obstacle; every path; LRA/NRA',
    'C15': 'every position, size and velocity of an obstacle, way-points of bounded paths; every path; LRA/NRA',
    'C17': 'one line after any position, whole files, every value of each number; arcs of 0.01 to 100 mm; NRA',
    'C16': 'every point, size and placement in [-10, 10]; every path; polygons of up to 8 vertices; NRA',
    'C18': 'every value of decision variables, initial state and motion times of each program; LRA over monomials; hand-over: every tool position',
    'C19': 'every measured state, target, obstacle state and solver answer in scripts of 4-7 updates of the exported C++ program, point-to-point and teams of 2-4 (formation, rendez-vous); LRA',
    'C09': 'all values of state, input, target, tolerance; every path',
}
PENDING = 'check not built yet'
NA = {
    'C20': 'convergence of the interior-point solver to a solution is a property of IPOPT (external binary), not of code that can be encoded here',
}
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        checks.append(dict(property=i, quick_cmd='bin/check %s quick' % i, thorough_cmd='bin/check %s thorough' % i,
                           technique=TECHS.get(i, TECH), level='other', level_note=CLAIMS[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, PENDING)))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not claimed')
