"""MANIFEST.json: one entry per property that has a check module; the rest must have a reason in NA."""
import json, os
NA = {'C38': 'finite tables of literal constants without inputs: there is no variable for a solver to quantify over, the statement is a comparison of constants '
             '(it is also violated by the get_frequencies_sat("MWS") entry for 57.29 GHz, which the existing test pins)'}
TECH = 'symbolic execution of the real Python code; path conditions and assertions decided by Z3 (nonlinear reals, axiomatised elementary functions), counterexamples replayed concretely'
NOTE = {}
DEF = ('For every path of the encoded functions within the stated bounds the solver shows the assertion over real arithmetic; '
       'trusted: the numpy shim, the normaliser and axioms for exp/log/trigonometric functions, Z3, and that rounding stays within 1e-6 relative '
       '(each path is cross-checked by one concrete run).')


def write(here, props):
    checks, na = [], []
    for e in props:
        i = e['id']
        if os.path.exists(os.path.join(here, 'checks', i.lower() + '.py')) and i not in NA:
            checks.append(dict(property=i, quick_cmd='/opt/venv/bin/python run.py %s --tier quick' % i,
                               thorough_cmd='/opt/venv/bin/python run.py %s --tier thorough' % i,
                               evidence_file='evidence/%s.json' % i, technique=TECH, level='model_checking',
                               level_note=NOTE.get(i, DEF)))
        else:
            na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
    m = dict(version=1, setup_cmd='/opt/venv/bin/python run.py --selfcheck', checks=checks, not_applicable=na)
    with open(os.path.join(here, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')
