"""The standard stream of VASP: an own catalogue of what parsevasp promises to recognize, and generated streams."""
# shortname: (what VASP prints, location, recoverable)
CATALOGUE = {
    'ibzkpt': ('internal error in subroutine IBZKPT', 'STDOUT', True),
    'brmix': ('BRMIX: very serious problems', 'STDOUT', False),
    'cnormn': ('WARNING: CNORMN', 'STDOUT', False),
    'denmp': ("WARNING: DENMP: can't reach specified precision", 'STDOUT', False),
    'dentet': ('WARNING: DENTET', 'STDOUT', False),
    'edddav_zhegv': ('Error EDDDAV: Call to ZHEGV failed', 'STDOUT', False),
    'eddrmm_zhegv': ('WARNING in EDDRMM: call to ZHEGV failed', 'STDOUT', False),
    'edwav': ('EDWAV: internal error', 'STDOUT', False),
    'fexcp': ('ERROR FEXCP: supplied Exchange', 'STDOUT', False),
    'fock_acc': ('internal error in FOCK_ACC', 'STDERR', False),
    'invgrp': ('internal error in subroutine INVGRP', 'STDOUT', False),
    'kpoints_trans': ('internal error in GENERATE_KPOINTS_TRANS', 'STDERR', False),
    'non_collinear': ('ERROR: non collinear calculations require', 'STDOUT', False),
    'not_hermitian': ('not Hermitian in DAV', 'STDOUT', False),
    'psmaxn': ('PSMAXN for non-local potential too small', 'STDOUT', False),
    'pssyevx': ('Error in subspace rotation PSSYEVX', 'STDOUT', False),
    'pzstein': ('PZSTEIN parameter number had an illegal value', 'STDOUT', False),
    'real_optlay': ('REAL_OPTLAY: internal error', 'STDOUT', False),
    'rhosyg': ('RHOSYG: internal error', 'STDOUT', False),
    'rspher': ('Internal ERROR RSPHER.', 'STDOUT', False),
    'set_indpw_full': ('internal error in SET_INDPW_FULL: insufficient', 'STDOUT', False),
    'sgrcon': ('internal error in subroutine SGRCON', 'STDOUT', False),
    'zbrent': ('ZBRENT: fatal error in bracketing', 'STDOUT', False),
    'no_potim': ('Fatal error! IBRION=0, but no entry for POTIM on file INCAR. MUST be specified!!', 'STDOUT', False),
    'magmom': ("Error reading item 'MAGMOM' from file INCAR", 'STDOUT', False),
    'bandocc': ('TOO FEW BANDS', 'STDOUT', False),
}
STARTS = [' vasp.5.4.4.18Apr17-6-g9f103f2a35 (build Aug  3 2020 11:46:08) complex', ' vasp.6.3.2 27Jun22 (build x) complex',
          ' vasp.5.3.5 31Mar14 gamma-only', ' vasp.6.1.0 28Jan20 non-collinear']
QUIET = [' running on    1 total cores', ' distrk:  each k-point on    1 cores,    1 groups', ' using from now: INCAR',
         ' POSCAR found :  1 types and       2 ions', ' scaLAPACK will be used', ' LDA part: xc-table for Pade appr. of Perdew',
         '', ' entering main loop', '       N       E                     dE             d eps       ncg     rms          rms(c)',
         'DAV:   1     0.119737E+02    0.11974E+02   -0.13486E+03   192   0.302E+02',
         'RMM:  12    -0.119737E+02    0.11974E-05   -0.13486E-03   192   0.302E-02', '   1 F= -.54E+01 E0= -.54E+01  d E =-.5E+01',
         ' reached required accuracy - stopping structural energy minimisation', ' writing wavefunctions',
         ' VASP has been executed', ' bracketing of the minimum', ' TOO MANY BANDS', ' internal error in subroutine UNKNOWN',
         ' BRMIX: serious problems', ' WARNING: small aliasing (wrap around) errors must be expected', ' ZBRENT: accuracy reached',
         ' too few bands', " Error reading item 'ENCUT' from file INCAR", ' REAL_OPT: new file', ' EDDDAV: Call to ZHEEV',
         ' not hermitian in dav', ' Internal ERROR RSPHE', '\tDAV: tab', ' \u00e9\u00e9n \u2014 utf8']
CUSTOM = ['abc[0-9]+', '^ start of line', 'end of line$', '(alpha|beta) decay', r'E0= *-\.54', r'DAV: +\d+ +0\.1', 'ZBRENT', 'internal error',
          'scaLAPACK', 'small aliasing']
CUSTOM_LINES = [' abc123', ' start of line here', ' at the end of line', ' beta decay', ' internal error of another kind',
                ' abc', 'not start of line', ' end of line.', ' ZBRENT']


def entry(rng, kinds=('ERROR', 'WARNING')):
    out = {'kind': rng.choice(kinds) if rng.random() < .8 else rng.choice(['error', 'Warning', 'Error', 'warning']), 'regex': rng.choice(CUSTOM), 'message': rng.choice(['some message', 'Broken.'])}
    if rng.random() < .6:
        out['suggestion'] = rng.choice(['', 'do this'])
    if rng.random() < .6:
        out['location'] = rng.choice(['STDOUT', 'STDERR'])
    if rng.random() < .6:
        out['recover'] = rng.choice([True, False])
    if rng.random() < .25:
        out['inverse'] = rng.choice([True, True, False])
    return out


def config(rng):
    out = {}
    for _ in range(rng.randint(1, 4)):
        name = rng.choice(list(CATALOGUE) + ['nostart'] + [f'own{i}' for i in range(6)] * 4)
        out[name] = entry(rng)
    return out


def lines(rng, size=None, wide=True):
    out = []
    started = rng.random() < .7
    size = size if size is not None else rng.choice([0, 1, 3, 10, 40])
    for _ in range(size):
        what = rng.random()
        if what < .55:
            out.append(rng.choice(QUIET))
        elif what < .85:
            text = CATALOGUE[rng.choice(list(CATALOGUE))][0]
            style = rng.random()
            if style < .2:
                out.append(text)
            elif style < .8:
                out.append(rng.choice([' ', ' VERY BAD NEWS! ', '|     ', ' 12 ']) + text + rng.choice(['', ':', ' and so on', '     |']))
            elif style < .85 and wide:
                out.append('x' * rng.choice([100, 131, 132, 200, 300, 5000]) + ' ' + text + rng.choice(['', ' ' * 300 + 'y']))
            elif style < .9:
                out.append(text[:-1])  # near miss
            else:
                out.append(text + ' ' + CATALOGUE[rng.choice(list(CATALOGUE))][0])
        else:
            out.append(rng.choice(CUSTOM_LINES))
        if rng.random() < .15 and out:
            out.append(out[-1])
    if started:
        for _ in range(rng.choice([1, 1, 2])):
            out.insert(rng.randint(0, len(out)), rng.choice(STARTS))
    return out


def expected(text_lines, own, history):
    """Return (per line groups of shortnames in order, names of the missing must-haves, attributes)."""
    import re
    rules = {name: {'kind': 'ERROR', 'rx': re.compile(re.escape(text)), 'location': loc, 'recover': rec, 'inverse': False}
             for name, (text, loc, rec) in CATALOGUE.items()}
    rules['nostart'] = {'kind': 'ERROR', 'rx': re.compile(r'vasp\.'), 'location': 'STDOUT', 'recover': False, 'inverse': True}
    for name, conf in (own or {}).items():
        rules[name] = {'kind': conf['kind'], 'rx': re.compile(conf['regex']), 'location': conf.get('location', 'STDOUT'),
                       'recover': conf.get('recover', False), 'inverse': conf.get('inverse', False),
                       'message': conf['message'], 'suggestion': conf.get('suggestion')}
    seen = set()
    groups = []
    for line in text_lines:
        hits = []
        for name, rule in rules.items():
            if rule['rx'].search(line):
                if not rule['inverse'] and (history or name not in seen):
                    hits.append(name)
                seen.add(name)
        if hits:
            groups.append(hits)
    missing = sorted(name for name, rule in rules.items() if rule['inverse'] and name not in seen)
    return groups, missing, rules
