"""C18: eigenvalues, occupancies, densities of states, projections, velocities and response functions of vasprun.xml are the printed ones."""
from rvlib import xml_gen as gen, xml_oracle as oracle
from rvlib.core import Stream

PROPERTY = 'C18'
RULE = ('Random vasprun.xml files: one spin, two spins and non-collinear; with and without occupancies; total and partial density of states and '
        'projections for 3, 4, 9 and 16 orbitals; interpolated eigenvalues, velocities and density of states next to the regular ones; Hessian, '
        'dynamical matrix, Born charges, dielectric tensors and one or several dielectric functions; both orders of the band and k-point index; '
        'parsed whole or in events; with selective dynamics; next to what KPOINTS_OPT adds; some with 1200 k-points or bands, or 120 atoms.')
ASSUMPTIONS = ['The generated files have the element layout of the vasprun.xml files VASP 5 and 6 write.']
NAMES = ('spin', 'ncl', 'eigenvalues', 'no-occupancies', 'dos', 'partial', 'projectors', 'projectors.distinct-sizes', 'interpolated', 'velocities',
         'dos-interpolated', 'dielectrics', 'dielectrics.several', 'epsilon', 'epsilon-ion', 'born', 'dynmat', 'projectors.3', 'projectors.4',
         'projectors.9', 'projectors.16', 'kpoints-opt', 'dynmat.selective', 'other-grid-behind', 'more-columns')
REQUIRED = {**{'feat.' + name: 20 for name in NAMES}, 'mode.regular': 100, 'mode.event': 100, 'electronic.large': 30, 'k-first': 100, 'band-first': 100}
WANT = ('spin', 'ncl', 'partial', 'projectors', 'interpolated', 'velocities', 'dielectrics', 'born', 'dynmat', 'epsilon', 'kpoints-opt')


def electronic(rng, cx, **kwargs):
    want = set(rng.sample(WANT, rng.choice([0, 1, 2, 3]))) | {'eigenvalues', 'dos'}
    if rng.random() < .1:
        want = set()
    text, model, feats = gen.build(rng, small=rng.random() < .7, want=want, nsteps=rng.choice([1, 1, 1, 2]), **kwargs)
    cx.sample(text=text)
    for feat in feats:
        cx.event('feat.' + feat)
    mode = rng.choice(['regular', 'event'])
    kfirst = rng.random() < .5
    cx.event('mode.' + mode)
    cx.event('k-first' if kfirst else 'band-first')
    cx.sample(mode=mode, kfirst=kfirst)
    how = rng.choice(oracle.WAYS)
    xml = cx.must(oracle.read(cx, text, how, event=mode == 'event', k_before_band=kfirst), 'valid-rejected')
    oracle.electronic(cx, xml, model, kfirst)
    oracle.response(cx, xml, model)
    cx.shape(mode, kfirst, sorted(feats), model['natoms'], model['nkpts'], model['nbands'], model['norb'])


def large(rng, cx):
    """Sizes of production runs, every one of them past what is printed in a column or two of digits."""
    electronic(rng, cx, **rng.choice([{'natoms': 40, 'nkpts': 12, 'nbands': 12}, {'natoms': 120, 'nkpts': 2, 'nbands': 5}, {'nkpts': 120, 'nbands': 12},
                                      {'nkpts': 1200, 'nbands': 2}, {'nkpts': 2, 'nbands': 1200}]))
    cx.event('electronic.large')


STREAMS = [Stream('large', large, 48, 576), Stream('electronic', electronic, 19200, 230400)]
