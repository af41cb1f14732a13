"""C17: parameters, structures, forces, stress and energies of every ionic step read from vasprun.xml are the printed ones."""
from rvlib import xml_gen as gen, xml_oracle as oracle
from rvlib.core import Stream

PROPERTY = 'C17'
RULE = ('Random vasprun.xml files of 1-11 (also 1001) ionic steps, 1-18 (also 1200) atoms of 1-3 species, 1-12 electronic steps per ionic step, with and without '
        'forces and stress, decoy entries (INCAR section, primitive cell, response function NELM, inner k-points), parsed whole or in '
        'events, given as path, memory, binary or text file; all steps or only first and last.')
ASSUMPTIONS = ['The generated files have the element layout of the vasprun.xml files VASP 5 and 6 write.']
REQUIRED = {'mode.regular': 100, 'mode.event': 100, 'mode.first-last': 50, 'feat.steps': 100, 'feat.step': 100, 'feat.atoms.3': 20,
            'feat.atoms.1': 20, 'feat.no-stress': 20, 'feat.no-forces': 10, 'energies.compared': 200, 'feat.inner-kpoints': 5, 'feat.structure.selective': 100,
            'feat.structure.velocities': 100, 'feat.step.gaps': 30, 'feat.step.no-scsteps': 100, 'feat.step.no-final': 30}
PROB = {'want': set()}


def case(rng, cx, **kwargs):
    text, model, feats = gen.build(rng, small=rng.random() < .6, **kwargs)
    cx.sample(text=text)
    for feat in feats:
        cx.event('feat.' + feat)
    mode = rng.choice(['regular', 'event', 'first-last'])
    how = rng.choice(oracle.WAYS)
    cx.event('mode.' + mode)
    cx.event('source.' + how)
    cx.sample(mode=mode, how=how)
    xml = cx.must(oracle.read(cx, text, how, event=mode == 'event', extract_all=mode != 'first-last'), 'valid-rejected')
    cx.check(xml.truncated is False, 'called-truncated')
    oracle.parameters(cx, xml, model)
    oracle.structures(cx, xml, model, every=mode != 'first-last')
    oracle.energies(cx, xml, model, rng)
    cx.shape(mode, how, model['steps'], model['natoms'], sorted(feats), [len(t['energy_free']) for t in model['data']['totens'].values()])


def steps(rng, cx):
    case(rng, cx)


def longer(rng, cx):
    """Runs of ten and more steps."""
    case(rng, cx, nsteps=rng.choice([9, 10, 11, 12, 21, 101]))
    cx.event('long-runs')


def large(rng, cx):
    """Hundreds of atoms, or a thousand of steps."""
    case(rng, cx, **rng.choice([{'natoms': 1200, 'nsteps': 2}, {'natoms': 300, 'nsteps': 11}, {'natoms': 5, 'nsteps': 1001}]))
    cx.event('steps.large')


STREAMS = [Stream('large', large, 32, 384), Stream('steps', steps, 11200, 134400), Stream('longer', longer, 1120, 13440)]
REQUIRED['long-runs'] = 100
REQUIRED['steps.large'] = 16
