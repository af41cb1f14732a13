"""Writes properties.jsonl and MANIFEST.json from the one table below. Run by hand after editing it."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'runtime monitoring: '

# id, title, statement, over, quantifier text, why tests cannot, files, mechanism [(name, where)], technique, level note
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note))


prop('C01', 'Reading an INCAR yields exactly the settings written in it',
     'For every INCAR of lines with one or several settings (tag = value, separated by semicolons) and comments (from # to the end of the line), whether given as a path, '
     'an open file, a string or a dictionary, parsing returns exactly the tags that are set in it, the last setting where there are several, each with the value, type and comment '
     'written there, whatever the letter case, spacing, order and blank lines. All kinds of source give the same result.',
     ['inputs'], 'every well-formed INCAR text over the known tags, and every kind of source',
     'The tests read a handful of fixed INCARs; the grammar (separators, repetitions, comments, types) has unboundedly many combinations.',
     ['parsevasp/incar.py', 'parsevasp/incar.yml', 'parsevasp/utils.py'],
     [('line grammar and type conversion', 'parsevasp/incar.py: Incar._from_string, IncarItem.convert_value'), ('tag catalogue', 'parsevasp/incar.yml')],
     'reference-model oracle over generated INCARs, four sources compared',
     'Exploration: every generated case is decided by an independent model and tag catalogue.')
prop('C02', 'Writing an INCAR and reading it back preserves every setting',
     'For every set of INCAR settings that can be held, writing it to a path or an open file and reading the result gives the same tags, '
     'values, types and comments, and VASP reads the same values from the written text. Writing changes nothing that is held, and '
     'writing what was read back reproduces the same text.',
     ['inputs', 'histories'], 'every INCAR content that can be constructed, written any number of times',
     'The tests round-trip a few fixed contents; type spellings (booleans, lists, text, exponents) and comments combine freely.',
     ['parsevasp/incar.py', 'parsevasp/base.py'], [('writer', 'parsevasp/incar.py: Incar._write'), ('reader', 'parsevasp/incar.py: Incar._from_string')],
     'round-trip oracle with an independent reader of the written text',
     'Exploration over generated contents, with an independent INCAR reader judging the file written.')
prop('C03', 'INCAR edits behave like edits of a map of settings',
     'After any sequence of modifications, deletions, lookups and writes, an INCAR holds exactly what a simple case-insensitive map of settings '
     'would hold after the same sequence. Rejected operations, which end with the documented error, leave it unchanged.',
     ['histories', 'inputs'], 'every sequence of operations on one INCAR, valid and invalid ones mixed',
     'The tests apply single operations; errors that need a history (stale entries, shared state, half-applied edits) are out of their reach.',
     ['parsevasp/incar.py'], [('edits', 'parsevasp/incar.py: Incar.modify, delete, get, get_dict')],
     'state-machine monitor (lock-step reference map) over random histories', 'Exploration of random histories against a lock-step model.')
prop('C04', 'Reading a POSCAR yields exactly the structure in it',
     'For every supported POSCAR, whether given as a path, an open file, a string or a dictionary, parsing returns the cell with its scaling applied, and every '
     'site in order with its species, position, selective dynamics flags, velocity and coordinate kind, together with the comment. All kinds of '
     'source give the same structure.',
     ['inputs'], 'every POSCAR of the supported (VASP 5) layout, all optional blocks and spellings, every kind of source',
     'The tests read three fixed POSCARs; scaling, coordinate kind, selective dynamics, species layout and velocities combine freely.',
     ['parsevasp/poscar.py', 'parsevasp/utils.py'], [('reader', 'parsevasp/poscar.py: Poscar._from_list'), ('sites', 'parsevasp/poscar.py: Site')],
     'reference-model oracle over generated POSCARs', 'Exploration; the structure is computed independently of the code read.')
prop('C05', 'Writing a POSCAR and reading it back preserves the structure',
     'For every structure that can be held, writing it to a path or an open file and reading the result gives the same cell, sites (grouped by species '
     'when they are not), flags, velocities and comment within the printed precision, and what is written is a POSCAR that VASP reads as this structure. '
     'Writing changes nothing that is held.',
     ['inputs', 'histories'], 'every structure that can be constructed, written any number of times',
     'The tests round-trip three fixed structures.', ['parsevasp/poscar.py', 'parsevasp/base.py'],
     [('writer', 'parsevasp/poscar.py: Poscar._write'), ('reader', 'parsevasp/poscar.py: Poscar._from_list')],
     'round-trip oracle with an independent reader of the written text', 'Exploration over generated structures with an independent reader.')
prop('C06', 'POSCAR edits and coordinate conversions keep the structure right',
     'After any sequence of edits, site deletions, coordinate conversions, lookups and writes, a POSCAR describes exactly the structure that a simple model of '
     'the same edits describes, and converting between direct and cartesian coordinates never moves an atom. Rejected operations end with the documented '
     'error and leave the structure unchanged. Dictionaries, lists, sites and arrays handed over are never changed.',
     ['histories', 'inputs'], 'every sequence of operations on one POSCAR, valid and invalid ones mixed',
     'The tests apply single operations on fixed structures.', ['parsevasp/poscar.py', 'parsevasp/utils.py'],
     [('edits', 'parsevasp/poscar.py: Poscar.modify, delete_site'), ('conversions', 'parsevasp/poscar.py: Poscar._to_direct, _to_cart')],
     'state-machine monitor (lock-step reference structure) over random histories', 'Exploration of random histories against a lock-step model.')
prop('C07', 'Reading a KPOINTS yields exactly the sampling in it',
     'For every supported KPOINTS (automatic Gamma and Monkhorst-Pack grids, generating vectors, explicit lists with weights and tetrahedra, line mode), whether given '
     'as a path, an open file, a string or a dictionary, parsing returns the mode, grid, shift, vectors, points, weights, tetrahedra and comment written there. All kinds of '
     'source give the same result.',
     ['inputs'], 'every KPOINTS of the supported modes in all their spellings, every kind of source',
     'The tests read four fixed KPOINTS.', ['parsevasp/kpoints.py', 'parsevasp/utils.py'],
     [('reader', 'parsevasp/kpoints.py: Kpoints._from_list')], 'reference-model oracle over generated KPOINTS',
     'Exploration; the expected sampling is built before the text is.')
prop('C08', 'Writing a KPOINTS and reading it back preserves the sampling',
     'For every sampling that can be held, writing it to a path or an open file and reading the result gives the same mode, grid, shift, points, weights, tetrahedra and comment '
     'within the printed precision, and what is written is a KPOINTS that VASP reads as this sampling. Writing changes nothing that is held.',
     ['inputs', 'histories'], 'every sampling that can be constructed, written any number of times', 'The tests round-trip four fixed samplings.',
     ['parsevasp/kpoints.py', 'parsevasp/base.py'], [('writer', 'parsevasp/kpoints.py: Kpoints._write')],
     'round-trip oracle with an independent reader of the written text', 'Exploration over generated samplings with an independent reader.')
prop('C09', 'KPOINTS edits behave like edits of a sampling',
     'After any sequence of modifications, point deletions, lookups and writes, a KPOINTS holds exactly what a simple model of the sampling holds after the same sequence, with the number of '
     'points in step with the points. Rejected operations end with the documented error and leave it unchanged. Dictionaries, lists and points handed over are never changed.',
     ['histories', 'inputs'], 'every sequence of operations on one KPOINTS, valid and invalid ones mixed', 'The tests apply single operations.',
     ['parsevasp/kpoints.py'], [('edits', 'parsevasp/kpoints.py: Kpoints.modify, delete_point')],
     'state-machine monitor (lock-step reference model) over random histories', 'Exploration of random histories against a lock-step model.')
prop('C10', 'The run status read from OUTCAR is the documented verdict on the run',
     'For every OUTCAR, complete or of a run killed at any line, the reported status (finished, ionic and electronic convergence, consistent or occasional breach of the electronic step limit, last '
     'iteration, limits and number of bands) follows from the iterations, limits and end marker printed in it as documented. A run that never reached its first electronic step ends with the documented error.',
     ['inputs', 'crash_points'], 'every combination of limits, algorithm, ionic and electronic step counts, and every line at which the run may have been killed',
     'The tests look at six fixed runs; the verdict is a function of unboundedly many step histories and kill points.',
     ['parsevasp/outcar.py', 'parsevasp/utils.py'], [('status', 'parsevasp/outcar.py: Outcar._from_list'), ('limits', 'parsevasp/utils.py: match_integer_param')],
     'event-sourced oracle over generated runs and every kind of kill point', 'Exploration; each line of a generated OUTCAR carries its contribution, the verdict of any prefix is the fold of them.')
prop('C11', 'Quantities read from OUTCAR are those printed in it',
     'For every OUTCAR, complete or cut at any line, the symmetry analyses, elastic moduli, magnetization per site, in total and of the cell, and the run time statistics that are reported are the '
     'ones printed, the last printed one where VASP repeats it, each under its own name. Nothing is reported that the file does not contain.',
     ['inputs', 'crash_points'], 'every OUTCAR over the supported blocks, and every line at which it may end',
     'The tests compare a few fixed OUTCARs.', ['parsevasp/outcar.py'],
     [('blocks', 'parsevasp/outcar.py: Outcar._from_list, _parse_timings_memory')], 'event-sourced oracle over generated OUTCARs, whole and cut',
     'Exploration; while a cut falls inside a magnetization table only the absence of invented values is decided.')
prop('C12', 'Known messages in the standard stream are all detected and nothing else is',
     'For every standard stream, the reported entries are exactly the known or configured messages contained in it, in order of appearance, each once by default and every time when '
     'the history is requested, plus the messages configured to be reported when absent. Supplied configuration overrides or extends the catalogue for that stream only, and each entry '
     'carries its kind, location and recoverability.',
     ['inputs', 'configurations', 'histories'], 'every stream over ordinary output, known messages, near misses and repetitions; every configuration; instances interleaved',
     'The tests read three streams with three of the messages.', ['parsevasp/stream.py', 'parsevasp/stream.yml'],
     [('catalogue', 'parsevasp/stream.yml'), ('scan', 'parsevasp/stream.py: Stream._from_list, _add_inverse_triggers')],
     'reference-scan oracle with an own message catalogue', 'Exploration; order within one line is left free.')
prop('C13', 'The density of states read from DOSCAR is the printed one',
     'For every DOSCAR (without spin, spin polarized, non collinear; with or without site projections by l or lm, with or without f) energies, total, integrated and projected densities and metadata are the printed '
     'values, each under its own orbital, spin component and site. A DOSCAR that ends early is refused or gives only values it contains.',
     ['inputs', 'crash_points'], 'every supported column layout, number of sites and energies, and every line at which the file may end',
     'The tests compare values for one layout and shapes for two more.', ['parsevasp/doscar.py'],
     [('column layouts', 'parsevasp/doscar.py: DTYPES_*'), ('reader', 'parsevasp/doscar.py: Doscar._from_list')], 'reference-model oracle over generated DOSCARs, whole and cut',
     'Exploration over all fifteen layouts.')
prop('C14', 'Eigenvalues read from EIGENVAL are the printed ones',
     'For every EIGENVAL the eigenvalues per spin, k-point and band, the k-points with their weights and the metadata are the printed values. A file that ends early never gives a value it does not contain.',
     ['inputs', 'crash_points'], 'every number of spins, k-points and bands, with and without occupancies, and every line at which the file may end',
     'The tests read one file with one k-point.', ['parsevasp/eigenval.py', 'parsevasp/utils.py'], [('reader', 'parsevasp/eigenval.py: Eigenval._from_list')],
     'reference-model oracle over generated EIGENVALs, whole and cut', 'Exploration.')
prop('C15', 'Densities read from CHGCAR are the printed grids over the cell volume',
     'For every CHGCAR (non polarized, collinear, non collinear) the charge and magnetization densities are the printed grids divided by the volume of the scaled cell, indexed with the z grid direction first and x last, each under its own component. '
     'A file that ends inside a grid is refused.',
     ['inputs', 'crash_points'], 'every cell, scaling, grid, spin kind, optional block and every line at which the file may end', 'The tests read three files of the same cell and the same grid.',
     ['parsevasp/chgcar.py'], [('reader', 'parsevasp/chgcar.py: Chgcar._from_file')], 'reference-model oracle over generated CHGCARs, whole and cut', 'Exploration.')
prop('C16', 'Metadata read from POTCAR is what its control section says',
     'For every POTCAR the metadata holds every supported keyword of the control section with its value in the right type and unit, reachable as an attribute in any letter case, and symbol, element and '
     'functional follow from it. Nothing outside the control section is reported and unknown attributes are refused.',
     ['inputs'], 'every control section over the supported keywords', 'The tests read one dummy file in which every number is made of ones.', ['parsevasp/potcar.py'],
     [('reader', 'parsevasp/potcar.py: Potcar._generate_metadata'), ('lookup', 'parsevasp/potcar.py: Potcar.__getattr__')], 'reference-model oracle over generated POTCARs', 'Exploration.')

EXTRA = os.path.join(HERE, 'tools', 'registry_more.py')
if os.path.exists(EXTRA):
    with open(EXTRA, encoding='utf8') as handle:
        exec(compile(handle.read(), EXTRA, 'exec'))  # pylint: disable=exec-used

with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf8') as handle:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        handle.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
py = '/opt/venv/bin/python'
manifest = {
    'version': 1,
    'setup_cmd': f'{py} run.py --selftest',
    'checks': [{'property': p['id'], 'quick_cmd': f"{py} run.py {p['id']} --tier quick", 'thorough_cmd': f"{py} run.py {p['id']} --tier thorough",
                'evidence_file': f"evidence/{p['id']}.json", 'technique': TECH + p['technique'], 'level': 'exploration', 'level_note': p['note']} for p in P],
    'not_applicable': [],
    'notes': 'All checks import parsevasp from the working tree of /repo; no hooks are added to it. VERIF_SEED selects the workload, VERIF_TIER its size.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf8') as handle:
    json.dump(manifest, handle, indent=1)
    handle.write('\n')
print(len(P), 'properties')
