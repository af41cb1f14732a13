# Continues the table of registry.py.  # noqa
prop('C17', 'Steps and parameters read from vasprun.xml are the printed ones',
     'For every vasprun.xml, the version, input parameters, species, k-points, weights and divisions, and for every ionic step the cell, positions, forces, stress and energies '
     '(of every electronic step, and the final ones) are the printed values, each under its own step, and the first and last step are given when asked for. This holds whether the file is '
     'parsed whole or in events, and whether all steps or only the first and last are kept.',
     ['inputs', 'configurations'], 'every number of atoms, ionic and electronic steps, entries absent or present, both parsing modes, every kind of source',
     'The tests compare selected numbers of a few fixed files, with two and eight atoms.', ['parsevasp/vasprun.py'],
     [('whole parse', 'parsevasp/vasprun.py: Xml._fetch_upfsw, _fetch_totensw'), ('event parse', 'parsevasp/vasprun.py: Xml._parsee'), ('energies', 'parsevasp/vasprun.py: Xml._get_energies')],
     'reference-model oracle over generated XML files', 'Exploration; the content is drawn before the file is printed from it.')
prop('C18', 'Electronic and response data read from vasprun.xml are the printed ones',
     'For every vasprun.xml the eigenvalues, occupancies, total and partial densities of states, Fermi level, projections, velocities, interpolated quantities, Hessian, dynamical matrix, Born charges and '
     'dielectric tensors and functions are the printed values, indexed by spin, band, k-point, atom and orbital as documented and as the requested index order says. Regular and interpolated quantities are kept apart, '
     'magnetization components are never passed off as a spin channel, and what the file does not contain is None.',
     ['inputs', 'configurations'], 'every combination of blocks, spins, orbitals, bands, k-points and atoms, both parsing modes and index orders',
     'The tests compare selected numbers of one file per block.', ['parsevasp/vasprun.py'],
     [('eigenvalues', 'parsevasp/vasprun.py: Xml._extract_eigenvalues'), ('projections', 'parsevasp/vasprun.py: Xml._extract_projectors'), ('density of states', 'parsevasp/vasprun.py: Xml._fetch_dosw, _extract_dos')],
     'reference-model oracle over generated XML files', 'Exploration; sizes are drawn distinct so that swapped indices show.')
prop('C19', 'Both parsing modes and all sources of vasprun.xml give the same result',
     'Parsing a vasprun.xml in events gives the same content as parsing it whole, wherever the pieces in which the file is read end, and whether it is given as a path, or as a handler in memory, in binary or in text mode, '
     'fresh or already used. Without lxml, the standard library gives that result, too.',
     ['inputs', 'schedules'], 'every file, every alignment of its content with the 32 KB read buffer, every kind of source',
     'The tests run both modes on fixed files, whose buffer boundaries never move.', ['parsevasp/vasprun.py'],
     [('event parse', 'parsevasp/vasprun.py: Xml._parsee'), ('whole parse', 'parsevasp/vasprun.py: Xml._parsew')],
     'differential monitor over shifted files (content aligned to buffer boundaries)', 'Exploration; boundaries are aimed at numbers, their edges and tags.')
prop('C20', 'Damaged vasprun.xml files are recognised and never give invented values',
     'For a vasprun.xml that ends early anywhere, the truncation is reported, and every value still given is one the file contained, under its own step, spin, atom and orbital; otherwise the entry is missing or the parser ends with a documented error. '
     'A number that overflowed into asterisks ends the parser with the documented error when it belongs to something that is extracted. Numbers that run into each other are not replaced by made up ones.',
     ['crash_points', 'inputs'], 'every position at which the file may end and every number that may overflow', 'The tests look at one truncated and one overflowed file.', ['parsevasp/vasprun.py'],
     [('truncation', 'parsevasp/vasprun.py: Xml._set_xml_truncated, _parsew'), ('overflow', 'parsevasp/vasprun.py: Xml._convert_text, _convert_f')],
     'prefix oracle over cut and damaged files', 'Exploration; each cut file is judged against the content it was cut from.')
prop('C21', 'All sources give the same content, and parsing leaves the process as it was',
     'For every one of the ten formats, a file gives the same content whether it is handed over as a path, an open file, memory or a string, and with Unix or Windows line ends. An open file is read from where it stands (vasprun.xml from its start), a path may have any name, and is read anew each time. Parsing, asking and failing to parse, be the file valid, damaged or absent, '
     'leaves no file open, closes no handler of the caller, writes, moves or touches no file, prints nothing, and changes neither the arguments nor the working folder, environment, locale, random state or numerical settings of the process. '
     'A path without a file ends with the documented error. What was read does not change when the file does.',
     ['inputs', 'fault_sequences'], 'every format, kind of source, valid and damaged file', 'The tests parse valid fixed files, mostly from paths, and look only at the values.',
     ['parsevasp/base.py', 'parsevasp/utils.py', 'parsevasp/vasprun.py', 'parsevasp/potcar.py'],
     [('reading a source', 'parsevasp/utils.py: read_from_file'), ('opening and closing', 'parsevasp/base.py: open_close_file_handler'), ('own readers', 'parsevasp/chgcar.py, parsevasp/vasprun.py: Xml._parse')],
     'process state monitor (descriptors, files, environment, output) around every call, and a differential oracle over the sources', 'Exploration over valid, damaged and absent files of all formats.')
prop('C22', 'Questions never change an instance and instances never influence each other',
     'Whatever an instance of any of the ten parsers was asked before, in whichever order, it answers every question as if it was the first one, and what it has handed out stays as it was whatever is done to the instance later. '
     'Instances made, edited and dropped in any interleaving, from the same or from different sources, in one thread or in several, behave as each would on its own.',
     ['histories', 'schedules'], 'every order of questions, every interleaving of instances, every thread schedule', 'The tests make one instance at a time, and ask it once.',
     ['parsevasp/base.py', 'parsevasp/stream.py', 'parsevasp/incar.py', 'parsevasp/poscar.py', 'parsevasp/kpoints.py', 'parsevasp/vasprun.py'],
     [('class level state', 'parsevasp/stream.py: Stream.__init__'), ('dictionaries handed out', 'parsevasp/poscar.py: Poscar.get_dict'), ('lookup', 'parsevasp/vasprun.py: Xml.get_*')],
     'differential monitor: every answer of shared, interleaved and threaded runs against the one of an instance used alone', 'Exploration; the threads switch every microsecond.')
prop('C23', 'Mistakes are refused with the documented error, reported once',
     'Whatever otherwise valid content, argument or request contains a mistake that the documentation lists an error for, in any of the ten parsers, wherever it sits, is refused with exactly that error: its exit code, or its exception. '
     'The message arrives exactly once at the logger the caller supplied, or, when there is none, on the standard channels, and nowhere else. Valid content reports no error at all.',
     ['inputs', 'fault_sequences'], 'every documented error, at every place of every content, for each way of logging', 'The tests trigger a few of the errors, at one place each, and never look at what is logged.',
     ['parsevasp/base.py', 'parsevasp/incar.py', 'parsevasp/poscar.py', 'parsevasp/kpoints.py', 'parsevasp/vasprun.py'],
     [('messages and codes', 'parsevasp/base.py: BaseParser.ERROR_MESSAGES, BaseParser.__init__'), ('entry checks', 'parsevasp/poscar.py: Poscar._check_dict, Poscar._check_sites; parsevasp/kpoints.py: Kpoints._check_dict')],
     'monitor of exit codes, exceptions, log records and output around single planted mistakes, with the content without the mistake as control', 'Exploration; one mistake per case, at a random place.')
prop('C24', 'Writes arrive complete or fail loudly, and refused ones touch nothing',
     'write of any parser puts exactly the content of the instance, as get_string gives it, to the path or to where the handler stands, and nothing else: what a file held before is gone, what a handler holds before and behind stays, '
     'the handler stays open and stands at the end of what was written. Requests that can not be met (content that can not be written, formats without a writer, both or neither of path and handler, empty ones, missing folders) are refused with the documented error '
     'before any file is touched. A fault during the write (a failing handler, a full device, a file size limit) reaches the caller as it is, leaves nothing open and the instance unchanged, and the write can be repeated.',
     ['fault_sequences', 'histories'], 'every content, target, request and every point at which a write may fail', 'The tests write to fresh files, and none of the writes fails.',
     ['parsevasp/base.py', 'parsevasp/incar.py', 'parsevasp/poscar.py', 'parsevasp/kpoints.py'],
     [('write', 'parsevasp/base.py: BaseParser.write'), ('writers', 'parsevasp/incar.py, parsevasp/poscar.py, parsevasp/kpoints.py: _write')],
     'fault injection into the writes, with a monitor of targets, handlers, descriptors and the instance', 'Exploration; faults are injected at random and at the first and last writes.')
prop('C25', 'The same content gives the same answers in every setting of the process',
     'What any of the ten parsers answers, refuses and writes is decided by the content and the arguments alone: not by the hash seed, optimization or development mode of the interpreter, the locale and its encoding, warnings being errors, '
     'the print options, error handling or random state of numpy, the decimal context, the logging set up, missing standard channels, the order in which parts are imported, a tracer, threads or event loops, garbage collection or the working folder. '
     'Valid vasprun.xml files also give the same without lxml. No part needs anything but the content, and none prints.',
     ['inputs', 'configurations'], 'every content in every combination of settings', 'The tests run in one process with one setting, that of the developer.',
     ['parsevasp/base.py', 'parsevasp/utils.py', 'parsevasp/vasprun.py', 'parsevasp/stream.py', 'parsevasp/incar.py', 'parsevasp/constants.py'],
     [('imports and fallbacks', 'parsevasp/vasprun.py: USE_LXML'), ('writing numbers', 'parsevasp/poscar.py, parsevasp/incar.py, parsevasp/kpoints.py: _write'), ('opening', 'parsevasp/base.py, parsevasp/utils.py')],
     'differential monitor: fresh processes in hostile settings against one in the standard setting', 'Exploration; every setting has its turn, alone and with others.')
prop('C26', 'Work and memory grow with the content alone, and nothing piles up',
     'Reading, asking and writing any of the ten formats takes work and memory in proportion to the content, in whichever direction it grows (sites, points, tetrahedra, steps, electronic steps, atoms, bands, energies, grid, lines, comments, blank lines), in both ways of reading vasprun.xml. '
     'A process that reads, refuses, edits, writes and drops content again and again does the same work each time, and keeps no memory, objects, handlers or open files of what it dropped.',
     ['inputs', 'histories'], 'every size of content, every history of a process', 'The tests use small files, once each.',
     ['parsevasp/poscar.py', 'parsevasp/vasprun.py', 'parsevasp/outcar.py', 'parsevasp/stream.py', 'parsevasp/base.py', 'parsevasp/kpoints.py', 'parsevasp/doscar.py', 'parsevasp/eigenval.py'],
     [('event parse', 'parsevasp/vasprun.py: Xml._parsee'), ('loggers', 'parsevasp/base.py: BaseParser.__init__'), ('triggers', 'parsevasp/stream.py: Stream._from_list'), ('sites', 'parsevasp/poscar.py: Poscar._from_list, _write')],
     'cost monitor: executed lines counted, allocations traced and time taken while content grows and rounds repeat', 'Exploration; growth of executed lines and memory is exact, growth inside compiled parts is seen by the clock with a wide margin.')
prop('C27', 'The helpers shared by the parsers do what they document, for every input',
     'Positions are converted between direct and Cartesian coordinates, one or many at a time, as the cell says, each way undoing the other, and the reciprocal cell times the cell is 2 pi on the diagonal and zero elsewhere. '
     'A text is told to be an integer, a float, a list of numbers or none of these as Python converts it, numbers written by Fortran without exponent letter get the value they stand for, and the items of a line or of the next line of a handler, and integer parameters, are given in the type asked for. '
     'Files are read as a whole, by lines or by those with an identifier, in any encoding, opened, closed, checked for and shortened by their last newlines exactly as asked, handlers go before names, what is missing ends with the documented error, and parsers users derive from the base class write what they mean to.',
     ['inputs'], 'every cell, position, text, line, file and request', 'The tests reach the helpers only through the parsers, with the few cells and texts of their files.',
     ['parsevasp/utils.py', 'parsevasp/base.py'],
     [('coordinates', 'parsevasp/utils.py: dir_to_cart, cart_to_dir, lat_to_reclat'), ('texts', 'parsevasp/utils.py: test_string_content, is_number, is_numbers, fortran_float, line_to_type, match_integer_param'), ('files', 'parsevasp/utils.py: read_from_file, file_exists, remove_newline; parsevasp/base.py: open_close_file_handler, BaseParser.write')],
     'exact rational arithmetic and generated texts as oracles, with a monitor of descriptors and log records', 'Exploration; rounding is allowed for in proportion to the condition of the cell.')
