"""Writes /verif/properties.jsonl (developer tool)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe))))

prop('A01', "Operations never modify the caller's data",
 "No public operation writes into an array, list, dictionary or set handed to it by its caller, "
 "neither at once nor later through an object that kept it, unless that argument is a documented "
 "output. Queries leave the containers held by the objects they read unchanged.",
 ['inputs', 'histories'],
 'every public function, every argument, every chain of internal calls the argument travels '
 'through, every aliasing view (reshape, slice, asarray, broadcast) of it, every later call on an '
 'object that kept it',
 'Tests compare results, hardly ever the inputs after the call, and only for the one dtype/shape '
 'they pass; a no-copy path (already float64, already 2-D, already contiguous) is usually not the '
 'one sampled.',
 ['hexrd/core/rotations.py', 'hexrd/core/matrixutil.py', 'hexrd/core/material/crystallography.py',
  'hexrd/core/instrument/hedm_instrument.py', 'hexrd/powder/wppf/WPPF.py',
  'hexrd/hedm/fitting/grains.py', 'hexrd/core/imageseries/stats.py'],
 [('explicit copies before in-place arithmetic', 'np.array/.copy() at the head of the numerical helpers'),
  ('documented outputs', 'parameters that functions are documented to fill')],
 observe=['the argument after the call'])

prop('A02', 'Reference tables and default arguments never change',
 "Lists, dictionaries, sets and arrays defined at module or class level, and the default values of "
 "parameters, keep their initial contents for the life of the process, whatever operations run. "
 "Only registries filled when classes are created and names explicitly rebound as run-time state "
 "are exempt.",
 ['histories', 'inputs'],
 'every function, every alias of a table or default that it can obtain (through returned rows, '
 'stored attributes, views), every sequence of calls in one process',
 'A changed table shows up only in a later, unrelated call in the same process; tests build fresh '
 'objects and rarely run two operations on shared tables in the sensitive order.',
 ['hexrd/core/constants.py', 'hexrd/core/material/unitcell.py', 'hexrd/core/material/symbols.py',
  'hexrd/core/material/material.py', 'hexrd/core/instrument/constants.py',
  'hexrd/powder/wppf/WPPF.py'],
 [('copies of class defaults', 'constructors copy default tables before editing them'),
  ('None defaults', 'mutable defaults created inside the function')],
 observe=['the module or class attribute after the operation'])

prop('A03', 'Derived state follows the inputs it was computed from',
 "After any public setter or update of an object (material, unit cell, plane data, instrument, "
 "panel, grid, refinement model), every quantity the object keeps that was computed from the "
 "changed value is recomputed or discarded before it can be read again. No setter that refreshed "
 "derived state stops doing so on any of its successful paths.",
 ['histories', 'inputs'],
 'every setter and update method, every stored attribute computed from the value it changes, every '
 'path through the setter, every order of setter calls and reads',
 'There are many setters and many derived attributes; tests exercise a handful of (set, read) '
 'pairs and none the full product with histories.',
 ['hexrd/core/material/material.py', 'hexrd/core/material/unitcell.py',
  'hexrd/core/material/crystallography.py', 'hexrd/core/instrument/detector.py',
  'hexrd/core/instrument/hedm_instrument.py', 'hexrd/powder/wppf/WPPF.py',
  'hexrd/powder/wppf/peakfunctions.py'],
 [('recalculation hooks called from setters', 'property setters in the listed classes'),
  ('cache invalidation', 'attributes reset to None in setters')],
 observe=['getter results after a setter'])

prop('A04', 'Memoized results are complete functions of their key and cannot be altered',
 "A cached result is returned only for arguments (and object state) equal in every respect that "
 "the computation reads, and a cached array handed out to one caller can not be changed by that "
 "caller so as to reach another. A cache is bounded or its entries are validated against the "
 "object they belong to.",
 ['histories', 'inputs'],
 'every memoized function, every argument it reads, every sequence of calls',
 'A wrong hit needs two calls whose arguments differ only in the part missing from the key; tests '
 'call with one configuration per process.',
 ['hexrd/core/utils/decorators.py', 'hexrd/core/instrument/detector.py',
  'hexrd/core/instrument/planar_detector.py', 'hexrd/core/instrument/cylindrical_detector.py',
  'hexrd/core/imageseries/process.py'],
 [('argument hashing', 'hexrd/core/utils/decorators.py memoize'),
  ('read-only cached arrays', 'hexrd/core/utils/decorators.py')])

prop('A05', 'Parallel workers share no unprotected mutable state',
 "Work dispatched to threads, processes or parallel loops writes only to storage no other worker "
 "touches, or under a lock held on every path, and reads nothing another worker writes. The answer "
 "therefore does not depend on the number of workers or their schedule.",
 ['schedules', 'configurations'],
 'every function submitted to an executor or pool, every parallel loop body, every shared object '
 'they reach, every interleaving',
 'Races need a particular interleaving; the suite runs small inputs, mostly in one worker.',
 ['hexrd/core/instrument/hedm_instrument.py', 'hexrd/hedm/indexer.py', 'hexrd/hedm/fitgrains.py',
  'hexrd/hedm/findorientations.py', 'hexrd/core/imageseries/load/framecache.py',
  'hexrd/core/imageseries/load/rawimage.py', 'hexrd/core/transforms/xfcapi.py'],
 [('locks', 'threading.Lock in image loaders'), ('disjoint output slices', 'parallel loops')])

prop('A06', 'Results are reproducible: no hidden randomness or iteration order',
 "With the same inputs and options every operation gives the same result: random numbers are drawn "
 "only where randomness is the documented purpose, and no result order depends on directory "
 "listing order, set iteration order, completion order of workers, or the clock.",
 ['configurations', 'schedules', 'inputs'],
 'every function whose result leaves the library, every environment (file system, hash seed, '
 'number of workers)',
 'The suite runs once, in one environment with one hash seed and file system.',
 ['hexrd/core/imageseries/load/imagefiles.py', 'hexrd/hedm/findorientations.py',
  'hexrd/core/material/material.py', 'hexrd/powder/wppf/WPPF.py'],
 [('sorted listings', 'sorted(glob(...))'), ('ordered result collection', 'executor.map')])

prop('A07', 'Files are closed and temporary state is restored on every exit',
 "Every file an operation opens for itself is closed on every way out, including exceptions, so "
 "that what it wrote is complete and the file can be reopened at once. State that an operation "
 "changes temporarily, on objects or in the process, is put back on every way out.",
 ['fault_sequences', 'inputs'],
 'every acquisition of a file or pool in the library, every path from it to an exit of the '
 'function including exceptional ones',
 'The exceptional exits need a fault between opening and closing; tests run the normal path.',
 ['hexrd/core/imageseries/save.py', 'hexrd/core/material/mksupport.py',
  'hexrd/core/material/material.py', 'hexrd/core/instrument/hedm_instrument.py',
  'hexrd/hedm/grainmap', 'hexrd/core/projections/polar.py', 'hexrd/hed/xrdutil/phutil.py'],
 [('with blocks and try/finally', 'all callers of open, h5py.File, np.load')])

prop('A08', 'Arrays reach native code as contiguous arrays of the right type',
 "Every array handed to compiled code (the C and C++ transforms, the convolution and distortion "
 "extensions, libraries called through ctypes) reaches it C-contiguous and of the element type that "
 "routine assumes: whatever the caller passed (strided, transposed, integer, list) is converted "
 "first, or an element type the routine checks for itself is rejected with an error. Results "
 "therefore never depend on the memory layout or element type of the inputs.",
 ['inputs'],
 'every call into the compiled modules, every argument, every dtype and stride the caller may use',
 'Tests pass freshly made contiguous float64 arrays.',
 ['hexrd/core/transforms/xfcapi.py', 'hexrd/core/transforms/xfcapi.py',
  'hexrd/core/transforms/new_capi/module.c', 'hexrd/core/convolution/convolve.py',
  'hexrd/core/distortion/ge_41rt.py', 'hexrd/hedm/xrdutil/utils.py'],
 [('np.ascontiguousarray wrappers', 'hexrd/core/transforms/xfcapi.py')])

prop('A09', 'Native entry points validate arguments before touching memory',
 "Every compiled entry point checks the dimensionality and the dimensions of each array it will "
 "index before indexing it, handles failure of every allocation, and gives up every reference it "
 "took on every path. No input can therefore make it read or write outside its arrays or leak.",
 ['inputs', 'fault_sequences'],
 'every entry point of the compiled modules, every array parameter, every path including '
 'allocation failure',
 'Wrong shapes and failed allocations never occur in the tests.',
 ['hexrd/core/transforms/new_capi/module.c', 'hexrd/core/transforms/xfcapi.py',
  'hexrd/core/transforms/new_capi/ndargs_helper.c'],
 [('array argument converters', 'hexrd/core/transforms/new_capi/ndargs_helper.c')])

prop('A10', 'What is saved is what is loaded',
 "Every field written by a saving operation (materials, instruments, image series, grain tables, "
 "calibration and refinement state) is read back by the corresponding loader under the same name, "
 "in the same units and into the same quantity, and every field a loader requires is written. "
 "Columns of tables keep the same meaning for writer and reader.",
 ['inputs', 'configurations'],
 'every writer/reader pair, every field, every optional branch of the writer',
 'Tests round-trip one material and one instrument with the default options.',
 ['hexrd/core/material/material.py', 'hexrd/core/material/mksupport.py',
  'hexrd/core/instrument/hedm_instrument.py', 'hexrd/core/instrument/detector.py',
  'hexrd/core/imageseries/save.py', 'hexrd/core/imageseries/load',
  'hexrd/powder/wppf/WPPF.py', 'hexrd/core/instrument/hedm_instrument.py'],
 [('matching key names', 'writers and loaders of each format')])

prop('A11', 'Calibration parameters are written back to where they were read from',
 "Each refinement parameter is created from one quantity of the instrument, grain, material or "
 "model, and the value that refinement finds for it is stored back, under the same name, in the "
 "same units and at the same position, into that same quantity. No parameter is created and then "
 "never applied, and none is applied to another detector, beam, axis or lattice constant.",
 ['inputs', 'configurations'],
 'every parameter family, every detector and beam name, every set of refinement flags',
 'End-to-end calibration tests need example data that is absent; unit tests cover one instrument '
 'whose detector names do not clash.',
 ['hexrd/core/fitting/calibration/lmfit_param_handling.py',
  'hexrd/core/fitting/calibration/instrument.py', 'hexrd/core/fitting/calibration/powder.py',
  'hexrd/core/fitting/calibration/laue.py', 'hexrd/powder/wppf/WPPF.py',
  'hexrd/powder/wppf/wppfsupport.py'],
 [('paired create/update functions', 'hexrd/core/fitting/calibration/lmfit_param_handling.py')])

prop('A12', 'Angles keep one unit along every path',
 "A quantity that is in degrees at an interface is converted exactly once before it meets a "
 "trigonometric function or a quantity in radians, and converted back before it leaves through an "
 "interface documented in degrees; the same holds for energies, wavelengths and lengths that are "
 "carried with explicit conversions.",
 ['inputs', 'configurations'],
 'every variable, attribute, parameter and configuration value with an inferable unit, every path '
 'between them',
 'A missing conversion in a seldom used option is not exercised by the suite.',
 ['hexrd/core/rotations.py', 'hexrd/core/material/crystallography.py',
  'hexrd/core/instrument/hedm_instrument.py', 'hexrd/core/projections/polar.py',
  'hexrd/hedm/config/fitgrains.py', 'hexrd/hedm/findorientations.py', 'hexrd/core/gridutil.py'],
 [('np.radians/np.degrees at interfaces', 'throughout')])

prop('A13', 'No reachable code refers to what does not exist',
 "Every name used in the library is bound on the paths that reach the use, every imported or "
 "accessed member exists in what it is taken from, and every internal call supplies arguments its "
 "callee accepts and unpacks as many results as it returns. No option or input can therefore end in "
 "a name, attribute or call-signature error.",
 ['inputs', 'configurations'],
 'every function, every path, every internal call site and member access',
 'Large parts (refinement, calibration, grain workflows) are not executed by the suite at all.',
 ['hexrd/core', 'hexrd/hedm', 'hexrd/hed', 'hexrd/laue', 'hexrd/powder', 'hexrd/phase_transition'],
 [('definitions matching uses', 'all modules')])

prop('A14', 'The built-in reference tables agree with each other',
 "The tables of space groups, Laue groups, element data, ion and scattering-factor names, symmetry "
 "generators and physical constants are mutually consistent: same keys and lengths where they are "
 "indexed together, group orders and classes that match the space-group number, entries in the "
 "same sequence, and derived constants equal to what their definitions give.",
 ['inputs'],
 'every entry of every table, every pair of tables indexed by a common key',
 'Tests look up a few entries (cubic, hexagonal); hundreds of others are never read.',
 ['hexrd/core/constants.py', 'hexrd/core/material/symbols.py', 'hexrd/core/material/spacegroup.py',
  'hexrd/core/material/mksupport.py', 'hexrd/core/material/utils.py', 'hexrd/core/rotations.py'],
 [('literal tables', 'hexrd/core/material/symbols.py, hexrd/core/constants.py')])

prop('A15', 'Documented legacy import paths keep working',
 "Every module or name that the compatibility map says moved still resolves, through its old "
 "import path, to an existing module or name in the new layout. Every package-data file and "
 "console entry point the project declares exists.",
 ['configurations'],
 'every entry of the compatibility map, every entry point',
 'The tests import a few of the old names; the map has hundreds of entries.',
 ['hexrd/file_table.tsv', 'hexrd/module_map.py', 'hexrd/__init__.py', 'setup.py'],
 [('import redirection', 'hexrd/module_map.py')])

prop('A16', 'Invalid requests and failures are reported, never swallowed',
 "An unsupported value for an option with a fixed set of choices, a missing required configuration "
 "entry, or inputs of inconsistent size raises an error instead of silently continuing with "
 "another choice; errors raised inside workers or lower layers reach the caller. Checks that "
 "reject bad input today stay in force on every path to the work they guard.",
 ['inputs', 'fault_sequences', 'configurations'],
 'every guarded option and input, every value outside its accepted set, every failing worker',
 'Tests cover a few rejected inputs; each check needs its own bad input.',
 ['hexrd/core/config', 'hexrd/hedm/config', 'hexrd/core/instrument', 'hexrd/core/material',
  'hexrd/core/imageseries', 'hexrd/core/rotations.py'],
 [('raise in else-branches and guards', 'throughout')])

prop('A17', 'No result contains uninitialised memory',
 "Every array allocated without initial values is completely written before any element of it can "
 "be read or returned, for every size, every branch and every early exit.",
 ['inputs'],
 'every uninitialised allocation, every path from it to a read, including empty and filtered '
 'loops',
 'Freshly mapped memory is usually zero, so a test reads a plausible value.',
 ['hexrd/core/instrument', 'hexrd/core/material/unitcell.py', 'hexrd/hedm/xrdutil/utils.py',
  'hexrd/core/rotations.py', 'hexrd/core/imageutil.py'],
 [('full assignment or np.full/np.nan fill', 'each np.empty site')])

prop('A18', 'Interchangeable implementations offer the same interface',
 "Every implementation registered or derived for a common role (detector shape, distortion model, "
 "image-series source and writer, calibrator, peak shape, background, grain or powder calibration "
 "step) provides every operation its clients invoke, accepts the same arguments, and can be "
 "selected by the name it is documented under.",
 ['configurations', 'inputs'],
 'every role, every implementation, every operation used on the role',
 'Tests mostly use one implementation per role (planar detector, no distortion).',
 ['hexrd/core/instrument', 'hexrd/core/distortion', 'hexrd/core/imageseries/load',
  'hexrd/core/imageseries/save.py', 'hexrd/core/fitting/calibration'],
 [('abstract base classes and registries', 'detector.py, distortion/registry.py, load/registry.py')])

prop('A19', 'Command-line options and configuration entries reach the code that honours them',
 "Every command-line option that is declared is read by its command and passed on, every "
 "configuration entry documented or defaulted is looked up under the name and at the level where "
 "users write it, and every configuration value that the workflows use is one the configuration "
 "object provides.",
 ['configurations', 'inputs'],
 'every option of every command, every configuration key, every use of a configuration value',
 'The command-line workflows are not run by the suite.',
 ['hexrd/hedm/cli', 'hexrd/hedm/config', 'hexrd/core/config'],
 [('argparse options and cfg.get lookups', 'hexrd/hedm/cli, hexrd/hedm/config')])

prop('A20', 'No input is silently ignored',
 "The result of a public operation responds to every argument and every object setting it responds "
 "to today: for each result, stored quantity or output, the set of inputs that can influence it "
 "never shrinks. In particular no option, geometry parameter, tolerance, mask or symmetry that is "
 "accepted stops influencing the quantity it controls.",
 ['inputs', 'configurations'],
 'every public function, every result and every stored or written quantity, every argument and '
 'object attribute, along data and control dependences through all internal calls',
 'A test that keeps an option at its default or a panel at zero tilt cannot see that the option or '
 'tilt is ignored.',
 ['hexrd/core', 'hexrd/hedm', 'hexrd/hed', 'hexrd/laue', 'hexrd/powder'],
 [('arguments passed on through the call chain', 'throughout')])

# ---- properties this family cannot settle
prop('B01', 'Detector coordinates and diffraction angles are inverse transforms',
 "Mapping detector positions to diffraction angles and back (and angles to scattering vectors and "
 "back) returns the starting point to floating-point accuracy for every geometry, tilt, distortion "
 "and beam.",
 ['inputs'], 'every geometry and position', 'Only sampled geometries are tested.',
 ['hexrd/core/instrument/detector.py', 'hexrd/core/transforms/new_capi/transforms_c_code.c'],
 [('forward and inverse formulas', 'transforms')])
prop('B02', 'Orientation representations convert into one another faithfully',
 "Conversions between rotation matrices, quaternions, exponential-map parameters and Euler angles "
 "represent the same rotation, and reduction to a fundamental region returns a symmetry-equivalent "
 "orientation inside it.",
 ['inputs'], 'every rotation', 'Only sampled rotations are tested.',
 ['hexrd/core/rotations.py'], [('conversion formulas', 'rotations.py')])
prop('B03', 'Indexing finds every grain the data support',
 "Orientation search and clustering report every orientation whose completeness exceeds the "
 "threshold, once each, and none below it.",
 ['inputs', 'configurations'], 'every data set', 'Needs data and search results.',
 ['hexrd/hedm/findorientations.py', 'hexrd/hedm/indexer.py'], [('threshold and clustering', 'findorientations.py')])
prop('B04', 'Refinement converges to the minimum of the documented residual',
 "Grain, instrument and whole-pattern refinement never end with a larger residual than they began "
 "with and recover parameters from noise-free synthetic data.",
 ['inputs'], 'every model and data set', 'A few synthetic cases at most.',
 ['hexrd/hedm/fitting/grains.py', 'hexrd/powder/wppf/WPPF.py'], [('least-squares driver', 'lmfit/scipy')])
prop('B05', 'Structure factors and reflection lists agree with the space group',
 "Computed reflections are exactly the symmetry-inequivalent allowed ones, with the correct "
 "multiplicities, and the structure factors are invariant under the space-group operations.",
 ['inputs'], 'every space group and atom set', 'A few structures are tested.',
 ['hexrd/core/material/unitcell.py', 'hexrd/core/material/spacegroup.py'],
 [('symmetry generators and extinction rules', 'unitcell.py')])
prop('B06', 'Interpolation, binning and projection conserve intensity',
 "Image interpolation, polar projection and histogramming preserve total intensity and are exact "
 "for linear images wherever the target lies inside the panel.",
 ['inputs'], 'every image and panel', 'Sampled images only.',
 ['hexrd/core/projections/polar.py', 'hexrd/core/instrument/detector.py'],
 [('bilinear interpolation', 'detector.py')])
prop('B07', 'Image-series operations compose like their mathematical definitions',
 "Frame selection, rectangle, rotation, flip, dark subtraction and statistics over an image series "
 "equal the same operations applied to the full array, in the given order.",
 ['inputs'], 'every operation list and stack', 'Sampled operation lists.',
 ['hexrd/core/imageseries/process.py', 'hexrd/core/imageseries/stats.py'],
 [('per-frame operation list', 'process.py')])
prop('B08', 'An equation of state and its inverse agree',
 "Lattice parameters computed for a pressure and temperature give back that pressure through the "
 "equation of state.",
 ['inputs'], 'every material, pressure, temperature', 'One material is sampled.',
 ['hexrd/core/material/material.py'], [('equation-of-state solver', 'material.py')])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P))
