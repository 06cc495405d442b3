"""Writes properties.jsonl and MANIFEST.json from one list. usage: python3 tools/catalog.py"""
import json, pathlib
HERE = pathlib.Path(__file__).resolve().parent.parent
SRC = 'src/goats/core/'
EP = 'src/goats/eprem/'

def P(id, title, statement, over, qtext, why, files, mech, observe, technique, note):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                files=files, mech=mech, observe=observe, technique=technique, note=note)

REF = 'Held on the executions produced, not proved. Trusts '
PROPS = [
P('P01', 'Unit conversion factors agree with the SI definitions',
  'Converting a number between two units yields the factor fixed by the SI and Gaussian definitions of those units and their metric prefixes. This holds for every named unit, every prefix, every product of units with rational exponents, and for every route through which a conversion can be requested (unit ratio, quantity conversion, unit conversion table).',
  ['inputs'], 'all pairs of convertible unit expressions over every named unit, prefix and exponent',
  'The suite checks a few dozen hand-picked pairs; the space of prefix x unit x exponent x notation is unbounded and the interplay of built-in and substituted conversions only shows on unusual pairs.',
  [SRC + 'metric.py', SRC + 'reference.py', SRC + 'symbolic.py'],
  [('unit conversion search and substitution', SRC + 'metric.py'), ('conversion and prefix tables', SRC + 'reference.py')],
  ['metric.conversion', 'metric.Unit.__floordiv__', 'metric.Quantity.convert', 'metric.ratio'],
  'reference-model monitor: factors vs independent SI table',
  REF + 'an SI/Gaussian definition table written independently in harness/siref.py.'),
P('P02', 'Unit conversions compose, invert and scale coherently',
  'Converting from A to B and back gives the number one started with, converting A to B to C agrees with A to C, and the factor of a product or power of units is the product or power of the factors. A unit always converts to itself with factor one.',
  ['inputs'], 'all chains of convertible unit expressions',
  'Each test converts a fixed pair once; coherence is a relation between several conversions of arbitrary expressions.',
  [SRC + 'metric.py', SRC + 'reference.py'],
  [('conversion search with substitution and rescaling', SRC + 'metric.py')],
  ['metric.Unit.__floordiv__', 'metric.conversion'],
  'metamorphic monitor over conversion chains', REF + 'only the algebra of factors; no reference table.'),
P('P03', 'Unit results do not depend on history, spelling or hash order',
  'The meaning of a unit expression - its factor, dimension, consistency with other units and equality - is the same for every spelling of the unit (name, symbol, term order, notation), whatever was computed earlier in the process, and in every process. Asking twice gives the same answer.',
  ['histories', 'inputs', 'configurations'], 'all interleavings of unit operations in one process, all spellings, all hash seeds',
  'Tests run in one fixed order with fixed spellings; the package caches and registers units and conversions globally, so order-dependent answers pass unnoticed.',
  [SRC + 'metric.py', SRC + 'symbolic.py', SRC + 'aliased.py'],
  [('singleton registries of units and named units', SRC + 'metric.py'), ('conversion caches', SRC + 'metric.py')],
  ['metric.Unit', 'metric.NamedUnit', 'metric.conversion'],
  'history monitor: answers of warmed, shuffled and fresh processes compared',
  REF + 'that a freshly forked interpreter is a clean history.'),
P('P04', 'Only dimensionally consistent conversions are granted, others refused',
  'A conversion between units of different dimension is always refused with an error and never answered with a number, and consistency tests between units agree with their physical dimensions. A refused conversion leaves every object as it was.',
  ['inputs', 'histories'], 'all pairs of unit expressions, consistent or not, and all quantity objects a conversion is attempted on',
  'Tests probe a handful of refused pairs; a wrong grant shows only for particular combinations of dimensions, exponents and prefixes.',
  [SRC + 'metric.py', SRC + 'measurable.py', SRC + 'physical.py', SRC + 'variable.py'],
  [('dimension comparison', SRC + 'metric.py'), ('unit change on quantities', SRC + 'measurable.py')],
  ['metric.Unit.__or__', 'metric.conversion', 'measurable.Quantity.__getitem__'],
  'reference-model monitor: grant/refuse decision vs dimensional analysis', REF + 'the dimension column of harness/siref.py.'),
P('P05', 'Unit algebra preserves size and dimension',
  'Multiplying, dividing and raising units gives a unit whose size and dimension are the product, quotient and power of those of its parts, including fractional powers and Gaussian units. Two units compare equal exactly when they denote the same size of the same quantity, and the operands are left unchanged.',
  ['inputs'], 'all unit expressions and exponents',
  'Tests multiply a few simple units; cancellation and merging of differently prefixed or named units is only reached by generated products.',
  [SRC + 'metric.py', SRC + 'symbolic.py'],
  [('unit products and reduction', SRC + 'metric.py'), ('symbolic reduction', SRC + 'symbolic.py')],
  ['metric.Unit.__mul__', 'metric.Unit.__truediv__', 'metric.Unit.__pow__', 'metric.Unit.__eq__'],
  'reference-model monitor: results re-read by an independent unit reader', REF + 'the reader in harness/ugen.py and the table in harness/siref.py.'),
P('P06', 'Metric systems, constants and element data are mutually consistent',
  'In each metric system the unit listed for a quantity has exactly that quantity\'s dimension, expressing a unit in a system gives the same physical size, and every physical constant has the same physical value in every system, equal to the accepted value. Masses and charges of atomic species follow the standard tables for every element symbol and charge notation.',
  ['inputs', 'configurations'], 'every quantity, unit, constant and species in every metric system',
  'Tests sample a few quantities; each table entry can be wrong on its own without affecting any other.',
  [SRC + 'metric.py', SRC + 'reference.py', SRC + 'constant.py', SRC + 'physical.py', 'src/goats/core/fundamental.py'],
  [('quantity, dimension and unit tables', SRC + 'reference.py'), ('constant tables', SRC + 'reference.py')],
  ['metric.System', 'metric.Quantity', 'constants', 'fundamental.Elements'],
  'exhaustive table monitor vs dimensional analysis and CODATA values', REF + 'CODATA/IUPAC reference values written in the check.'),
P('P07', 'Symbolic expressions keep their algebraic meaning',
  'Reading a symbolic expression yields exactly the coefficient and exponents its notation denotes for any nesting, spacing, juxtaposition, coefficient, rational exponent or operator token, and malformed text is refused. Products, quotients, powers, equality, hashing and printing of expressions preserve that meaning: an expression equals what is read back from its own printed form, and equal expressions hash alike.',
  ['inputs', 'programs'], 'all expression texts of the grammar and all sequences of algebraic operations on them',
  'Tests list a few dozen strings; the grammar is recursive and errors hide in combinations such as zero or multi-digit fractional exponents on nested groups.',
  [SRC + 'symbolic.py'],
  [('expression parser', SRC + 'symbolic.py'), ('term reduction', SRC + 'symbolic.py')],
  ['symbolic.Expression', 'symbolic.Term', 'symbolic.reduce'],
  'reference-model monitor: terms vs generated syntax tree', REF + 'the syntax-tree evaluator in the check.'),
P('P08', 'Measuring yields every value in its unit or refuses',
  'Measuring an object returns all of its values, in order, in the unit they were given in, for every documented form: a number, numbers with or without a unit, an iterable with a unit, an iterable of measurable objects, and objects that measure themselves. Input that is ambiguous or not measurable (several units, missing values, foreign objects) is refused, never partly dropped; scalars and vectors made from measurements agree with them.',
  ['inputs'], 'all nested combinations of numbers, units, sequences and measurable objects',
  'Tests list about twenty literal inputs; the parser is recursive and strips wrapping, so values can be lost only in particular nestings.',
  [SRC + 'measurable.py', SRC + 'iterables.py', SRC + 'physical.py', SRC + 'operational.py'],
  [('recursive parsing of measurable input', SRC + 'measurable.py'), ('unwrapping of redundant containers', SRC + 'iterables.py')],
  ['measurable.measure', 'measurable.parse_measurable', 'measurable.Measurement', 'physical.scalar'],
  'reference-model monitor: values and unit vs the generating model', REF + 'the generator, which knows the values and unit it wrapped.'),
P('P09', 'Scalar and vector arithmetic keeps values and units in step',
  'Every operation on scalars and vectors - sums, differences, products, quotients, powers, negation, rounding, in-place forms, indexing and copying - yields the values and the unit that physical algebra prescribes. Sums and orderings across different units and ill-defined operations are refused, equality holds only for equal values in equal units, and no operation alters its other operands, whatever units were used before in the process.',
  ['inputs', 'histories'], 'all sequences of operations on quantities with arbitrary units',
  'Tests apply each operator once to simple units; lost or doubled unit factors arise from combinations and from shared unit objects.',
  [SRC + 'measurable.py', SRC + 'physical.py', SRC + 'metadata.py', SRC + 'algebraic.py'],
  [('operator metadata', SRC + 'metadata.py'), ('quantified operators', SRC + 'measurable.py')],
  ['physical.Scalar', 'physical.Vector', 'measurable.Scalar'],
  'reference-model monitor over operation histories', REF + 'the arithmetic model in the check and the unit reader in harness/ugen.py.'),
P('P10', 'A change of unit rescales array data exactly once',
  'After any sequence of unit changes, subscripts, copies, reads and multiplications, an array-like quantity has the values of the original data expressed in its current unit, whether the data are in memory or read lazily from a file. Other objects sharing the data, the data itself, the file on disk and arrays handed out earlier are unaffected; a refused change alters nothing. Variables of a dataset opened in a metric system are the data on disk in that system\'s units.',
  ['histories', 'inputs'], 'all histories of unit changes, reads, subscripts and copies on in-memory and on-disk arrays',
  'Tests convert once and compare; scale factors are deferred and cached, so a factor applied twice or not at all shows only in particular orders of reading and converting.',
  [SRC + 'physical.py', SRC + 'variable.py', SRC + 'measurable.py', SRC + 'datafile.py'],
  [('deferred scale factor and array cache', SRC + 'variable.py'), ('deferred scale factor and array cache', SRC + 'physical.py'), ('variable interface', SRC + 'variable.py')],
  ['physical.Array.__getitem__', 'variable.Quantity.__getitem__', 'variable.Interface'],
  'history monitor: object pool vs numpy model, in memory and on disk', REF + 'numpy and netCDF4.'),
P('P11', 'Variable arithmetic matches arrays by dimension name',
  'Multiplying or dividing variables pairs their axes by dimension name, whatever their order or number, and yields the outer combination over the remaining dimensions with the product or quotient unit. Sums, powers, numbers, comparisons, means and squeezes keep values, unit and dimension names in step. Operands with different sizes of one dimension, different dimensions in a sum or ordering, or different units in a sum or ordering are refused, and operands are left unchanged. Physical arrays, which have no dimension names, combine element by element under the same rules for units.',
  ['inputs', 'histories'], 'all dimension orders, shapes, units and sequences of operations',
  'Tests use a handful of shapes; axes of equal length, permuted dimensions and singular axes only go wrong in particular combinations.',
  [SRC + 'variable.py', SRC + 'metadata.py', SRC + 'observing.py'],
  [('merging of dimensions and broadcasting', SRC + 'variable.py'), ('dimension metadata', SRC + 'metadata.py')],
  ['variable.Quantity', 'observing.Quantity', 'numpy.mean', 'numpy.squeeze'],
  'reference-model monitor: arrays aligned by name', REF + 'numpy and the alignment model in the check.'),
P('P12', 'Subscripts select exactly the requested elements',
  'Subscripting an array-like quantity with integers, slices, an ellipsis, lists, ranges, masks or index arrays, alone or combined, selects exactly the elements numpy would for that subscript (outer selection for lists), with the unit and - for variables - every dimension kept. This holds for data in memory and on disk, before and after a change of unit, and for subscripts of subscripts; out-of-range subscripts raise IndexError and leave the object as it was.',
  ['inputs'], 'all subscripts of arrays of any shape',
  'Tests subscript one or two small arrays; slice arithmetic, negative offsets, single-element lists and lazy reads differ only for particular subscripts.',
  [SRC + 'variable.py', SRC + 'physical.py', SRC + 'iterables.py'],
  [('index normalization', SRC + 'variable.py'), ('standard and custom subscription', SRC + 'physical.py')],
  ['variable.Quantity.__getitem__', 'physical.Array.__getitem__'],
  'differential monitor vs numpy indexing', REF + 'numpy indexing.'),
P('P13', 'Any alias stands for its group in every aliased collection',
  'In aliased mappings and groups of keys, every alias of a key reads, updates, tests, deletes and replaces exactly the one value of its group, each value is counted and iterated once, and distinct groups never share an alias. Groups compare and hash as sets of whole names. An operation that would put one alias in two groups is refused and leaves the collection as it was; copies are independent.',
  ['histories', 'inputs'], 'all histories of creation, assignment, deletion, aliasing, merging and copying over all partitions of names into groups',
  'Tests build one or two small mappings; overlapping names, names that are parts of other names and refused updates only go wrong in particular histories.',
  [SRC + 'aliased.py'],
  [('alias groups', SRC + 'aliased.py'), ('aliased mappings', SRC + 'aliased.py'), ('groups of keys', SRC + 'aliased.py')],
  ['aliased.Mapping', 'aliased.MutableMapping', 'aliased.Group', 'aliased.Groups'],
  'history monitor: operation sequences vs a partition model', REF + 'the partition model in the check.'),
P('P16', 'Observations on the grid report exactly the data on disk',
  'Observing a quantity stored in an EPREM dataset, with constraints that name grid points (indices or values of time, shell, energy, pitch-angle cosine or species, in any unit, singly or in lists), yields exactly the stored values of the requested elements, in the requested order, with the stored unit (converted to the metric system of the dataset) and with the axis values of those elements. Without constraints it yields the whole array. Inconsistent units and species that are not in the dataset are refused.',
  ['inputs', 'configurations'], 'all datasets (stream or point), all stored quantities and aliases, all combinations of on-grid constraints, both metric systems',
  'The suite has no EPREM data, so no stable test observes a dataset; off-by-one, ordering and unit slips only show for particular constraints and grid sizes.',
  [EP + '__init__.py', SRC + 'observing.py', SRC + 'observer.py', SRC + 'axis.py', SRC + 'index.py', SRC + 'datafile.py', SRC + 'fundamental.py'],
  [('selection of indices', SRC + 'axis.py'), ('reduction of stored data', EP + '__init__.py'), ('dataset access', SRC + 'datafile.py')],
  ['eprem.Stream', 'Observable.observe', 'Observation.data', 'Observation.array', 'Observation axes'],
  'differential monitor vs arrays written to synthetic datasets', REF + 'netCDF4 and the arrays the check wrote.'),
P('P17', 'Observations between grid points interpolate linearly at the right place',
  'Observing at values of time, energy, pitch-angle cosine or radius that are not on the grid yields the linear interpolation, along that axis and at that value, of the data on the grid; a value on the grid gives the grid data; a value beyond an end of an axis gives the end value. Radius is interpolated over the shells of each time. Interpolated values lie between their neighbours, do not depend on the unit the value is given in or on what else is requested in the same list, and leave the other axes as requested. Values with inconsistent units are refused.',
  ['inputs', 'configurations'], 'all datasets, quantities, target values in any unit, and combinations with other constraints',
  'The suite has no EPREM data; interpolation errors need particular target values, moving grids and combinations of axes.',
  [SRC + 'interpolation.py', SRC + 'index.py', SRC + 'axis.py', EP + '__init__.py', SRC + 'numerical.py'],
  [('interpolation over axes and radius', SRC + 'interpolation.py'), ('choice of interpolation axes', EP + '__init__.py'), ('indices from values', SRC + 'axis.py')],
  ['eprem.Stream', 'Observable.observe', 'Observation.data'],
  'reference-model monitor: independent linear interpolation', REF + 'the interpolation model in harness/epref.py.'),
P('P18', 'Derived quantities equal their documented definitions',
  'Every quantity computed from stored ones (magnitudes, flow angle, divergences, densities, rigidity, mean free path, rates, isotropic distribution, moments, flux, fluence, integral flux) equals its definition evaluated on the stored arrays, for each species, time, shell and energy, with the unit and dimensions of that definition. Runtime parameters (mean free path at 1 au, radial and rigidity powers, perpendicular diffusion ratio, minimum energy) come from the configuration of the dataset or from its defaults, unless given as constraints in any unit and under any alias.',
  ['inputs', 'configurations'], 'all datasets, species, runtime parameters and constraints',
  'The suite has no EPREM data, so no stable test evaluates a derived quantity.',
  [SRC + 'computed.py', EP + 'runtime.py', EP + '__init__.py', SRC + 'fundamental.py', SRC + 'physical.py'],
  [('methods of derived quantities', SRC + 'computed.py'), ('assumed values', EP + '__init__.py')],
  ['eprem.Stream', 'Observable.observe'],
  'reference-model monitor: definitions re-evaluated from stored arrays', REF + 'the definitions as restated in harness/epref.py.'),
P('P19', 'The metric system changes the units of observations, never the physics',
  'Observing the same quantity under the same constraints in the mks and the cgs system yields the same physical values, each in the unit of its system, including axes, derived quantities and compositions; so does converting an observable or observation to a unit or system by name, and changing the path of an observer keeps its system. An unknown system is refused.',
  ['inputs', 'configurations', 'histories'], 'all quantities, constraints and conversions in both metric systems',
  'It relates two runs of the system; the suite has neither EPREM data nor a second system.',
  [SRC + 'physical.py', SRC + 'computed.py', EP + '__init__.py', SRC + 'metric.py', SRC + 'fundamental.py', SRC + 'observing.py'],
  [('metric systems', SRC + 'metric.py'), ('physical constants per system', SRC + 'physical.py'), ('unit changes of observations', SRC + 'observing.py')],
  ['eprem.Stream(system=...)', 'Observation.unit', 'Observable[unit]'],
  'metamorphic monitor: the same observation in two systems', REF + 'the relation between both runs.'),
P('P20', 'Observing never disturbs observers, results, files or arguments',
  'The result of an observation depends only on the dataset and the constraints of that call: repeating it, or making other observations, unit changes, failed requests, path updates or other observers in between, gives the same answer. Results already obtained, the files on disk and the arguments passed in never change; each observer reads the dataset its own path names, and a read-only path is never written.',
  ['histories'], 'all interleavings of observations, refused requests, conversions and path changes over several observers of several datasets',
  'The package keeps singletons, caches and default constraints; leaks between calls need particular histories of several observers, which no test has.',
  [SRC + 'observing.py', SRC + 'observer.py', EP + '__init__.py', SRC + 'datafile.py', SRC + 'iotools.py', EP + '__init__.py'],
  [('observing context and implementation caches', SRC + 'observing.py'), ('dataset singletons and viewers', SRC + 'datafile.py'), ('paths', SRC + 'iotools.py')],
  ['eprem.Stream', 'Observer.update', 'Observable.observe', 'iotools.ReadOnlyPath', 'datafile.Interface'],
  'history monitor: interleaved observers vs reference model, with re-examination of held results', REF + 'the reference model in harness/epref.py.'),
P('P23', 'Composed observables equal the composition of their observations',
  "Observing a symbolic product or quotient of quantities and powers of quantities (such as 'B * V / rho^2'), or a product of observables, yields the same values as observing the parts under the same constraints and combining them by dimension name, with the composed unit, the union of the dimensions and of the parameters. Equivalent ways of writing the composition agree, and a composition with an unknown part is refused.",
  ['inputs'], 'all compositions of observable quantities, under all constraints',
  'The suite composes no observables of a dataset; errors need exponents, shared or differing dimensions and particular orders.',
  [SRC + 'observing.py', SRC + 'metadata.py', SRC + 'variable.py', EP + '__init__.py', SRC + 'symbolic.py'],
  [('composition of quantities', SRC + 'observing.py'), ('metadata of compositions', SRC + 'metadata.py')],
  ['Stream[expression].observe', 'observing.Observable'],
  'reference-model monitor: parts observed and combined by name', REF + 'the reference model in harness/epref.py.'),
P('P21', 'Runtime parameters take their configured or default values and units',
  "Every EPREM runtime parameter has the value given in the configuration file or, failing that, its documented default (which may be an expression of other parameters and constants), as the right type, in its documented unit, under each of its aliases and whatever the layout, order or spacing of the file. Values, constants and defaults read from EPREM source files, and databases generated from them, agree with those files, and a comparison of configurations reports exactly the parameters that differ. Unknown parameters and missing files are refused.",
  ['inputs', 'configurations'], 'all configuration files, sets of given parameters, source trees and working directories',
  'The suite compares a handful of fixed defaults; errors need particular values (zero, expressions), layouts, aliases or directories.',
  [EP + 'runtime.py', EP + '__init__.py', EP + 'runtime.json', SRC + 'operational.py', SRC + 'iotools.py'],
  [('configuration files, default values, source files and their comparison', EP + 'runtime.py'), ('arguments with units', SRC + 'operational.py')],
  ['eprem.runtime.Arguments', 'eprem.runtime.ConfigFile', 'eprem.runtime.Runtime', 'eprem.runtime.Interface', 'eprem.runtime.compare_arguments', 'operational.Argument'],
  'reference-model monitor: restated parameter table vs generated configurations and source trees', REF + 'the restated table of EPREM parameters in harness/eptable.py.'),
P('P14', 'Lookup tables, registries and element data answer like plain models',
  "A table returns the one entry (or value) that meets the request, in strict or iterative mode, and reports a missing, unknown or ambiguous request as such whatever the order of criteria. Registered objects stay available under their names and defaults and a reset or copy affects no other registry; connections and their weights are found in both directions with inverse weights; one-to-one mappings invert; guarded calls substitute values only for the named exceptions; spelling suggestions are known words at small distance; element, species and constant data agree with the tables they are drawn from under every name.",
  ['inputs', 'histories'], 'all tables, requests, registration histories, connection graphs and misspellings',
  'The suite looks up a few entries of one or two fixed containers; errors need ties, falsy values, repeated registration or another order of operations.',
  [SRC + 'iterables.py', SRC + 'utilities.py', SRC + 'spelling.py', SRC + 'fundamental.py', SRC + 'plasma.py', SRC + 'physical.py'],
  [('tables, registries, graphs and helpers', SRC + 'iterables.py'), ('attribute helpers', SRC + 'utilities.py'), ('elements and species', SRC + 'fundamental.py'), ('suggestions', SRC + 'spelling.py')],
  ['iterables.Table', 'iterables.ObjectRegistry', 'iterables.Connections', 'spelling.SpellChecker', 'fundamental.elements', 'plasma.Species'],
  'reference-model monitor: containers vs plain Python models', REF + 'plain Python models of the containers and the published element data.'),
P('P15', 'Numerical helpers agree with direct computation',
  "Bounding indices enclose the target, the nearest value is the closest one that satisfies the requested bound, linear interpolation (along any axis of a grid, with a shared or varying reference) gives the exact weighted mean of the neighbouring values, Cartesian and spherical coordinates convert and invert each other, text and numbers cast to the right number, index arrays keep indices, values and units together, and axes turn slices, ranges and integers into exactly those index points, refusing ones outside the axis. No helper changes its arguments.",
  ['inputs'], 'all arrays, axes, targets inside, at and outside the range, points and texts',
  'The suite checks a few small arrays; errors need targets at or beyond the ends, several dimensions or unusual arguments.',
  [SRC + 'numerical.py', SRC + 'interpolation.py', SRC + 'index.py'],
  [('bounds, nearest values, coordinates and casts', SRC + 'numerical.py'), ('interpolation', SRC + 'interpolation.py'), ('index arrays', SRC + 'index.py'), ('axes', SRC + 'axis.py')],
  ['numerical.get_bounding_indices', 'numerical.find_nearest', 'interpolation.apply', 'index.Quantity'],
  'reference-model monitor: helpers vs plain Python computation', REF + 'direct computations in plain Python.'),
P('P22', 'Results carry the names, units and dimensions of their operations',
  "Combining names, units or dimensions (alone or as metadata of quantities and variables) gives the documented combination: products, quotients and powers of names and units in the order of the operands, the ordered union of dimensions under multiplication, and unchanged metadata under unary operations and unit changes. Sums and differences need equal units and dimensions and are refused otherwise with the matching kind of error. Operations accept exactly the operand types their rules support and no rule change leaks to a copy. Operands keep their metadata.",
  ['inputs', 'histories'], 'all names, units, dimensions, type rules and operations',
  'The suite samples one or two operands per operator; errors need aliases, unnamed operands, reversed operands or particular rule histories.',
  [SRC + 'metadata.py', SRC + 'measurable.py', SRC + 'physical.py', SRC + 'variable.py'],
  [('metadata operators and rules', SRC + 'metadata.py'), ('quantities with metadata', SRC + 'measurable.py')],
  ['metadata.Name', 'metadata.Unit', 'metadata.Dimensions', 'metadata.Operation', 'metadata.OperatorFactory', 'physical.Quantity', 'variable.Quantity'],
  'reference-model monitor: metadata of results vs set and unit algebra', REF + 'models of names as sets of strings, dimensions as ordered unions and unit algebra.'),
P('P24', 'Observers list, name and describe exactly their observable quantities',
  "An observer lists every quantity it can observe and gives the same observable under every alias; unit, dimensions and parameters reported by observables and observations are those of the quantity, before and after a unit or system change, which rescales the values and leaves the original alone. Observations give access to their axes and parameters by name and compare equal exactly when values and metadata agree. Parameters are reported as not observable, misspelt names are refused with a suggestion, unknown names and inconsistent units are refused.",
  ['inputs', 'histories'], 'all datasets, names, aliases, misspellings and unit changes',
  'The suite has no dataset to observe; errors need particular aliases, unit objects, systems or repeated requests.',
  [SRC + 'observer.py', SRC + 'observing.py', SRC + 'spelling.py', EP + '__init__.py', SRC + 'aliased.py'],
  [('observables and observations', SRC + 'observing.py'), ('observer interface', SRC + 'observer.py'), ('known and unobservable names', EP + '__init__.py')],
  ['Stream[name]', 'observing.Observable', 'observing.Observation', 'observer.Interface.observes'],
  'reference-model monitor: answers vs the table of EPREM quantities', REF + 'the restated table of EPREM quantities in harness/epref.py and harness/eptable.py.'),
P('P25', "Dataset axes and variables map requests onto the file's grid",
  "For each axis of an EPREM dataset, in each metric system: asking for nothing gives every index with the file's grid; asking for indices gives those indices and the grid values there; asking for values in any unit of the axis's dimension gives the nearest grid points and the values asked for, in the axis's unit; the energy axis answers from the grid of the species named by number or symbol. Giving the axis another unit changes the numbers and not the indices. Unknown species, axes and variables, indices of gridded axes beyond their end, and inconsistent units are refused. Axis names resolve to the file's order. Each variable has the file's dimensions and values in the system's unit, under every name, whatever was asked before.",
  ['inputs', 'histories', 'configurations'], 'all datasets, axes, names, units, species and requests',
  'The dataset tests need EPREM output that is not in the repository, and sample one dataset with one species; errors need several species with their own grids, other units or request forms.',
  [EP + '__init__.py', SRC + 'axis.py', SRC + 'index.py', SRC + 'variable.py', SRC + 'datafile.py', SRC + 'numerical.py'],
  [('axis indexers', EP + '__init__.py'), ('axis quantities', SRC + 'axis.py'), ('index quantities', SRC + 'index.py'), ('variable interface', SRC + 'variable.py')],
  ['eprem.Axes[name].index', 'eprem.Axes.resolve', 'eprem.Variables[name]', 'axis.Quantity.__getitem__', 'axis.Quantity.reference'],
  'reference-model monitor: indices and values vs the numbers written to the file', REF + 'the numbers written by harness/epdata.py and the unit factors restated in harness/epref.py.'),
]

NA = []

def main():
    with open(HERE / 'properties.jsonl', 'w') as f:
        for p in PROPS:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['qtext']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                            'observe_at': p['observe'], 'hook_needed': None},
            }) + '\n')
            assert len(p['title']) <= 80, p['id']
    m = {
        'version': 1,
        'setup_cmd': 'bash setup.sh',
        'hooks': {'guard': 'none', 'enable': 'No hooks were added to /repo: the monitors observe the public interface and wrap it from /verif.', 'source_commits': []},
        'checks': [{
            'property': p['id'], 'quick_cmd': f"bash run.sh {p['id']} quick",
            'thorough_cmd': f"bash run.sh {p['id']} thorough",
            'evidence_file': f"evidence/{p['id']}.json",
            'technique': 'runtime monitoring: ' + p['technique'],
            'level': 'exploration', 'level_note': p['note'],
        } for p in PROPS],
        'not_applicable': NA,
        'notes': 'Pure Python without threads or native code: no compiler sanitizer or race detector applies; every property is decided by monitors over executions of the real code. See DESIGN.md.',
    }
    (HERE / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')

main()
