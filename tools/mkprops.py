"""Writes /verif/properties.jsonl (run by hand after editing)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=['src/goats/' + f for f in files],
                               mechanism=[dict(name=n, where='src/goats/' + w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

p('C01', 'Symbolic algebra preserves the meaning of expressions',
  'Multiplying, dividing and raising symbolic expressions (and the reduction behind them) gives the expression whose coefficient and per-symbol exponents are the mathematical product, quotient or power of the operands\'; the operands are unchanged. Equality, hashing and the stored form depend only on that meaning, never on how or in which order the expression was written or computed.',
  ['inputs'], 'every pair of expressions (any coefficients, symbols, rational exponents, number and order of terms) and every non-zero real power',
  'The tests compare a few dozen literal strings; coefficients, exponents, cancellations and term orders are unbounded.',
  ['core/symbolic.py'],
  [('reduce', 'core/symbolic.py:reduce'), ('Expression operators', 'core/symbolic.py:Expression'), ('Operand/Term operators', 'core/symbolic.py:Operand,Term')],
  ['symbolic.Expression, Term, product, ratio, power, equality, reduce'])
p('C02', 'Expression strings are read by one grammar and round-trip',
  'Every well-formed string of coefficients, symbols, rational exponents, products, quotients, square roots and nested parentheses denotes the value given by the documented grammar, with exactly the signs, fractions, scales and groupings written; alternative tokens change the spelling only. Formatting an expression and reading it back gives an equal expression, and strings the grammar excludes (or that the strict operator order calls ambiguous) are rejected with an error instead of being read as something else.',
  ['inputs'], 'all strings of the grammar: any nesting depth, number of factors, numeric format and token set',
  'The tests hold fixed lists of strings; nesting depth, number formats and combinations are unbounded.',
  ['core/symbolic.py'],
  [('Parser', 'core/symbolic.py:Parser'), ('OperandFactory', 'core/symbolic.py:OperandFactory'), ('format', 'core/symbolic.py:Term.format,Expression.format')],
  ['symbolic.Expression(str), str(Expression), OperandFactory.create/parse/find_bounds'])
p('C03', 'Unit conversion factors are physically right and consistent',
  'Whenever a conversion factor between two units is given it equals the ratio of the two units\' SI (or, across metric systems, CGS-equivalent) magnitudes: converting a unit to itself gives 1, there and back gives reciprocal factors, chains compose, and prefixes, powers, products and quotients scale accordingly (numeric coefficients in a unit are ignored). Factors exist at least between all prefixed forms of one unit and the tabulated pairs, and their reciprocals and powers. Units of different dimensions are never converted: asking for it is an error.',
  ['inputs'], 'all pairs of supported units, prefixes, systems and compound unit strings built from them',
  'The tests list some factors one by one; the pairs and compounds of ~600 prefixed units are not enumerable by hand.',
  ['core/metric.py'],
  [('conversion tables and search', 'core/metric.py:Conversion,CONVERSIONS,_Converter'), ('named units and prefixes', 'core/metric.py:NamedUnit')],
  ['metric.conversion, metric.Unit comparisons, metric.Converter, Conversion'])
p('C04', 'Units form a dimensional algebra independent of history',
  'The unit of a product, quotient or power has the dimensions and scale of the product, quotient or power of its operands\' in every metric system, and so has its reduction to base units; units that compare equal denote the same magnitude and dimension, one expression compares equal to itself however it is spelled, and units are \'consistent\' exactly when their dimensions agree in some metric system or one converts to the other. Apart from the spelling displayed, results never depend on which units were created, converted or compared before, or on which of a unit\'s names (symbol, name, prefix spelling) was used.',
  ['inputs', 'histories'], 'all units and compounds, all metric systems, and all orders of previous unit operations',
  'Tests see one creation order and a few names per unit; unit objects are shared singletons, so a stale cached attribute needs a particular history.',
  ['core/metric.py', 'core/metadata.py'],
  [('singletons', 'core/metric.py:NamedUnit.__new__,Unit'), ('dimensions', 'core/metric.py:Unit.dimensions,Dimension'), ('quantities of systems', 'core/metric.py:System,Quantity')],
  ['metric.Unit, metric.NamedUnit, metric.System, metric.Quantity'])
p('C05', 'Arithmetic on measured values carries data and units together',
  'For every supported arithmetic or comparison operator between measured quantities of one kind (scalars, vectors, arrays) or a quantity and a number the result\'s values are the operator applied to the operands\' values and its unit is the one algebra prescribes: sums and comparisons need the same unit, products and quotients multiply and divide units, powers raise them, numbers scale without changing the unit. Combinations with no physical meaning are rejected with an error, and operands are never modified by non-in-place operators while in-place operators equal their binary counterparts.',
  ['inputs'], 'all values, array lengths, units, operators and operand kinds (quantity, number)',
  'The tests try a few numbers and units per operator.',
  ['core/measurable.py', 'core/physical.py', 'core/metadata.py', 'core/algebraic.py'],
  [('operator dispatch', 'core/metadata.py:OperatorFactory'), ('measured quantities', 'core/measurable.py:Quantity,Quantified'), ('arrays', 'core/physical.py:Array.__array_ufunc__')],
  ['physical.Scalar, Vector, Array; measurable.Value'])
p('C06', 'Changing units preserves the physical quantity',
  'Asking a scalar, vector, array, variable, axis or index set for another compatible unit multiplies its values by exactly the conversion factor and relabels it; converting there and back, or through an intermediate unit, gives the same values as staying or going directly, at any time and in any order relative to reading, slicing or combining the data. The original object is unchanged and an incompatible unit is an error that leaves it usable.',
  ['inputs', 'histories'], 'all values, compatible units and sequences of unit changes, reads and slices',
  'Tests perform single conversions on small arrays; cached scales and lazily read data only show after particular sequences.',
  ['core/measurable.py', 'core/physical.py', 'core/variable.py', 'core/axis.py', 'core/index.py'],
  [('unit change', 'core/measurable.py:Quantity.apply_unit'), ('lazy scaling', 'core/physical.py:Array'), ('index conversion', 'core/index.py')],
  ['physical.Scalar/Vector/Array[unit], variable.Quantity[unit], axis.Quantity[unit], index.Array'])
p('C07', 'Array indexing and dimension bookkeeping agree with numpy',
  'Reading any index, slice, index list or ellipsis from a physical array or variable yields exactly the values numpy would select (scaled to the current unit), whatever was read before, and the named dimensions always match the axes that remain (on variables an integer keeps an axis of length 1 and several index lists select their outer product). Operators between variables align operands by dimension name, so result[i,j,...] combines the operands\' values at the same named coordinates; reductions act along the named axis they were asked for.',
  ['inputs', 'histories'], 'all shapes, index expressions, dimension-name combinations, axes and read orders',
  'Tests use one 3-D array and a handful of subscripts.',
  ['core/physical.py', 'core/variable.py', 'core/metadata.py'],
  [('subarray reads', 'core/physical.py:Array.__getitem__,_get_array'), ('dimension names', 'core/metadata.py:Dimensions'), ('alignment', 'core/variable.py:Quantity')],
  ['physical.Array, variable.Quantity: [], operators, numpy functions'])
p('C08', 'Aliased mappings behave as one key per alias group',
  'In every aliased mapping all names of a group reach the same value, each value is counted and iterated once, names of different groups never reach each other\'s values, and a missing name is reported as missing. Flat views list every name once and grouped views every group once. Setting, deleting, aliasing, copying, merging and combining mappings keep that invariant (assigning to names of several groups joins the groups; aliasing an unknown key or taking another group\'s name is an error): no operation loses, duplicates or cross-links an entry, and reads never modify the mapping.',
  ['inputs', 'histories'], 'all contents, alias groups, key forms and sequences of operations',
  'Tests check short fixed sequences on one mapping.',
  ['core/aliased.py'],
  [('groups', 'core/aliased.py:Group,Groups'), ('mappings', 'core/aliased.py:Mapping,MutableMapping,KeysView'), ('name map', 'core/aliased.py:NameMap')],
  ['aliased.Mapping, MutableMapping, Groups, NameMap'])
p('C09', 'Collection utilities keep their documented laws',
  'Table lookup returns exactly the rows whose fields match and refuses ambiguous or absent matches; a bijection stays one-to-one and inverts exactly; connections hold the weight given first for a pair of nodes and its reciprocal backwards; a registry keeps every object under its own key; a guard substitutes a value only for exceptions it knows (subclasses included); the unique, separable, missing, slicing, nesting and class-attribute helpers satisfy their documented definitions for every input.',
  ['inputs'], 'all collections, lookups and graphs',
  'Tests sample a few small literals for each helper.',
  ['core/iterables.py'],
  [('Table', 'core/iterables.py:Table'), ('Bijection', 'core/iterables.py:Bijection'), ('Connections', 'core/iterables.py:Connections'), ('helpers', 'core/iterables.py')],
  ['iterables.*'])
p('C10', 'Nearest and bounding searches return the true extremum',
  'Searching for the value nearest to a target returns an index and value that exist in the data, at the smallest distance among those that satisfy the requested bound (the first one on ties), for arrays of any shape; when no value satisfies the bound the nearest value overall is returned. In data that do not decrease along the axis, the pair of bounding indices always holds the greatest value not above and the least value not below the target (the end of the data if there is none). Casting reads a number from text exactly or, if there is none, says so.',
  ['inputs'], 'all arrays (any size, order, repetition, shape), targets and bounds',
  'Tests check fixed arrays and targets.',
  ['core/numerical.py'],
  [('search', 'core/numerical.py:find_nearest,get_bounding_indices'), ('number parsing', 'core/numerical.py')],
  ['numerical.find_nearest, get_bounding_indices'])
p('C11', 'Interpolation is exact at samples and linear between them',
  'Interpolating an array along an axis to a coordinate that was sampled returns the sampled values and between two samples returns the linear combination of the bracketing samples, along the leading axis or (for coordinates that differ from row to row) along the second axis, without mixing values of other rows or axes. The interpolated axis collapses to the requested coordinates in the requested order and other axes are untouched. Outside the samples the nearest end is used or an error is raised, never an extrapolated value; inputs are not modified.',
  ['inputs'], 'all arrays, strictly increasing reference coordinates (1-D and 2-D) and targets',
  'Tests exercise interpolation only through data files that are not available.',
  ['core/interpolation.py', 'core/computed.py'],
  [('apply', 'core/interpolation.py:apply'), ('restrict', 'core/interpolation.py:restrict_coordinate,Restriction')],
  ['interpolation.apply'])
p('C12', 'Derived quantities follow their physical formulas',
  'Every derived quantity (vector magnitudes, cartesian positions, divergence proxy, energy and velocity relations, isotropic distribution, fluence, integral flux, angles between vectors, coordinate transforms) equals its defining formula for all inputs in the formula\'s domain, elementwise and along the right axes (integral flux: power-law interpolation of positive flux at the minimum energy, for minimum energies below the highest sampled one); coordinate transforms invert each other and preserve vector length (components below machine precision count as zero). Each argument receives the values of the quantity it is named after, and inputs are not modified.',
  ['inputs'], 'all values and array shapes of the inputs',
  'Tests only check that the quantities exist or their labels; values are compared for few or no inputs.',
  ['core/computed.py', 'core/numerical.py', 'core/plasma.py'],
  [('functions', 'core/computed.py'), ('coordinates', 'core/numerical.py:xyz2rtp,rtp2xyz')],
  ['computed functions and their metadata; numerical.xyz2rtp, rtp2xyz'])
p('C13', 'Metadata follows every operation on the data',
  'For every supported operator (and the square root) on quantities with metadata, the result\'s unit, name and dimension labels are those that the operation prescribes for each kind: names combine symbolically with the same meaning as the data (sums and differences of equally named quantities keep that name, and an operand without a name leaves the result without one), the dimension labels of products and quotients are the ordered union with every value at the labels of its factors, those of sums and differences are the common ones, and metadata of operands is never changed. An operation that the metadata cannot support is an error, not a silently mislabeled result.',
  ['inputs'], 'all operand combinations, names, units, dimensions and operators',
  'Tests cover chosen pairs of operands per operator.',
  ['core/metadata.py', 'core/variable.py', 'core/physical.py'],
  [('operator metadata', 'core/metadata.py:OperatorFactory,Operation,Interface'), ('names', 'core/metadata.py:Name'), ('axes', 'core/metadata.py:Dimensions'), ('units', 'core/metadata.py:Unit')],
  ['metadata.Name, Unit, Dimensions; variable.Quantity attributes after operators'])
p('C14', 'Observations apply exactly the user\'s constraints',
  'An observation contains exactly the data selected by the constraints in force: each named constraint restricts only its own axis or assumption (points of an axis are picked in the given order, values between samples are interpolated linearly along that axis, a radius is interpolated among the shells at each time), under any alias of its name; an updated constraint replaces the old one, a constraint that is no longer given returns to the default, and all other settings keep their values. Compositions of quantities are observed as the same compositions of their data, unit and axes. Repeating an observation with the same constraints gives an equal result regardless of the observations made in between, and the data set is never modified.',
  ['inputs', 'histories'], 'all data, coordinates, constraints within the range of the data, and sequences of updates, resets and observations',
  'Tests of observers need data files that are not available; caching and constraint history are never exercised.',
  ['core/observing.py', 'core/observer.py', 'eprem/__init__.py', 'core/axis.py', 'core/index.py', 'core/reference.py'],
  [('constraints', 'core/observing.py:Context.constrain'), ('observations', 'core/observing.py:Observable,Observation'), ('observing', 'eprem/__init__.py:Context'), ('observers', 'core/observer.py:Interface; eprem/__init__.py:Observer')],
  ['observing.Observable.observe, observing.Context.constrain, eprem.Stream'])
p('C15', 'Measurements are parsed without loss or invention',
  'Reading a measurement from any accepted form (number, number with unit, nested or flat sequences, existing quantity) yields exactly the given values in the given order with the given unit, or dimensionless if none was given; forms with several or misplaced units or non-numeric values are rejected with an error. Reading the result again gives an equal measurement.',
  ['inputs'], 'all sequences of values and units in all accepted nestings',
  'Tests list a few nestings.',
  ['core/measurable.py', 'core/operational.py', 'core/iterables.py'],
  [('measure', 'core/measurable.py:measure,parse_measurable'), ('measurements', 'core/measurable.py:Measurement'), ('arguments', 'core/operational.py:Argument')],
  ['measurable.measure, measurable.Measurement, operational.Argument'])
p('C16', 'EPREM run configuration gives user values over true defaults',
  'Each run parameter has the value the user\'s configuration file assigns, else the source default, evaluated with the meaning that the simulation gives it (arithmetic over other parameters, defined constants, types); every alias of a parameter gives the same value, asking for an unknown parameter is an error, and reading parameters never changes them. Parsing keeps every assignment line of the file and ignores comments.',
  ['inputs', 'configurations'], 'all configuration files and source defaults',
  'Configuration tests need simulation output that is not available.',
  ['eprem/runtime.py', 'core/iotools.py'],
  [('configuration', 'eprem/runtime.py:Runtime,ConfigFile,BaseTypesH,ConfigurationC'), ('evaluation', 'eprem/runtime.py:VariableDefinition,FunctionCall,soft_convert'), ('arguments', 'eprem/runtime.py:Arguments')],
  ['eprem.runtime configuration objects'])
p('C17', 'Constants and elements are mutually consistent tables',
  'Each fundamental constant has, in every metric system that defines it, a value and unit that convert to each other and agree with the accepted value; each chemical species is written as the symbol of the first (lightest) listed element whose mass number is nearest to its mass, with one sign per unit charge, so that mass number and charge are recoverable from it. Looking up something absent is an error, not a default.',
  ['inputs', 'configurations'], 'all constants, systems, elements and charge states',
  'Tests spot-check single entries.',
  ['core/fundamental.py', 'core/constant.py'],
  [('constants', 'core/fundamental.py:CONSTANTS; core/physical.py:Constants'), ('elements', 'core/fundamental.py:elements,ELEMENTS'), ('constants as quantities', 'core/constant.py')],
  ['fundamental.*, constant.Assumption/Constant'])
p('C18', 'Spelling suggestions are exactly the nearest known words',
  'For a known word there are no suggestions and the check says it is spelled correctly. For any other word the suggestions are exactly the known words one single-letter edit (insertion, deletion, replacement or adjacent transposition) away or, if there is none, exactly those two edits away; a word is reported as correct exactly when there is nothing to suggest. No suggestion is ever a word outside the given vocabulary.',
  ['inputs'], 'all words and vocabularies of letters',
  'Tests try a few edits of two words.',
  ['core/spelling.py'],
  [('keywords', 'core/spelling.py:SpellChecker'), ('edits', 'core/spelling.py')],
  ['spelling.SpellChecker'])
with open('/verif/properties.jsonl', 'w') as fp:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        fp.write(json.dumps(x) + '\n')
