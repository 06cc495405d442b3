"""Writes known_findings.json. usage: python3 tools/findings.py"""
import json, pathlib
HERE = pathlib.Path(__file__).resolve().parent.parent
FIXED = [
 ('P01', 'bf22a28', 'Gaussian electromagnetic conversions used the speed of light in m/s where cm/s is meant, so e.g. statC to C was off by powers of 100'),
 ('P07', '9bc7b5f', "symbolic terms with multi-digit denominators ('a^3/16') or scientific notation ('1e3 a') were misread or refused"),
 ('P04', 'e4da811', 'some conversions between inconsistent units were answered with a number, and some scale factors of compound conversions were dropped'),
 ('P03', '5987730', "'cd' was candela or centiday depending on what had been parsed before"),
 ('P03', '15037e4', 'whether an alias of a named unit could be parsed depended on which spelling was used first'),
 ('P04', '5d0f049', 'a unit whose dimension is undefined was reported as consistent with dimensionless units'),
 ('P03', '2371667', 'a defined conversion was found for one spelling of its units and not for another'),
 ('P06', 'b9b4b86', 'the permittivity dimension and the cgs displacement unit were wrong'),
 ('P06', 'bbf3570', 'the first radiation constant in cgs was wrong'),
 ('P07', 'e27f827', "a zero exponent or coefficient was read as one ('a^0' == 'a', '0a' == 'a')"),
 ('P07', '239593e', 'symbolic terms that compare equal had different hashes'),
 ('P07', 'f81b1ca', "'1 a' was kept as a term distinct from 'a' when a coefficient rounded to one"),
 ('P08', '171155a', 'measuring dropped values or units it could not parse (e.g. ([1, 2], 3, "m")) instead of refusing'),
 ('P08', '78947ee', 'an out-of-range negative index of a measurement or vector returned another element'),
 ('P09', '84c1afa', 'in-place operators changed the values of a quantity but not its unit'),
 ('P09', 'dcc0d01', 'a scalar or vector created from an instance lost its unit and name'),
 ('P10', 'cd4d74d', 'an array created from an instance after a change of unit had values in the old unit'),
 ('P12', 'cb52e7a', 'slices with offsets, an ellipsis or a list selected wrong elements or shapes'),
 ('P11', '0ae8285', 'products of variables with different sizes of a shared dimension were truncated to the smaller one'),
 ('P11', '7ee5dc8', 'squeeze and mean lost track of dimensions for negative or tuple axes'),
 ('P11', 'a8383f2', 'variables with differently ordered dimensions compared equal and could be added'),
 ('P11', 'e26d3e4', 'arrays with different units could be ordered, comparing bare numbers'),
 ('P20', 'a05952a', 'an unknown file type was accepted, and replacing a viewer of one dataset replaced it for all'),
 ('P20', '7591ed7', 'a relative path after a change of directory returned the dataset opened earlier under that name'),
 ('P20', 'd973db1', 'files were searched in the directory that was current when the package was imported'),
 ('P20', 'f71c4e7', 'read-only paths could be opened for writing'),
 ('P10', 'bee96e5', 'base variables could not be built, and were relabelled rather than converted to the metric system'),
 ('P10', '13f6be1', 'a netCDF attribute called "unit" overrode the unit of a variable after conversion'),
 ('P10', 'd614bce', "a metric system written in upper case ('MKS') was refused when changing units"),
 ('P08', 'be10906', 'a unit given as a metric.Unit object was replaced by 1 when measuring'),
 ('P09', '6b1091f', "after metric.Unit('um') had been created anywhere, 3 * Scalar(2, unit='um') had unit '3 um'"),
 ('P11', '85e48dc', 'a variable times a variable without parameters was multiplied by position rather than by dimension name'),
 ('P12', 'a7f7993', 'an index array next to an ellipsis raised an error'),
 ('P05', '7558cc6', "equality of units was asymmetric: 'nJ' == 'cerg' but not 'cerg' == 'nJ'"),
 ('P13', '454a9a6', 'alias groups that compare equal had different hashes'),
 ('P13', '775136f', 'merging or adding a name to an alias group split a string into its characters'),
 ('P13', '605fdc3', 'building an aliased mapping from overlapping groups left one alias in two groups'),
 ('P13', 'd40739e', 'a refused alias changed the mapping, and an alias of an unknown key was accepted silently'),
 ('P14', '2de6c4e', 'a misspelt name with one additional letter at its end was not recognized as close to the correct name'),
 ('P24', 'bb88872', 'misspelt observables were compared with whole groups of aliases, so no suggestion was ever made'),
 ('P24', '834ec59', 'a group of names was unobservable unless its first name happened to be known'),
 ('P18', '3f4d785', 'the flow angle was computed from the product of magnitudes rather than the scalar product of B and V'),
 ('P18', '1e8e779', 'a parameter given with a unit (e.g. lambda0 in km) lost its unit when measured'),
 ('P16', 'fc125f0', 'observations reported axis values of other elements than those selected'),
 ('P16', '96a557c', 'species were misidentified when charge/mass was not exact in floating point'),
 ('P16', '2716f92', 'the values of a species axis could not be accessed'),
 ('P17', '3d6a1cf', 'an axis value with an inconsistent unit was silently taken as a bare number'),
 ('P17', '44806c6', 'interpolating over a coordinate that varies in time failed or used the wrong element'),
 ('P17', '37b4d90', 'interpolation over radius used the first axis of the reference coordinate'),
 ('P17', 'cb474b4', 'combining a radius with an off-grid time failed'),
 ('P17', 'c999bab', 'a radius with an inconsistent unit was silently accepted'),
 ('P17', 'ba934df', 'interpolating over all axes raised an error'),
 ('P19', 'f76c803', 'changing the path of an observer reset its metric system'),
 ('P18', '6045f7e', 'rigidity and related quantities failed or used the wrong species for datasets with several species'),
 ('P18', 'f353cf5', 'the integral flux used the energies of the first species for all species'),
 ('P23', '3d49acf', 'only the first exponent of a composed unit was applied'),
 ('P23', '3f5a1f6', 'the order of merged parameters depended on hash order; equal parameters hashed differently'),
 ('P23', '027f224', 'compositions of observables with different dimensions failed depending on their order'),
 ('P19', '07e2d40', 'derived quantities in cgs mixed constants of both metric systems'),
 ('P18', '0d28cc5', 'a constraint given under an alias of a parameter was ignored'),
 ('P21', 'ac799d5', 'whitespace around names or values in a configuration file became part of them'),
 ('P21', '91089ba', 'a parameter configured as zero took its default value'),
 ('P21', '29b9e77', 'options of a configuration file (such as the comment character) were not passed on to the runtime values'),
 ('P21', '6dcdb6f', 'configuration files given by relative path were looked up in another directory when comparing'),
 ('P21', '2975e9d', 'comparing configurations without any difference raised an error'),
 ('P21', 'da35f21', 'flow and shock speeds were labelled with a unit that is not the one EPREM uses'),
 ('P21', 'be33dc4', 'an argument with a single value was one value for some operations and a list for others'),
 ('P15', '6f1632a', 'find_nearest with bounds failed or returned a wrong index for multi-dimensional or unsorted arrays'),
 ('P15', '0c4fa1d', 'coordinate transformations failed for plain numbers or changed some elements of arrays'),
 ('P24', 'cc2b8df', 'two observations of the same quantity under the same constraints did not compare equal'),
 ('P14', '3ae48e6', 'a table request that matches several entries was answered depending on the order of criteria'),
 ('P14', '6c48f46', 'a guarded call did not substitute its value for subclasses of a known exception'),
 ('P16', 'dd38c5a', 'slices with negative or large limits selected wrong elements'),
 ('P17', '7ba04fd', 'axis values of the wrong physical dimension were converted instead of refused'),
 ('P14', '9f17040', 'registering a second object under the default key silently replaced the first one'),
 ('P14', 'a14c1bb', 'looking up an item of a mapping with uniform values recursed without end'),
 ('P24', '306a7ea', 'changing the unit of an observation to a unit object (rather than text) failed'),
 ('P22', 'b2e6325', 'combining a list of names with a name on its right reversed the operands'),
 ('P22', '9bdacb0', 'changing the unit of a named scalar or vector lost its name'),
 ('P02', '7c3a8a9', "a product with a length and a capacitance could be refused a conversion that each factor has (e.g. 'Mm^-1 kstatA^-1 cF^-1' to 'hF^-1 cA^-1 uau^-1'), because the length was matched with the capacitance"),
 ('P06', '6e2b724', "metric.Dimensions('L') was refused, although a common dimension stands for every system"),
 ('P06', '78d7813', "an unknown metric quantity, as in 'foo' in metric.System('mks'), ended in RecursionError"),
 ('P05', 'a5c3b54', "the algebra of a metric.Reduction counted its scale twice: (2 * Unit-reduction of 'km') printed 4000000000.0 m, and its square lost the exponent"),
 ('P13', 'd7317ec', "a mapping whose values give the aliases kept two groups with a common alias ({'a': {'aliases': 'A'}, 'b': {'aliases': 'A'}})"),
 ('P13', 'e3dab6d', "setting an item under a new key that includes the alias of another item (m['x', 'b'] = 3) put that alias in two groups"),
 ('P18', 'b6fb7b8', 'the perpendicular velocity was NaN at points where the flow is along the magnetic field (rounding under the square root)'),
 ('P18', 'e8098e5', 'the integral flux above a minimum energy was NaN wherever the differential flux just below that energy is zero'),
 ('P18', '933038d', 'the integral flux above a minimum energy at or beyond the highest energy of a species raised IndexError'),
 ('P06', '8186241', 'metric.System.get_unit(dimension=...) raised for a dimension written in another order than the tables use (e.g. "L T^-1" for a velocity).'),
 ('P11', '8214413', 'Orderings (<, <=, >, >=) of variables with different dimension names compared unrelated elements instead of raising.'),
 ('P05', '22b43b0', 'Raising a unit or expression to a fraction such as Fraction(1, 3) used a binary approximation of the power, so that (m ** 1/3) ** 3 written as a product was not m and norms of such units had meaningless exponents.'),
 ('P25', '6e82638', "eprem.Axes(data) and eprem.Variables(data)[name], whose metric system is optional, raised UnitParsingError or TypeError because the missing system was used as one; Axes now pass on their default system and Variables leave the file's units, as the base class does"),
 ('P21', '9b65459', 'runtime.generate_defaults(source, output) returned with the database truncated (files left open, unflushed on PyPy), so that the generated defaults could not be read'),
 ('P07', '6ce4157', "a float power (or the square-root keyword) of a term with exponent thirds, e.g. Expression('sqrt(a^2/3)'), gave an inexact exponent unequal to a^1/3"),
 ('P07', '0cf0d14', "an index below -len, e.g. Expression('a b')[-3], returned a term counted from the wrong end instead of raising IndexError"),
]
KNOWN = []
def main():
    out = []
    for p, c, w in FIXED:
        out.append({'property': p, 'status': 'fixed', 'commit': c, 'what': f'fixed: property={p} {c} {w}'})
    for p, k, w in KNOWN:
        out.append({'property': p, 'status': 'known', 'key': k, 'what': w})
    (HERE / 'known_findings.json').write_text(json.dumps({'findings': out}, indent=1) + '\n')
main()
