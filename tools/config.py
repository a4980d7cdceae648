"""What each property's check runs."""
STD = ['std']
def std(*mods, **k):
    return dict(features=STD, modules=list(mods), **k)

ASSUME = [
    'the reader satisfies the contract of Read + Seek written in kani/src/ghost.rs (Rd): positions up to i64::MAX, a failed read leaves it anywhere, a failed seek where it was, any operation may fail at any time',
    'nested types satisfy the contract of BinRead written in kani/src/ghost.rs (E, A): any value, any error of kind NoVariantMatch (Io where that matters), any position left behind; they do not change the reader otherwise',
    'destructors are not executed in the proofs (drop glue is stubbed); no type of binread has a Drop impl',
    'termination is not proved by the Kani layer; allocation never fails',
    'the directives of a declaration reach the code generator as written (the parser of binread_derive is covered by a family of declarations, not proved)',
    'template units: expressions and functions of the user spliced into generated code do not touch the reader, return or panic',
]
TRUSTED = ['rustc / Kani MIR translation', 'CBMC symbolic execution and CaDiCaL', 'the contract (ghost) definitions in kani/src/ghost.rs', 'alloc and core compiled from their real source, allocator and intrinsics modelled by Kani']

CONFIG = {
    'C01': dict(kani=[std('c01')]),
    'C02': dict(kani=[std('c02')]),
    'C03': dict(kani=[std('c03')]),
    'C04': dict(kani=[std('c04')]),
    'C05': dict(kani=[std('c05')]),
    'C06': dict(kani=[std('c06')]),
    'C07': dict(kani=[std('c07')]),
    'C08': dict(kani=[std('c08')]),
    'C14': dict(kani=[std('c14')]),
    'C16': dict(kani=[std('c16')]),
    'C17': dict(kani=[std('c17')]),
    'C09': dict(kani=[std('c09')]),
    'C11': dict(kani=[std('c11')]),
    'C10': dict(kani=[std('c10')]),
    'C15': dict(kani=[std('c15')]),
    'C12': dict(kani=[std('c12')]),
    'C18': dict(kani=[dict(features=['nostd'], modules=['c18'])]),
    'C19': dict(kani=[dict(features=['nostd'], modules=['c19'])]),
    'C13': dict(kani=[std('c13')]),
    'C22': dict(kani=[std('c22')]),
}
CONFIG['C21'] = dict(kani=[
    std('c21', quick=r'^(?!c21_counted$)'),
    dict(features=STD, modules=['c01', 'c02', 'c05', 'c06', 'c07', 'c08', 'c09', 'c10', 'c11', 'c12', 'c13', 'c14', 'c15', 'c16', 'c17'],
         quick=r'c01_(u16|char)$|c02_position$|c05_u32$|c08_magic_u32$|c09_arr2|c10_until_eof|c11_trailing|c12_(wide|convert)$|c13_(ptr_(u8|u64|i128)|parse|seek|deref)|c15_(size_placed|pad|seek_before|align3|alignmax)$|c17_try_map_io$'),
    dict(features=['std', 'debug_template'], modules=['c21'], quick=r'c21_(enum|unit|ptr|resolve)$'),
])
NOSTD = ['nostd']
CG = ['std', 'const_generics']
DT = ['std', 'debug_template']
_ALL = ['c01', 'c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c12', 'c13', 'c14', 'c15', 'c16', 'c17', 'c22']
CONFIG['C20'] = dict(relational=True, kani=[
    dict(features=CG, modules=['c09', 'c14', 'c01', 'c03'], only=r'_arr|_nested|_long', quick=r'c09_arr_long|c14_long|c09_arr[013]$|c09_arr32|c09_nested|c14_arr[013]$|c14_arr32|c14_nested'),
    dict(features=DT, modules=_ALL,
         quick=r'c01_(u16|i64|f32|char)|c02_(struct|enum|unit_repr|position)|c03_(struct3|temp|parse_with|tuple)$|c04_(pass|variant|read_be|inherited)$|c05_(u32|field)|c06_(field|pre|enum_outcome)|c07_unexpected|c08_(repr_u8|magic_u32)|c09_(arr2|tup2|nested)|c12_(narrow|wide_faults)$|c13_ptr_u32|c13_parse_u16|c14_(deferred|arr3)|c15_(size|restore|align3|pad)$|c17_(map|top_map|try_map)$|c22_read'),
    dict(features=NOSTD, modules=_ALL[:9] + ['c10', 'c11'] + _ALL[9:],
         quick=r'c01_(u16|char)|c02_(struct|position)|c03_struct3|c04_read_be$|c05_u32|c06_field|c08_repr_u8|c09_(vec|arr2)|c10_until_eof|c12_wide$|c13_ptr_u32|c16_try$|c17_try_map_io|c22_read'),
    # and every other contract of those modules, in the same configurations, natively
    dict(features=DT, modules=_ALL, sample=0.1, quick_only=True),
    dict(features=NOSTD, modules=_ALL[:9] + ['c10', 'c11'] + _ALL[9:], sample=0.1, quick_only=True),
])
# declarations that combine directives: proved in the thorough tier, sampled natively in the quick one
def combos(only, features=STD, sample=0.5, mods=('c50',)):
    return dict(features=features, modules=list(mods), only=only, sample=sample)

CONFIG['C21']['kani'].append(dict(features=STD, modules=['c21'], only='c21_counted', sample=2, quick_only=True))
for _p, _o in dict(C02='.', C03='.', C04='_opt', C05='_mag', C06='_asr', C14='_post', C15='_pos', C16='_cond', C17='_map', C21='.').items():
    CONFIG[_p]['kani'].append(combos(_o))
for _p, _o in dict(C02='.', C04='.', C05='_mag', C06='_asr', C07='.', C21='.').items():
    CONFIG[_p]['kani'].append(combos(_o, mods=['c51']))
for _p, _o in dict(C02='.', C05='_mag', C08='.', C21='.').items():
    CONFIG[_p]['kani'].append(combos(_o, mods=['c52']))
# containers of containers: sampled
for _p, _o in dict(C09='.', C13='_ptr', C14='.', C22='_pos', C21='.').items():
    CONFIG[_p]['kani'].append(combos(_o, mods=['c54']))
ALLC = ['c50', 'c51', 'c52', 'c54']
CONFIG['C20']['kani'] += [combos('.', DT, 0.2, ALLC), combos('.', NOSTD, 0.2, ALLC), combos('_arr|_tup', CG, 0.3, ['c54'])]
NA = {}
# the deductive layer: units verified for all inputs and all iterations
from verus_units import UNITS
for _n, _u in UNITS.items():
    for _p in _u['props']:
        CONFIG[_p].setdefault('verus', []).append(_n)

FAMILY = 'declarations: a family covering each directive and the combinations in which they interact, not all declarations'
TEMPLATES = 'declarations: what the derive emits is proved piece by piece for every declaration (V, template units); that the parser of directives hands each piece its own directive, by a family of declarations covering each directive and their combinations (K)'
BOUNDED = {
    'C07': ['the K harnesses alone: enums of up to three variants (the V units have no such bound)'],
    'C09': ['tuples: lengths 1, 2, 3, 12, 32 proved, the others sampled', 'the K harnesses alone: counts up to 3 unless one of the first three items fails (the V units have no such bound)'],
    'C10': ['the K harnesses alone: stops among the first four items (the V units have no such bound)'],
    'C11': ['the K harnesses alone: counts up to 2 unless one of the first reads fails (the V units have no such bound)'],
    'C12': ['the K harnesses alone: strings up to 4 bytes / 3 units (the V units have no such bound)', 'lossy conversions: sampled against the standard library'],
    'C14': ['tuples: lengths 1, 2, 3, 4, 8, 31, 32 proved, the others sampled', 'the K harnesses alone: arrays 0, 1, 2, 3, 8, 31, 32, vectors up to 3 (the V units have no such bound)'],
    'C15': ['the K harnesses alone: alignments, constants 1, 2, 3, 4, 7 (thorough), 8, 16, 40, 256, 512, 4096 and 2^63-1 proved, others sampled (the V units are for all alignments, in every place of a field)'],
    'C18': ['the K harnesses alone: data up to 4 bytes, buffers up to 5 (the V units have no such bound)'],
    'C19': ['the K harnesses alone: streams and buffers of a few bytes (the V units have no such bound)'],
    'C20': ['relational: the other properties\' bounds'],
    'C21': ['collections, strings: the other properties\' bounds', 'allocation sizes: sampled under an allocator that refuses requests out of proportion'],
}
for _p in CONFIG:
    CONFIG[_p]['bounded'] = BOUNDED.get(_p, []) + ([TEMPLATES if any(u.startswith('tmpl_') for u in CONFIG[_p].get('verus', [])) else FAMILY] if _p in ('C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C13', 'C14', 'C15', 'C16', 'C17', 'C20', 'C21') else [])
    CONFIG[_p]['technique'] = ('contract-based deductive verification: ' +
        ('the functions extracted from /repo under contract, loop invariants included, discharged by Verus/Z3 for all lengths; ' if CONFIG[_p].get('verus') else '') +
        'contract harnesses (pre/postconditions over ghost traces) on the compiled code, discharged by Kani/CBMC')
    CONFIG[_p]['note'] = '; '.join(CONFIG[_p]['bounded'])
