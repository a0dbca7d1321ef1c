"""Which harness entries decide which property, how floats are modelled, and the bounds."""
import re, subprocess

LEVEL = 'model_checking'
BUDGET = [560, 7200]
ASSUMPTIONS = [
    "the symbolic executor in /verif/engine and z3 are trusted; sampled path witnesses are cross-checked by native runs",
    "rustc's LLVM IR (opt-level 1, overflow checks on) of the crate built with cfg pbrtrs_verif has the behaviour of the crate",
    "std's decimal-to-float conversion and the text of formatted messages are summarised, not executed",
    "allocation succeeds and the stack does not overflow",
]

# float arithmetic left to exact reals: identities that hold only up to rounding
REAL = set('''c13_block c13_line c13_perm c13_one c13_two c13_affine c13_zero c13_dep c13_int c14_laws c15_translate c15_scale c15_matrix
c15_has_scale c15_scaling c17_expand_f c17_lerp c17_measure_f c17_offset_f c17_sphere c17_extent_f c19_ortho c20_floor c20_lerp c21_frame'''.split())
# no float arithmetic at all, or integers only
NOFLOAT = re.compile(r'^c(0[1-9]|1[0-2]|24)_|_i$')
TIMES = {}
F64 = '''c01_num c02_scene c03_chars c03_int c03_limit c03_exp c03_bigexp c03_float c03_scene c03_wideint c05_scene c06_num c07_one c07_many c08_count c09_nest c10_args c11_args c11_arity c12_tokens
c13_one c13_affine c13_perm c13_range c14_mul_f c15_translate c15_scale c15_apply_f c16_union_f c16_intersect_f c16_overlaps_f
c17_expand_f c17_measure_f c17_lerp c17_offset_f c17_sphere c17_extent_f c19_algebra_f c19_div_f c20_points_f c20_pdiv_f c20_lerp c20_convert_f
c21_frame c22_at c22_new c22_scale'''.split()
# double precision with machine arithmetic at fixed values: exact reals cannot tell a rounded value from the value
F64V = '''c13_perm c14_mul_f c14_add_f c15_translate c15_scale c15_apply_f c15_pair c16_union_f c16_union_pt_f c16_intersect_f c16_new_f c17_corner_f
c17_expand_f c17_measure_f c17_lerp c17_offset_f c17_sphere c17_extent_f c19_algebra_f c19_div_f c19_overall_f c19_two_f c20_points_f c20_algebra_f c20_pdiv_f c20_div_f
c20_lerp c20_convert_f c20_floor c20_overall_f c22_at c22_new c22_scale'''.split()

BOUNDS = {
'c01_free': 'whole text: up to {0} symbolic ASCII bytes',
'c01_wide': 'whole text: {0} pieces, each a symbolic ASCII byte, CR LF, or one of 12 characters of 2-4 bytes',
'c01_num': 'whole text: {0} symbolic bytes among digits . + - e',
'c01_bignum': 'sign, up to {0} symbolic digits, exponent mark, a prefix of up to 20 digits around 2^32, 2^63, 2^64, and {1} further digits',
'c01_tokens': 'WorldBegin and {0} tokens of symbolic kind and content',
'c01_options': '{0} tokens of symbolic kind and content before the world (identifiers of every keyword length)',
'c01_params': 'each of 3 heads, 12 parameter types, 4 declaration shapes, fewer than {0} arbitrary tokens, cut or complete',
'c01_lists': 'lists of each type and transforms with fewer than {0} symbolic one-digit numbers, cut or complete',
'c01_names': 'a directive or option name of 1 to {0} symbolic characters and a parameter of each type with a symbolic name of 1 to 10 characters',
'c01_blocks': 'fewer than {0} block words or directives in any order',
'c02_free': 'whole text: up to {0} symbolic ASCII bytes',
'c02_wide': '{0} arbitrary pieces outside, in a comment, in a string, then a token',
'c02_scene': '8 scenes, one of the first 8 gaps replaced by {0} symbolic blanks, a comment or CR LF',
'c02_far': '{0} or {1} leading rows or columns, one symbolic gap',
'c02_any': '{0} arbitrary characters of 2, 3 or 4 bytes in a string or comment',
'c01_long': 'words and strings of any length below {0} in 10 places, followed by a character of 1-4 bytes and 0 or 40 letters',
'c03_chars': 'up to {0} symbolic bytes among digits . + - e, three followers',
'c03_int': 'sign and 1..{0} symbolic digits (11 lengths)',
'c03_limit': 'symbolic digits around 2^63 and 2^64 and 20-digit numbers, with leading zeros and signs',
'c03_exp': 'sign, up to {0} symbolic digits, exponent of up to {1} digits',
'c03_bigexp': 'one symbolic digit, exponents around 2^32, 2^63, 2^64 with symbolic last digits',
'c03_float': 'sign, up to {0} symbolic digits on either side of the point, exponent of up to {1} symbolic digits',
'c03_scene': '{0} symbolic digits, optional fraction or exponent, in three places of a scene',
'c03_wideint': '7 to 17 symbolic digits where a float is expected, three places',
'c04_free': 'string of up to {0} symbolic ASCII bytes (quotes and backslashes included)',
'c04_wide': '{0} arbitrary pieces inside a string',
'c04_any': '{0} arbitrary characters of 2, 3 or 4 bytes in a string, plain or escaped',
'c04_len': 'strings of fewer than {0} symbolic characters, an escape or a character beyond ASCII, and up to 4 more',
'c04_long': 'strings of {0}*2 fixed and 3 symbolic characters',
'c03_manydigits': '6 forms with 6 to 33 fixed digits and 1-2 symbolic ones',
'c04_scene': '{0} symbolic characters or an escape in six string positions of a scene',
'c05_blanks': 'two symbolic tokens, up to {0} arbitrary blanks in front, between or behind',
'c05_comment': 'two symbolic tokens, a comment of up to {0} symbolic bytes in front, between or behind',
'c05_words': 'a scene with a comment of fewer than {0} symbolic characters, a special one and up to 1 more at 4 places',
'c05_mixed': '{0} comments, blanks and line ends in any order, and a trailing comment',
'c05_crlf': 'whole text of {0} symbolic ASCII bytes with LF against CR LF',
'c05_long': 'comments of {0}*2 characters, {0}*2 blanks, {0}/2 comments, a comment with any character',
'c05_scene': '8 scenes in two layouts, one gap of {0} symbolic characters',
'c06_free': 'whole text: up to {0} symbolic ASCII bytes',
'c06_wide': 'whole text: {0} arbitrary pieces',
'c06_any': 'any character of 2 or 3 bytes (thorough: and of the supplementary planes up to U+3FFFF) alone, after a word and after a number',
'c06_num': 'whole text: {0} symbolic bytes among digits . + - e',
'c06_scene': '{0} symbolic ASCII bytes in four places of a scene',
'c07_one': 'one parameter: symbolic type of 3-9 characters, symbolic name, bare value or list of up to {0} values of each kind, three heads',
'c07_many': '{0} parameters of any of 12 forms with symbolic names and values',
'c07_long': 'names of {0} characters, lists of {1} values, symbolic at both ends',
'c07_names': 'a directive name of 1 to {0} symbolic characters and a parameter of each type with a name of 1 to 10 (thorough 16) symbolic characters',
'c07_len': 'a list of any length up to {0} values (pairs), the last one symbolic',
'c07_count': '4 to 65 parameters ({0} counts) of one type or two types in turn, one symbolic name and value',
'c07_decl': 'symbolic blanks around and between the words of a declaration',
'c07_strings': 'values and names with escapes, non-ASCII and special characters',
'c08_values': 'each type followed by fewer than {0} arbitrary tokens',
'c08_long': 'lists of {0} or one more values, a token of another kind at 4 places, closed or not',
'c08_decl': 'declaration strings of fewer than {0} symbolic characters, symbolic third words, symbolic types of up to 10 characters',
'c08_place': 'malformed parameter before or after a good one in 12 directives, fewer than {0} arbitrary tokens',
'c08_count': 'lists of fewer than {0} values with one of another kind at any place',
'c09_words': '{0} words of block length (8, 10, 12, 14 symbolic letters) or directives',
'c09_nest': '{0} block words or directives in any order',
'c09_deep': 'nesting of depth {0}, one symbolic closing word at 7 levels, symbolic last word',
'c09_wide': '{0} sibling blocks, one symbolic closing word at 4 places, symbolic last word',
'c10_word': 'any word of 1-17 symbolic characters with up to 3 strings',
'c10_args': '8 directives with fewer than {0} arbitrary tokens',
'c10_seq': '{0} directives of any kind with symbolic arguments and optional parameter',
'c10_strings': 'string arguments with escapes, non-ASCII and special characters, 8 places',
'c10_names': 'names of 1 to {0} symbolic characters with a parameter of any type and name, other strings of 1 to {1} characters',
'c10_long': '{0} directives, one of them any word of the right length at 5 places',
'c11_word': 'any word of 1-18 symbolic characters with six argument lists',
'c11_arity': '8 transforms with fewer than {0} symbolic arguments',
'c11_kinds': '8 transforms with one argument of another kind at any place',
'c11_args': '10 directives with fewer than {0} arbitrary tokens',
'c11_strings': 'string arguments with escapes, non-ASCII and special characters, 9 places',
'c11_names': 'names of 1 to {0} symbolic characters with a parameter of any type and name, other strings of 1 to {1} characters',
'c11_ident': 'the argument of ActiveTransform: up to 14 symbolic characters, {0} characters, letters beyond ASCII',
'c11_seq': '{0} options of any of 12 forms with symbolic arguments',
'c12_tokens': 'whole file of fewer than {0} tokens among block words, words, numbers, strings',
'c12_before': 'something that is no option before the world',
'c12_after': 'up to two arbitrary tokens after the world',
'c12_stray': '{0} arbitrary pieces after the world, in it or between options, four endings',
'c12_cut': '8 scenes cut after any character',
'c12_edit': '8 scenes with one token replaced by an arbitrary one, removed or doubled',
'c12_long': '{0} options, one of them symbolic at 5 places',
'c12_twice': 'two texts parsed in one run, the first complete, cut or malformed',
'c12_free': 'fewer than {0} symbolic ASCII bytes before, inside or instead of a world',
'c24_free': 'whole text: up to {0} symbolic ASCII bytes',
'c24_wide': '{0} arbitrary pieces outside, in a comment, in a string or behind a backslash, four endings',
'c24_edit': '8 scenes over several rows with one token replaced by an arbitrary one, removed or doubled',
'c24_tokens': '5 beginnings in 3 layouts and fewer than {0} block words or arbitrary tokens',
'c24_params': '12 types under three heads, fewer than {0} arbitrary tokens as values',
'c24_decl': 'declaration strings of fewer than {0} symbolic characters, symbolic types of 3-9 characters',
'c24_args': '16 directives with fewer than {0} arbitrary tokens',
'c24_arity': '8 transforms with fewer than {0} arguments, one of any kind at any place',
'c24_far': '9 to 1000 leading rows or columns, one symbolic gap, one arbitrary token',
'c13_block': 'two rows and two columns, in any place, with 4 symbolic entries where they cross, fixed entries elsewhere',
'c13_line': '{0} fixed matrices, any whole row or column symbolic',
'c13_affine': '6 axis permutations with symbolic translation',
'c13_dep': '4 fixed matrices, one row a multiple of another with one symbolic entry',
'c13_range': 'entries differing by up to 2^35 and sizes from 2^-40 to 2^40, rows and columns permuted; machine arithmetic, no float symbolic',
'c13_int': '8 fixed integer matrices, one entry of 6 values',
'c13_one': '8 fixed matrices, any one entry symbolic',
'c13_perm': 'the 24 permutation patterns with 4 symbolic entries',
'c13_two': '{0} fixed matrices, any two entries symbolic',
'c13_zero': '8 fixed matrices, a zero row or column, one other entry symbolic',
'c14_laws': 'one fully symbolic matrix, two fixed ones',
'c15_translate': 'symbolic vector', 'c15_scale': 'symbolic non-zero factors',
'c15_matrix': '6 fixed matrices, any one entry symbolic', 'c15_pair': 'two fully symbolic matrices',
'c15_identity': 'identity with {0} entries symbolic at any place', 'c15_has_scale': 'fully symbolic matrix',
'c15_scaling': 'symbolic factors and translation', 'c15_apply': 'fully symbolic matrix and vector',
'c18_iter': 'symbolic lower corner (32 bit), sides from -2 to {0}',
'c18_long': 'symbolic lower corner (32 bit), strips of length {0}',
'c18_edge': 'corners at the ends of the 64-bit range and around zero, sides 0-3',
'c20_floor': 'one symbolic component below 2^23 in magnitude', 'c20_nan': 'three symbolic floats including NaN',
}


def bound(V, name, tier):
    """what the entry leaves symbolic, with the sizes used at this tier"""
    base = re.sub(r'_[if]$', '', name)
    b = BOUNDS.get(name) or BOUNDS.get(base)
    if not b:
        kind = 'integers of 30 bits (18 where three are multiplied, 64 for comparisons)' if name.endswith('_i') else 'floats'
        b = 'every operand symbolic: ' + kind
    src = open(V + '/harness/src/text.rs').read() + open(V + '/harness/src/geom.rs').read()
    m = re.search(r'pub fn %s\(\) \{(.*?)\n\}' % name, src, re.S)
    ps = {}
    if m:
        for k, q, t in re.findall(r'sym::param\((\d+), (\d+), (\d+)\)', m.group(1)):
            ps[int(k)] = int(t if tier else q)
    return re.sub(r'\{(\d)\}', lambda x: str(ps.get(int(x.group(1)), '?')), b)


def entries(V, prop):
    names = re.findall(r'(?:text|geom)::(c\d\d_\w+)', open(V + '/harness/src/all.rs').read())
    pre = prop.lower() + '_'
    out = []

    def add(n, f64):
        if n in REAL:
            st = [('real', {}), ('real', {91: 1, 92: 1})]
        elif NOFLOAT.search(n):
            st = [('uf', {}), ('uf', {93: 1})] if n.endswith('_i') else [('uf', {})]
        else:
            st = [('uf', {}), ('real', {}), ('real', {91: 1, 92: 1})]
        out.append(dict(name=n, f64=f64, stages=st, tag='', time=TIMES.get(n, (150, 1500))))
    for n in names:
        if n.startswith(pre):
            add(n, False)
    if prop == 'C23':
        for n in F64:
            add(n, True)
        for n in F64V:
            out.append(dict(name=n, f64=True, stages=[('uf', {94: 1})], tag='#values', time=(60, 300)))
    return out


def demangle(s):
    """the identifiers of a mangled symbol, without hashes"""
    out, i = [], 0
    while i < len(s):
        m = re.match(r'(\d+)_?', s[i:])
        if m and 0 < int(m.group(1)) < 80:
            j = i + m.end()
            w = s[j:j + int(m.group(1))]
            if re.match(r'^[A-Za-z_][A-Za-z0-9_]*$', w):
                out.append(w)
                i = j + len(w)
                continue
        # skip a crate hash
        m = re.match(r'Cs[0-9A-Za-z]*_', s[i:])
        i += m.end() if m else 1
    return '::'.join(out) if out else s
