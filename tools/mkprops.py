"""Writes properties.jsonl and MANIFEST.json (kept in one place so that they stay in step)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T, M, L, K, TO, TM = 'src/model.rs', 'src/material.rs', 'src/lib.rs', 'src/tokenizer/mod.rs', 'src/tokenizer/obj.rs', 'src/tokenizer/mtl.rs'
FAMT = 'abstract interpretation of the MIR on families of texts, compared with a field-by-field specification'
FAMN = ('Sound for the texts of its families up to the models of std and nom in /verif/vlib; a family the abstraction cannot decide is listed as '
        'undecided and raises no alarm. Texts outside the families are not covered.')
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=FAMT, note=FAMN, observe=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                                observe_at=observe or ['results of load_obj and load_mtl'])), technique, note))


prop('C01', 'Parsing never panics', 'Loading any string as an OBJ or as an MTL file returns a result or an error. It never panics, whatever characters, numbers, nesting or truncation the text holds.',
     ['inputs'], 'every string, as OBJ and as MTL', 'The tests parse a few dozen short well-formed ASCII texts; a panic needs one particular character, number or truncation point.',
     [L, T, M, K, TO, TM], [('conversion of tokens instead of unwrap', 'src/lib.rs: get_token_float, get_token_int, get_token_string'), ('keyword comparison on char boundaries', 'src/tokenizer/mod.rs: tag_no_case'), ('slicing of the token list', 'src/tokenizer/mod.rs: TokenSet')],
     'abstract interpretation of the MIR with an unconstrained text (every panic site), plus provoking text families',
     'Every reachable panic terminator (assert, unwrap, slice, arithmetic, explicit panic) of the crate and of the std/nom code it calls is an obligation for an arbitrary text; loops and repetitions are generalised by havoc of what they write. An obligation which is not discharged is an alarm only when an instance of it is confirmed in the abstraction, otherwise it is reported as undecided. Stack and memory exhaustion are excluded.')
prop('C02', 'Parsing always terminates', 'Loading any string as an OBJ or MTL file comes to an end. No text makes it loop or recurse without consuming input.',
     ['inputs'], 'every string, as OBJ and as MTL', 'A test that hangs is only seen for the text it tries; the tests use well-formed texts.',
     [L, T, M, K, TO, TM], [('nom repetitions refuse parsers which consume nothing', 'src/tokenizer/obj.rs: parse_obj, src/tokenizer/mtl.rs: parse_mtl'), ('fold over the tokens', 'src/model.rs: parse, src/material.rs: parse')],
     'ranking analysis of every MIR loop and every nom repetition reachable from an unconstrained text; loop-without-progress detection on text families',
     'Every loop must have a variant (iterator, or input getting shorter) and every repetition a consuming or guarded body. An alarm needs a loop shown to return to the same state on an instance; a loop without recognised variant alone is undecided.')
prop('C03', 'Parsing is a pure function of the text', 'The same text always gives an equal result. Parsing reads and writes no file, network, environment, clock or randomness, keeps no state between calls, and no result depends on the iteration order of a hash map or on which thread parses.',
     ['inputs', 'histories', 'schedules'], 'every string, after any earlier calls, on any thread', 'Tests see one process, one hash seed per map and one order of calls.',
     [L, T, M, K], [('no statics, no I/O', 'whole crate'), ('groups are looked up, never iterated, while parsing', 'src/model.rs: parse')],
     'effect analysis over the call graph (forbidden callees, statics), and abstract interpretation under both orders of every map iteration',
     'The effect rule covers every function of the crate reachable from the entry points (trait-object and closure calls included). Iteration order is decided on the multi-group families. Logging through the log facade is permitted.')
prop('C05', 'Success means the whole file was read', 'When loading succeeds, every non-comment piece of the text has been turned into part of the result; text the loader cannot use is never dropped silently. Content after an unusable piece is not ignored either: the load fails.',
     ['inputs'], 'every text with a usable beginning followed by anything else', 'The tests only load well-formed texts, where there is nothing left over.',
     [L, T, M], [('end-of-input test after the statement loop', 'src/model.rs: parse, src/material.rs: parse'), ('end-of-input test after tokenizing', 'src/tokenizer/obj.rs: parse_obj, src/tokenizer/mtl.rs: parse_mtl')])
prop('C06', 'OBJ keywords: any letter case, whole words only', 'Every OBJ statement keyword, and on/off, is recognised in every mixture of upper and lower case, with the same effect. A longer word which merely begins with a keyword is not that keyword.',
     ['inputs'], 'every spelling of every OBJ keyword, every character after it', 'There are 2^n spellings of each keyword and an unbounded set of continuations; tests use the lower-case spelling.',
     [TO, K], [('case-insensitive tag', 'src/tokenizer/mod.rs: tag_no_case'), ('keyword table', 'src/tokenizer/obj.rs: kw_map')])
prop('C07', 'MTL keywords and options: any letter case, whole words', 'Every MTL statement keyword, map option, colour-space word and on/off is recognised in every mixture of upper and lower case, with the same effect. A longer word which merely begins with one is not recognised as it.',
     ['inputs'], 'every spelling of every MTL keyword and option, every character after it', 'There are 2^n spellings of each keyword and an unbounded set of continuations; tests use one spelling.',
     [TM, K], [('case-insensitive tag', 'src/tokenizer/mod.rs: tag_no_case'), ('keyword table', 'src/tokenizer/mtl.rs: kw_map')])
prop('C08', 'Numeric literals keep their value', 'Every decimal literal (optional sign, integer or fraction with digits on either side of the dot, optional exponent) is taken as the number it denotes, wherever a number is accepted, and whole-number literals are accepted where a real number is. A value out of the range of the field is an error or the nearest real value, never a different number.',
     ['inputs'], 'every decimal literal in every numeric position of both formats', 'The tests use a handful of literals, none with exponents, explicit plus, missing digits or out-of-range values.',
     [K, L], [('number recognisers', 'src/tokenizer/mod.rs: parse_digit, parse_float'), ('conversion', 'src/lib.rs: get_token_float, get_opt_token_float_opt, get_token_int')])
prop('C09', 'Vertices, normals and texture coordinates', 'Each v, vn and vt statement appends exactly one entry holding its numbers in the order written, with the optional last numbers present exactly when given. No other statement adds, removes or changes one.',
     ['inputs', 'histories'], 'all numbers, all counts of components, all sequences of such statements', 'Tests check one or two statements with fixed small numbers; a swapped, dropped or rounded component of another form is not seen.',
     [T], [('statement parsers', 'src/model.rs: parse_vertex, parse_vertex_normal, parse_vertex_texture'), ('accumulation', 'src/model.rs: parse')])
prop('C10', 'Face, line and point indices', 'Each f, l and p statement yields one element listing its index groups in order; each group keeps vertex, texture and normal index apart, absent ones are absent, and positive, negative and large indices are kept as written.',
     ['inputs'], 'all index values and all mixtures of a, a/b, a//c, a/b/c and any number of corners', 'Tests use a few literal faces; the mixtures of forms, signs and lengths are unbounded.',
     [T], [('statement parsers', 'src/model.rs: parse_face, parse_line, parse_point')])
prop('C11', 'Elements go to exactly the current groups', 'A face, line or point is listed under every group named by the latest group statement and under no other; before any group statement it is listed under the group "default". Within a group, elements keep file order, and returning to a group continues its list.',
     ['inputs', 'histories'], 'all sequences of group, face, line and point statements', 'It is a statement about every interleaving of statements; tests use one group switch.',
     [T], [('current groups', 'src/model.rs: parse (Model::current_group)'), ('group statement', 'src/model.rs: parse_group')])
prop('C12', 'Group settings go to the current groups', 'usemtl, usemap, bevel, c_interp, d_interp and lod set the corresponding setting of exactly the groups named by the latest group statement, the last value wins, and other groups and other settings are unchanged. Naming a group again keeps what was set for it.',
     ['inputs', 'histories'], 'all sequences of group and setting statements', 'The guarantee is over every interleaving; tests set one or two attributes on one group.',
     [T], [('settings', 'src/model.rs: parse, parse_material, parse_texture_map, parse_bevel, parse_c_interp, parse_d_interp, parse_lod')])
prop('C13', 'Faces carry the smoothing group in force', 'Each face carries the smoothing group set by the latest s statement before it, 0 after "s off" or before any, regardless of other statements in between. Changing it later does not alter earlier faces.',
     ['inputs', 'histories'], 'all sequences of s, face and other statements, all smoothing group numbers', 'It is about every interleaving of statements; tests use a single s.',
     [T], [('smoothing state', 'src/model.rs: parse (Model::current_smoothing_group), parse_smoothing')])
prop('C14', 'Library, shadow and trace file names', 'mtllib and maplib append their file name to the material and texture library lists in file order; shadow_obj and trace_obj set the respective file name, the last one winning. No other statement touches them.',
     ['inputs', 'histories'], 'all file names and all sequences of these and other statements', 'Tests use one statement each.',
     [T], [('statement parsers', 'src/model.rs: parse_mat_lib, parse_texture_lib, parse_shadow_obj, parse_trace_obj'), ('accumulation', 'src/model.rs: parse')])
prop('C15', 'A statement changes only its own part of the model', 'Each OBJ statement changes only the part of the model it is defined to change, everything read before stays as it was and in the same order. Comments and object names change nothing.',
     ['inputs', 'histories'], 'every ordered pair and triple of statement kinds, with any operands', 'Pairwise interactions of the 20 statement kinds are far more than the tests combine.',
     [T], [('statement fold', 'src/model.rs: parse')])
prop('C16', 'One material per newmtl, in file order', 'The result lists one material per newmtl statement, in file order, with the name given there and exactly the attributes between it and the next newmtl. Materials with equal names stay separate.',
     ['inputs', 'histories'], 'all sequences of newmtl and attribute statements', 'Tests load at most a couple of materials; leakage between materials needs particular sequences.',
     [M], [('material grouping', 'src/material.rs: parse, parse_material_set, parse_new_material'), ('attribute assignment', 'src/material.rs: Material::set_from_material_element')])
prop('C17', 'Colour statements', 'Ka, Kd, Ks, Ke and Tf set their own colour to the RGB or XYZ triple or the spectral curve (file and factor) written, components in order. Omitted y and z repeat x, and an omitted spectral factor is 1.',
     ['inputs'], 'all component values and all colour forms', 'Tests use fixed triples for some statements and forms.',
     [M], [('colour parser', 'src/material.rs: parse_color_type'), ('statement parsers', 'src/material.rs: parse_ambient, parse_diffuse, parse_specular, parse_emissive_coefficient, parse_transmission_factor')])
prop('C18', 'Scalar material statements', 'Ns, Ni, Tr, sharpness, illum, d (with and without -halo) and map_aat set exactly their own attribute to the value written; the last statement wins.',
     ['inputs'], 'all values of all scalar statements', 'Tests use one value each.',
     [M], [('statement parsers', 'src/material.rs: parse_specular_exponent, parse_disolve, parse_transparency, parse_sharpness, parse_index_of_refraction, parse_illumination_model, parse_anti_alias_map')])
prop('C19', 'Map statements reach their own slot', 'Each texture map statement (map_Ka, map_Kd, map_Ks, map_Ns, map_d, disp/map_disp, decal, bump, refl) stores the file name written in its own slot of the current material and in no other; the last statement of a kind wins.',
     ['inputs', 'histories'], 'all file names and all combinations of map statements', 'A crossed slot shows only when the two statements involved occur together.',
     [M], [('statement parsers', 'src/material.rs: parse_texture_map_*, parse_shininess_map, parse_disolve_map, parse_displacement_map, parse_decal, parse_bump_map, parse_reflection_map')])
prop('C20', 'Map options', 'Each texture option of a map statement sets its own setting to the values written, whatever the order and combination of options; options not written and omitted vector components are absent from the result. Options never change the file name.',
     ['inputs'], 'all options of all maps, all values, all orders and combinations', 'Twelve options in any order on a dozen maps cannot be enumerated by example tests.',
     [M], [('option parsers', 'src/material.rs: parse_options, parse_option_*'), ('option assignment', 'src/material.rs: ColorCorrectedMap::new, NonColorCorrectedMap::new, BumpMap::new, ReflectionMap::new')])
prop('C21', 'Names are kept verbatim', 'Group, object, material, library and file names appear in the result exactly as written: same characters, same letter case, no added or lost text. Non-ASCII letters, digits, dots, dashes, backslashes and inner punctuation are kept.',
     ['inputs'], 'all names without blanks at their ends, in every name position', 'Tests use plain ASCII words.',
     [K, TO, TM, L], [('string tokens', 'src/tokenizer/obj.rs: parse_obj, src/tokenizer/mtl.rs: parse_mtl'), ('conversion', 'src/lib.rs: get_token_string')])
prop('C22', 'Blanks, line endings and comments are neutral', 'Extra spaces, tabs, blank lines, CR-LF or LF line endings, a missing final newline, indentation, and comments (on a line of their own, or after the numbers of a statement) do not change the result.',
     ['inputs'], 'any amount of any blanks between tokens and lines, any comment text, around every statement', 'Tests use one layout.',
     [TO, TM], [('whitespace and comment tokens', 'src/tokenizer/obj.rs: parse_obj, src/tokenizer/mtl.rs: parse_mtl')])
prop('C23', 'Malformed and unknown statements are errors', 'A statement with missing, excess or wrong-kind operands, and a statement with an unknown keyword, makes the load fail with the error of that file format. It is never skipped or read as something else. (Documented leniency: a switch word other than on or off counts as off with a logged message, a bare slash may end an index group, and the operands of a statement may go on in the next line.)',
     ['inputs'], 'all malformed operand lists of every statement, all unknown words', 'The tests hold no malformed statement.',
     [L, T, M, TO, TM], [('operand parsers', 'src/model.rs, src/material.rs: parse_*'), ('error mapping', 'src/lib.rs: load_obj, load_mtl')])
prop('C24', 'Results are owned and can cross threads', 'Loaded models and materials and errors do not borrow from the text, can be sent to and shared between threads, can be cloned, and errors can be boxed as standard errors; the loaders accept text of any lifetime.',
     ['programs'], 'every program using the API in such a way', 'It is about which programs compile; the tests are one program.',
     [L, T, M], [('owned fields', 'src/model.rs: Model, src/material.rs: Material'), ('error type', 'src/lib.rs: ObjError')],
     'type-level witness: a crate which builds only if the lifetimes and auto traits hold', 'Decided by rustc for all programs: the bounds are universally quantified. Trusts the compiler.')
prop('C25', 'Constructors and conversions keep every field', 'Building a data value from positional arguments or a tuple stores each argument in the field of its documented position, and converting it back to a tuple gives the same values in the same order.',
     ['inputs'], 'all values of all fields of vertex, normal, texture, group, face, line and point types', 'Fields of equal type can be swapped without a compile error; the tests compare few values.',
     [T], [('derived constructor, From and Into', 'src/model.rs: derives on the data types')],
     'abstract interpretation of the MIR of each constructor and conversion on symbolic arguments', 'Each argument is an opaque symbol, so the result holds for all values. Relies on the models of std.')
prop('C26', 'Absent material attributes are absent', 'A material attribute is present exactly when the material has the statement for it; setting one attribute never changes another, in any order of statements.',
     ['inputs', 'histories'], 'every ordered pair of material statements, with any operands', 'Twenty statement kinds give hundreds of pairs; tests look at a few.',
     [M], [('attribute assignment', 'src/material.rs: Material::set_from_material_element')])
prop('C27', 'Clone, equality and defaults are field-wise', 'A clone equals its original in every field, two values are equal exactly when all their fields are, and default values are empty or zero as documented (a default model has just the group "default").',
     ['inputs'], 'all values of all public data types', 'A forgotten field in a comparison or clone shows only for values which differ in just that field.',
     [T, M], [('derived Clone, PartialEq and Default; Default of the model', 'src/model.rs, src/material.rs')],
     'abstract interpretation of the MIR of clone, eq and default on symbolic field values', 'Fields are opaque symbols, equal or different one at a time. Relies on the models of std.')
prop('C30', 'The call depth does not depend on the text', 'Loading a text of any length, and dropping the result, takes a call depth which does not grow with the text: however many lines, blanks, elements, groups, faces or materials a text has, it cannot exhaust the stack.',
     ['inputs'], 'texts of any length, in the number of lines, blanks, comments, elements per line, groups, faces and materials', 'A recursion over the text passes on every short test text and overflows on a long one.',
     [K, T, M], [('iterative folds', 'src/model.rs: parse'), ('separator and comment skipping', 'src/tokenizer/mod.rs')],
     'call-graph cycle analysis over the MIR reachable from the entry points, with activation depth of each cycle by abstract interpretation on growing texts, and recursive-type analysis of dropped values', 'Calls through function pointers made at run time are resolved by the types of the pointers. nom and std combinators are taken to iterate (their many0 and iterator loops do).')
NA = [('C28', 'Parsing time grows linearly with the text', 'Loading a text takes time proportional to its length; no text of moderate size takes minutes.',
       'The number of nom back-tracking steps per token depends on run-time token lists; TokenSet copies its token vector on every take/split, and no static cost argument in reach bounds the constants or the allocator. Termination (C02) is decided instead.',
       ['inputs'], 'all texts', 'Tests use short texts.', [K], [('token list copying', 'src/tokenizer/mod.rs: TokenSet::take, take_split')]),
      ('C29', 'Decimal to binary rounding is exact', 'Each decimal literal is rounded to the nearest representable single-precision value.',
       'The rounding is done inside core::num (f32::from_str), whose correctness is a numerical proof about the standard library; the static analysis stops at that call and checks (C08) that exactly the written literal reaches it.',
       ['inputs'], 'all decimal literals', 'Only a few literals are tried.', [K], [('f32 conversion', 'src/tokenizer/mod.rs: parse_float')])]
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for d, t, n in P:
        f.write(json.dumps(d) + '\n')
    for i, ti, st, why, over, text, wt, files, mech in NA:
        f.write(json.dumps(dict(id=i, title=ti, statement=st, quantifier={'over': over, 'text': text}, why_tests_cant=wt,
                                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 /verif/setup.py', 'checks': [], 'not_applicable': [{'property': x[0], 'reason': x[3]} for x in NA],
       'notes': 'No hooks are needed: the analysis reads the MIR the compiler produces for the unmodified crate. Known findings and repairs: known-findings.jsonl.'}
for d, t, n in P:
    man['checks'].append({'property': d['id'], 'quick_cmd': 'python3 /verif/check.py %s --tier quick' % d['id'], 'thorough_cmd': 'python3 /verif/check.py %s --tier thorough' % d['id'],
                          'technique': t, 'level': 'other', 'level_note': n})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
