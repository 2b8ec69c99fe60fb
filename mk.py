#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below and props.json."""
import json
P = 'lib/src/parser/'
def prop(id, title, statement, over, quant, why, files, mech, obs, state=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                anchors=dict(files=files, state=[dict(name=a, meaning=b) for a, b in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=obs, hook_needed=False))
PROPS = [
prop('W01', 'Whitespace and comments are consumed exactly',
 'Horizontal whitespace, whitespace with newlines, and the newline rule consume exactly the longest run of blanks, line ends and complete comments that the syntax allows, and nothing else. A line comment starts with `#` or `//` and runs to the end of its line, which it consumes; an inline comment runs from `/*` to the first `*/`; a comment whose terminator is missing is not consumed at all. Parsing whitespace never fails, never panics and always terminates.',
 ['inputs'], 'every UTF-8 text', 'Tests sample about twenty texts; the rule is about every mix of blanks, comment openers, line ends and multi-byte characters.',
 [P+'whitespace.rs'], [('inline_comment / hash_comment / slash_comment / line_comment', P+'whitespace.rs'), ('inline_whitespace / whitespace / newline loops', P+'whitespace.rs')],
 ['result and remaining input of the public whitespace parsers']),
prop('S01', 'Quoted strings and escapes are decoded exactly',
 'A quoted string is decoded to the characters between its quotes, with each escape (`\\a \\b \\f \\n \\r \\t \\v \\\\ \\" \\?`, octal of one to three digits, `\\x` up to two, `\\u` up to four and `\\U` up to eight hexadecimal digits) replaced by the one character it names, and exactly the text up to and including the closing quote is consumed. An unknown escape or an escape naming no Unicode scalar value is a hard error, never a silently altered string; a string literal used as a label or key additionally may not contain a raw line end.',
 ['inputs'], 'every UTF-8 text', 'Tests decode a few dozen strings; escape digits, their counts, surrogate and out-of-range code points, and their neighbours are far more.',
 [P+'string.rs'], [('unescape / hex_to_unicode / octal_to_string / hex_to_string', P+'string.rs'), ('string_literal_content / multiline_string_content', P+'string.rs'), ('quoted_string / string_literal', P+'string.rs')],
 ['decoded value and remaining input of string, string_literal and string expressions']),
prop('H01', 'Heredocs keep their text and strip only indentation',
 'A heredoc `<<NAME` yields exactly the text between the line end after its marker and the line end before the first line consisting of optional blanks and NAME, and consumes up to and including that NAME. With `<<-NAME` each line of the text loses at most as many leading spaces as blanks precede the terminator, and nothing else is changed; lines with fewer spaces lose only those they have.',
 ['inputs'], 'every UTF-8 text, every marker and indentation', 'Tests have a handful of heredocs; the guarantee concerns every body, including ones containing near-terminators, short lines, CRLF and non-ASCII text.',
 [P+'string.rs', 'lib/src/utils.rs'], [('heredoc_begin / heredoc_end / heredoc_string', P+'string.rs'), ('unindent_heredoc', P+'string.rs'), ('take_till_match', 'lib/src/utils.rs')],
 ['decoded value and remaining input of heredoc_string, string and string expressions']),
prop('N01', 'Number literals are recognised exactly and kept verbatim',
 'A number literal is an optional sign, then digits with an optional fraction or a bare fraction, then an optional exponent; the parser consumes exactly the longest such text and keeps it verbatim. It is classified as a float exactly when it has a fraction or an exponent, as an unsigned integer exactly when it is an integer without a minus sign; converting it to a machine type gives the value of the text (for floats the nearest one) or an error, never a different value.',
 ['inputs'], 'every UTF-8 text', 'Tests list some forty literals; sign, fraction, exponent and terminator combinations, and magnitudes beyond machine range, are unbounded.',
 [P+'number.rs'], [('number / exponent', P+'number.rs'), ('is_signed / is_unsigned / is_float / as_*', P+'number.rs')],
 ['literal text, classification, conversions and remaining input of the number parser']),
prop('N02', 'Numbers built from machine values round-trip, and equality is numeric',
 'Every machine integer and finite float converted to a number literal prints as that value, converts back to the same value and is classified by its sign and by the form of what it prints. Equality of numbers is reflexive and symmetric, equals numeric equality for integers of up to 128 bits, respects the sign, and treats an integer literal and a float literal of the same value as equal.',
 ['inputs'], 'every machine integer and float, every pair of number literals', 'Tests compare fewer than ten pairs and never the extremes of a type.',
 [P+'number.rs'], [('From<iN/uN/fN> for Number', P+'number.rs'), ('PartialEq for Number', P+'number.rs')],
 ['text, conversions, classification and == of number literals']),
prop('L01', 'Identifiers, booleans and null are recognised exactly',
 'An identifier is the longest run of Unicode identifier-continue characters and dashes, and is accepted exactly when it starts with an identifier-start character or an underscore; it is returned unchanged. The literals `true`, `false` and `null` denote their values and nothing else does; when a literal is not recognised no input is consumed.',
 ['inputs'], 'every UTF-8 text', 'Tests sample a dozen words; the character classes range over all of Unicode.',
 [P+'identifier.rs', P+'boolean.rs', P+'null.rs'], [('identifier', P+'identifier.rs'), ('boolean', P+'boolean.rs'), ('null', P+'null.rs')],
 ['value and remaining input of the literal parsers']),
prop('T01', 'Tuples, objects and nested expressions keep every element in order',
 'A tuple or object expression yields exactly the elements written between its delimiters, in order, each with its own value (and key), with optional trailing separator, and consumes up to and including the closing delimiter; a parenthesised expression denotes its contents. Whitespace and comments between tokens never change the value, and an expression is chosen by its first token: the literal forms, strings, tuples, objects, then parentheses.',
 ['inputs'], 'every expression text, any nesting and layout', 'Tests cover a few dozen expressions with nesting at most three.',
 [P+'tuple.rs', P+'object.rs', P+'expression.rs'], [('tuple', P+'tuple.rs'), ('object_element_identifier / object_element / object_separator / object_body / object', P+'object.rs'), ('expression / bracket_expression', P+'expression.rs')],
 ['value and remaining input of the expression parsers']),
prop('B01', 'Bodies keep every attribute and block, in order, with labels',
 'Parsing a body yields one element per attribute or block written, in order of appearance, each attribute with its name and value and each block with its type, all its labels in order and its own nested body. A one-line block has zero or one attribute; a multi-line block holds a body; each element ends at a newline (or comment) or at the end of the input.',
 ['inputs'], 'every configuration text, any nesting and layout', 'Tests parse a few fixtures; order, label counts, nesting and layout are unbounded.',
 [P+'attribute.rs', P+'block.rs', P+'body.rs'], [('attribute', P+'attribute.rs'), ('block_label / block_labels / one_line_block / block', P+'block.rs'), ('body_element / body', P+'body.rs')],
 ['elements and remaining input of the body parser, result of parsing a configuration text']),
prop('R01', 'Parsing is total and consumes everything or reports an error',
 'For every text, parsing a configuration, a value document or a single expression returns either a result that accounts for all of the input or an error; it never panics and never returns a result while ignoring trailing input. Where parsing fails with a dedicated error, the error is of the kind of the defect.',
 ['inputs'], 'every UTF-8 text of moderate nesting', 'Tests contain a few invalid inputs; a panic or ignored trailer can hide behind any text.',
 ['lib/src/parser.rs', P+'expression.rs', 'lib/src/value.rs', 'lib/src/errors.rs'], [('parse_str / config_file', 'lib/src/parser.rs'), ('Expression::parse', P+'expression.rs'), ('from_str', 'lib/src/value.rs'), ('error mapping', 'lib/src/errors.rs')],
 ['return value of the parsing entry points']),
prop('E01', 'String, byte-slice and reader entry points agree',
 'Parsing the same document from a string, from its UTF-8 bytes and from any reader delivering those bytes in any chunking gives the same result or the same kind of error. Bytes that are not valid UTF-8 and readers that fail give an error and never a partial result.',
 ['inputs', 'fault_sequences'], 'every byte string, every chunking and failure position of the reader', 'Tests read fixtures through one entry point with well-behaved readers.',
 ['lib/src/parser.rs', 'lib/src/value.rs'], [('parse_str / parse_slice / parse_reader', 'lib/src/parser.rs'), ('from_str / from_slice / from_reader', 'lib/src/value.rs')],
 ['return values of the entry points']),
prop('G01', 'The value document grammar keeps every entry in order',
 'Parsing a value document yields one entry per key written, in order of appearance: a scalar, list or map value for `key = value`, a map for `key {...}` and a labelled block for `key "label"... {...}`, each with its own nested entries. Integers that fit in 64 bits become integers and other numbers floats; keys may be identifiers or string literals; separators are newlines, commas or the end of the input.',
 ['inputs'], 'every value document text', 'Tests parse a few fixtures and samples.',
 ['lib/src/parser.rs', P+'literals/key.rs', P+'literals/number.rs'], [('list / single_value / map_expression / attribute / map_values / body', 'lib/src/parser.rs'), ('key', P+'literals/key.rs'), ('number', P+'literals/number.rs')],
 ['unmerged result of parsing a value document']),
prop('M01', 'Merging never loses, invents or alters an entry',
 'Merging a value or document yields, for every key, the combination of all entries written under it: a lone entry is kept, repeated maps are concatenated in order, and repeated labelled blocks are united. A repetition that cannot be combined (scalar or list, kinds that differ, or blocks with equal labels) is reported as an error; nested values are merged the same way, and merging a merged value changes nothing.',
 ['inputs', 'histories'], 'every value tree, every repetition pattern of keys and labels', 'Tests merge one fixture and two conflicts.',
 ['lib/src/value.rs', 'lib/src/iter.rs'], [('new_merged / merge / as_merged', 'lib/src/value.rs'), ('Extend for KeyValuePairs', 'lib/src/iter.rs')],
 ['result of merging values and documents'], [('pairs', 'merged map or unmerged list of key/value pairs')]),
prop('M02', 'Merged and unmerged are reported truthfully and unmerging is lossless',
 'A value reports being merged (unmerged) exactly when every collection of pairs inside it, at any depth, is merged (unmerged); values without pairs report both. Unmerging a merged collection keeps exactly its entries, and leaves an unmerged one unchanged.',
 ['inputs', 'histories'], 'every value tree, any mixture of merged and unmerged parts', 'Tests check two fixtures.',
 ['lib/src/lib.rs', 'lib/src/value.rs'], [('Mergeable impls', 'lib/src/lib.rs'), ('unmerge / as_unmerged', 'lib/src/value.rs')],
 ['is_merged, is_unmerged, unmerge, as_unmerged']),
prop('C01', 'Lengths and scalar counts match the contents',
 'The scalar count of any value or collection is the number of integers, floats, booleans and strings it contains at any depth; the top-level length is the number of direct elements, one for a scalar. A collection is empty exactly when its length is zero; a null counts as nothing.',
 ['inputs'], 'every value tree', 'Tests count three fixtures.',
 ['lib/src/lib.rs', 'lib/src/value.rs'], [('ScalarLength impls', 'lib/src/lib.rs'), ('Value::len / is_empty / len_scalar', 'lib/src/value.rs')],
 ['len, is_empty, len_scalar, is_empty_scalar']),
prop('A01', 'Every value answers to exactly one kind',
 'For every value exactly one kind predicate holds, the accessor of that kind returns the contained data unchanged, whether borrowed, mutably borrowed or consumed, and the accessors of all other kinds return an error naming the expected and the actual kind and give back a consumed value unchanged. The kind name reported for a value or expression is the one of its variant.',
 ['inputs'], 'every value and every accessor', 'Tests use a few accessors on matching kinds only.',
 ['lib/src/value.rs', P+'expression.rs', P+'body.rs', 'lib/src/constants.rs'], [('accessors and is_* predicates', 'lib/src/value.rs'), ('variant_name', 'lib/src/value.rs, lib/src/parser/expression.rs'), ('BodyElement accessors', P+'body.rs')],
 ['results of accessors, predicates and variant names']),
prop('K01', 'Key lookup and iteration over pairs agree with the contents',
 'Looking a key up in merged pairs returns its value; in unmerged pairs the single lookup and indexing return the first value and the multi lookup returns all values of that key in order; absent keys give nothing. Iterating pairs, keys or values yields every entry exactly once, in order for unmerged pairs, with exact size hints, and extending adds exactly the new entries. Borrowing the keys of a block gives the same entries under the same texts.',
 ['inputs', 'histories'], 'every sequence of pairs and lookups', 'Tests look up a few keys in one fixture.',
 ['lib/src/lib.rs', 'lib/src/iter.rs'], [('KeyValuePairs get / get_single / iter / keys / values', 'lib/src/lib.rs'), ('iterators, Index, Extend', 'lib/src/iter.rs'), ('OneOrMany', 'lib/src/lib.rs')],
 ['lookups, indexing, iterators and size hints']),
prop('K02', 'The block index keeps every block under its type and labels',
 'Indexing any sequence of blocks, at once or one by one, keeps every block body exactly once, in order among blocks of the same type and labels, and looking up a type and label path returns precisely the part of the index under that path. Flattening the index returns every block with its type and complete label list; counts and label-length summaries agree with that.',
 ['inputs', 'histories'], 'every sequence of blocks with any types and label lists, in any order', 'Tests index one or two blocks of the same type.',
 [P+'block.rs'], [('Blocks::new / append / get / flat_iter / label_lens*', P+'block.rs'), ('BlockBody::append / body_to_labels / get / flat_iter / len_blocks', P+'block.rs')],
 ['lookups, flattened iteration, counts and summaries of the index']),
prop('D01', 'Expressions deserialize to the data they denote',
 'Deserializing an expression gives the Rust data it denotes: integers with their exact value and floats with the nearest one, or an error when the target cannot hold it, strings verbatim, null only as an absent or unit value, tuples element by element with arity checked, and objects by key. Duplicate object keys are an error and no expression makes deserialization panic. A key of the value types reads as its text.',
 ['inputs', 'programs'], 'every expression and every target type shape', 'Tests cover a few shapes with small values.',
 ['lib/src/serde/de.rs', 'lib/src/serde/de/expression.rs', 'lib/src/serde/de/object.rs', P+'literals/key.rs'], [('Deserializer for Expression', 'lib/src/serde/de/expression.rs'), ('deserialize_number / deserialize_tuple / deserialize_string', 'lib/src/serde/de.rs'), ('ObjectMapAccess', 'lib/src/serde/de/object.rs')],
 ['result of deserializing an expression']),
prop('D02', 'Documents deserialize attribute by attribute and block by block',
 'Deserializing a configuration gives, under each attribute name, the data of its expression and, under each unlabelled block type, its body or the sequence of its bodies in order. A name used twice is an error, unsupported structure is an error, and no document makes deserialization panic.',
 ['inputs', 'programs'], 'every configuration and every target type shape', 'Tests deserialize a few small documents.',
 ['lib/src/serde/de/body.rs', 'lib/src/serde/de/block.rs'], [('MapAccess for body', 'lib/src/serde/de/body.rs'), ('Deserializer for BlockBody', 'lib/src/serde/de/block.rs')],
 ['result of deserializing a configuration']),
prop('O01', 'Owned copies equal the original',
 'Making an owned copy of any parsed result, value, expression, number, label, key or collection yields a structurally identical one that borrows nothing: every element, flag, kind and order is preserved.',
 ['inputs'], 'every parsed result and value tree', 'Tests compare owned copies only through the reader entry point on fixtures.',
 ['lib/src/lib.rs', 'lib/src/value.rs', P+'number.rs', P+'block.rs', P+'expression.rs', P+'object.rs', P+'body.rs', P+'attribute.rs', P+'literals/key.rs'], [('AsOwned impls', 'lib/src/lib.rs and the parser modules')],
 ['as_owned of every type']),
prop('V01', 'Values and expressions built from plain data hold exactly that data',
 'Building a value, an expression, a label, a key, an object name or a number from plain data holds exactly that data: the conversion gives the variant of the data\'s kind with the data unchanged (an integer or a finite float put into an expression is the expression its decimal text parses to), and lists, tuples, maps, objects and blocks hold exactly the given elements, all of them, in order and unmerged, with labels and names of the same text; an absent list is an empty list. An object name compares equal to a text exactly when it is an identifier with that text.',
 ['inputs'], 'every number, text, list, map, object and block handed to a conversion or constructor', 'Tests build a few literals as expected values of parser tests; the constructors themselves are the yardstick there and never checked.',
 ['lib/src/value.rs', P+'expression.rs', P+'number.rs', P+'object.rs', P+'block.rs', P+'literals/key.rs', P+'literals/number.rs'], [('From impls, FromIterator impls and new_* of Value', 'lib/src/value.rs'), ('From impls, new_tuple, new_object', P+'expression.rs'), ('From<&str>, Key::new_*', P+'block.rs, object.rs and literals/key.rs')],
 ['conversion and constructor results']),
prop('X01', 'Parse errors are mapped to the error they carry',
 'Converting a parser error to the library error keeps its severity and position and maps the library code carried by the failure to the matching error with the offending text; a code that is unknown or absent gives a generic parse error. Codes and error kinds correspond one to one.',
 ['inputs'], 'every parser error', 'Tests check two invalid inputs.',
 ['lib/src/errors.rs'], [('from_err* / make_custom_err* / from_context / convert_context', 'lib/src/errors.rs'), ('InternalKind::from_u32', 'lib/src/errors.rs')],
 ['the library error for a given parser error']),
]
def main():
    import os
    here = os.path.dirname(os.path.abspath(__file__))
    cfg = json.load(open(here + '/props.json'))
    with open(here + '/properties.jsonl', 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    checks, na = [], []
    for p in PROPS:
        i = p['id']
        c = cfg.get(i)
        if c and not c.get('off'):
            checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='python3 check.py %s thorough' % i,
                               evidence_file='evidence/%s.json' % i, technique=c.get('technique', 'contract-based deductive verification (Verus contracts on the extracted code), bounded reference comparison for what is out of reach'),
                               level=c['level'], level_note=c['level_note'], theorems=c.get('theorems', [])))
        else:
            na.append(dict(property=i, reason=(c or {}).get('reason', 'not yet under contract')))
    m = dict(version=1, setup_cmd='python3 check.py setup', hooks=dict(guard='none', enable='no hooks: the contracts live in /verif/contracts and are woven into the macro-expanded source of /repo by /verif/vx on every run', source_commits=[]),
             checks=checks, not_applicable=na,
             notes='See DESIGN.md. Every check expands /repo, extracts the functions under contract mechanically, lets Verus discharge every obligation, and runs a bounded comparison of the real crate with a reference (labelled bounded).')
    json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
    open(here + '/MANIFEST.json', 'a').write('\n')
def design():
    import os
    here = os.path.dirname(os.path.abspath(__file__))
    cfg = json.load(open(here + '/props.json'))
    t = []
    for p in PROPS:
        c = cfg.get(p['id']) or {}
        t.append('### %s %s' % (p['id'], p['title']))
        t.append(p['statement'])
        if c and not c.get('off'):
            t.append('\n*Decided by*: ' + c['level_note'])
            t.append('Functions under contract: `' + '`, `'.join(c['fns']) + '`. Bounded groups: ' + ', '.join(c['battery']) + '.')
        else:
            t.append('\n*Not claimed*: ' + c.get('reason', 'not yet under contract') + '.')
        t.append('')
    d = [l[7:].strip() for l in open(here + '/known_findings.txt') if l.startswith('fixed:')]
    k = [l[9:].strip() for l in open(here + '/known_findings.txt') if l.startswith('finding: ')]
    s = open(here + '/DESIGN.in.md').read().replace('PROPTABLE', '\n'.join(t)).replace('DEFECTS', 'Fixed:\n\n' + '\n'.join('- ' + x for x in d) + ('\n\nRecorded, not repaired:\n\n' + '\n'.join('- ' + x for x in k) if k else ''))
    import glob
    by = dict(l.split() for l in open(here + '/tools/sweep.txt')) if os.path.exists(here + '/tools/sweep.txt') else {}
    rows = ['| id | property | what it breaks | needs | reported by |', '|---|---|---|---|---|']
    for m in sorted(glob.glob(here + '/seeded/*/meta.json')):
        j = json.load(open(m)); n = m.split('/')[-2]
        rows.append('| %s | %s | %s | %s | %s |' % (n, j['property'], j['what_it_breaks'].replace('|', '/'), j['needs'].replace('|', '/'), by.get(n, '')))
    if os.path.isdir(here + '/seeded'):
        open(here + '/DESIGN.md', 'w').write(s.replace('SEEDTABLE', '\n'.join(rows)))


main()
design()
