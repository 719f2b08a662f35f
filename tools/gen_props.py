"""writes properties.jsonl and MANIFEST.json; the texts live here"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = 'src/mizugaki/parser/sql_parser.yy'
S = 'src/mizugaki/parser/sql_scanner.ll'
D = 'src/mizugaki/parser/sql_driver.cpp'
P = 'src/mizugaki/parser/sql_parser.cpp'
TESTED = 'The existing tests parse a few hundred fixed texts (and most of them cannot be built in the reference set-up); '
PROPS = []


def prop(id, title, statement, over, text, why, files, mech):
    PROPS.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
                  'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}})


prop('P01', 'Parsing any text is total, memory-safe and repeatable',
     'For every byte string and every option setting, parsing terminates without a crash, a leak, an uncaught exception or undefined behaviour, and the result holds either a syntax tree or exactly one diagnostic. '
     'A diagnostic has a known error code, a non-empty message, refers to the document which was given and covers a range of bytes inside it. '
     'Parsing the same text again with the same parser, whether given as text or as a document, gives the same result.',
     ['inputs', 'configurations'], 'every byte string (random, mutated, glued, nested, huge) under every combination of parser options',
     TESTED + 'they never feed arbitrary bytes and run without sanitizers.',
     [P, D, S, G, 'src/mizugaki/parser/sql_parser_result.cpp', 'src/mizugaki/parser/sql_parser_diagnostic.cpp'],
     [('parser entry points', P + ' sql_parser::operator()'), ('scanner and its rewinding of comments and bad characters', S), ('error recovery and diagnostics', D)])
prop('P02', 'Lexical rules hold at every position of every text',
     'Replacing white space and comments between tokens, or changing the letter case of keywords, never changes the tree a text is read as, while identifiers and literals keep their exact spelling. '
     'Reserved words are never identifiers, unreserved words and delimited names always are, and names which begin with two underscores are refused where they stand. '
     'A character no token begins with, an unclosed comment and an unclosed string are each reported exactly where they begin.',
     ['inputs'], 'every token of every valid text, every keyword in every letter case, every delimited or regular identifier, every illegal character at every token boundary',
     TESTED + 'they check single tokens in one position and letter case.',
     [S, 'src/mizugaki/parser/sql_scanner.h', 'src/mizugaki/parser/sql_scanner.cpp', 'src/mizugaki/parser/sql_driver.cpp', G],
     [('token rules', S), ('identifiers and unreserved words', G + ' identifier, contextual_identifier'), ('escapes in delimited names', 'src/mizugaki/parser/sql_driver.cpp')])
prop('P03', 'Expressions are read with their specified precedence, order and operands',
     'Every value expression, predicate, function call, case expression, cast, constructor and nested query is read as the tree which the grammar assigns it: every operator keeps its kind, its precedence and its associativity, and every operand, quantifier, option and flag appears in its place. '
     'Parentheses group but leave no other trace.',
     ['programs'], 'all combinations of expression forms nested to any depth',
     TESTED + 'each shows one operator or one pair; the nesting of forms is not covered.',
     [G, 'include/mizugaki/ast/scalar/expression.h', S], [('expression rules', G + ' value_expression and below'), ('function and set function names', S)])
prop('P04', 'Types and literals keep their exact meaning',
     'Every data type (with its lengths, precisions, scales, time zones and nesting) and every literal (numbers with sign, strings and their continuation lines, hexadecimal strings, dates and times, intervals, booleans, null and default) is read as exactly what is written. '
     'A size which does not fit its range is reported, never replaced by another value.',
     ['programs'], 'all type and literal forms, sizes over the whole range, nested collections and rows',
     TESTED + 'each type and literal form is tried with one or two sizes.',
     [G, S, 'include/mizugaki/ast/type/type.h', 'include/mizugaki/ast/literal/literal.h'], [('type rules', G + ' data_type'), ('literal rules', G + ' literal')])
prop('P05', 'Queries and table expressions are read completely and in order',
     'Every query - selection lists, joins of all kinds with their conditions, subqueries, function tables, APPLY, VALUES, set operations with quantifiers, common table expressions, grouping, filters, ordering and limits - is read as the tree which the grammar assigns it, with set operations and joins associated as specified, no clause lost, exchanged or invented, and the order of all lists kept.',
     ['programs'], 'all combinations and nestings of query clauses', TESTED + 'clauses are tried one at a time.',
     [G, 'include/mizugaki/ast/query/query.h', 'include/mizugaki/ast/table/expression.h'], [('query rules', G + ' query_expression'), ('table references', G + ' table_reference')])
prop('P06', 'INSERT, UPDATE and DELETE are read exactly as written',
     'Every INSERT (with each conflict action, column list, row values, default values or query source, and WITH clause), UPDATE and DELETE (searched or positioned) is read as a statement with exactly the written target, columns, values, conditions and options, in the written order.',
     ['programs'], 'all combinations of clauses of data manipulation statements', TESTED + 'clauses are tried one at a time.',
     [G, 'include/mizugaki/ast/statement/insert_statement.h', 'include/mizugaki/ast/statement/update_statement.h', 'include/mizugaki/ast/statement/delete_statement.h'],
     [('data manipulation rules', G + ' insert_statement, update_statement_searched, delete_statement_searched')])
prop('P07', 'Definition and privilege statements are read exactly as written',
     'Every CREATE, ALTER, DROP and TRUNCATE statement for tables, views, indexes, sequences and schemas, and every GRANT and REVOKE, is read as a statement with exactly the written names, elements, constraints, options, parameters, actions, objects and users, in the written order, including the existence, cascade and identity options. '
     'Nothing which is not written is set.',
     ['programs'], 'all combinations of clauses of definition and privilege statements', TESTED + 'clauses are tried one at a time.',
     [G, 'include/mizugaki/ast/statement/statement.h'], [('definition rules', G + ' schema_definition, table_definition, sequence_generator_definition'), ('privilege rules', G + ' grant_privilege_statement')])
prop('P08', 'Every part of a tree knows where it stands in the source',
     'In the tree of any valid text, the extent of every statement, clause, expression, name, literal, type and flag covers exactly the bytes from the first to the last token of the part it stands for, whatever white space and comments surround it. '
     'A part which is not written has an empty extent or none.',
     ['programs', 'inputs'], 'all texts with any layout: blanks, line ends and comments of any kind between all tokens',
     TESTED + 'extents are checked for a handful of texts without comments.',
     [G, S, 'include/mizugaki/ast/node_region.h', D], [('location tracking', S + ' user_action'), ('extents assigned by grammar actions', G)])
prop('P09', 'A syntax error is reported at the first token which cannot follow',
     'When a text is not in the language, the diagnostic covers exactly the first token at which no valid continuation exists, whatever stands after it, and shows that token. '
     'When only the end is missing, it is the end of the text which is reported; a beginning of a valid text is never refused earlier. '
     'Three further rules are reported at what breaks them: a kind of sequence option given twice (at the second one), a WITH query in parentheses as an '
     'operand of a query (the whole of it), and a static method whose qualifier is no name (the qualifier).',
     ['inputs'], 'all token sequences: valid texts cut or damaged at every position, followed by anything',
     TESTED + 'they check that an error occurs for a few texts, not where.',
     [G, D, S], [('unexpected token report', G + ' report_syntax_error'), ('location of look-ahead', S)])
prop('P10', 'The expected tokens in a diagnostic are exactly those which may follow',
     'Without a limit, the list of expected tokens in a syntax error holds every token which could stand at that place, and no other and none twice; words which are allowed as identifiers are covered by the entry for identifiers, and the end of the text is listed exactly when the text could end there. '
     'With a limit, the list is the beginning of the same list, marked when it is cut; limit zero disables it.',
     ['inputs', 'configurations'], 'all positions of all valid texts, all limits', TESTED + 'they only look at a few messages.',
     [G, D], [('expected token collection', G + ' report_syntax_error'), ('message building', D)])
prop('P11', 'Comments, description comments and placeholders are attributed exactly',
     'The tree of a text lists all its comments, in order and with their exact extents. '
     'A declaration carries as its description the last documentation comment among the comments directly before it, none when there is no such comment, and none does when this is disabled; '
     'host parameters and positional placeholders are numbered and kept exactly as written.',
     ['programs', 'configurations'], 'all placements of comments of all kinds between all tokens; all placements of placeholders',
     TESTED + 'a few placements are tried.', [D, S, G], [('comment collection', S), ('description lookup', D + ' image/description functions'), ('placeholder numbers', D)])
prop('P12', 'Limits on the number of elements hold exactly, kind by kind',
     'With limits on the number of elements per kind, a text is refused exactly when one of its lists of that kind, and only that kind, has more elements than its limit; lists of other kinds never count and limit zero means none. '
     'The diagnostic names the kind and the limit and points at the first element over it, and a text which keeps all limits gives the same tree as without.',
     ['programs', 'configurations'], 'all lists of all kinds, nested in any way, with all limits around their sizes',
     TESTED + 'one list per kind is tried with one limit.', [G, D, 'include/mizugaki/parser/sql_parser_options.h', 'include/mizugaki/parser/sql_parser_element_kind.h'],
     [('limit checks in list rules', G + ' build_list/append helper'), ('limit lookup', D)])
prop('P13', 'Limits on the size and depth of trees hold exactly',
     'With a limit on the number of nodes or on the depth, a text is refused exactly when its tree has more nodes, or is deeper, and the diagnostic states the limit which is exceeded and points at a part of the text. '
     'Otherwise the result reports the exact node count and depth of the tree; when neither is limited both are reported as zero.',
     ['programs', 'configurations'], 'trees of all shapes with limits around their exact size and depth',
     TESTED + 'a few small trees are measured.', ['src/mizugaki/parser/sql_tree_validator.cpp', P, 'src/mizugaki/parser/sql_parser_result.cpp'],
     [('tree walk', 'src/mizugaki/parser'), ('result metrics', P)])
prop('P14', 'Copies of a tree are equal, complete and independent',
     'Copying any part of a tree, by copying or by giving it away, gives a part of the same class which is equal to it field by field, including its source extents and all nested parts, with nothing shared. '
     'Changing any field of a copy never changes the original, and destroying either leaves the other intact.',
     ['programs'], 'all nodes of all trees, every field of every node', TESTED + 'each class is cloned once from one value.',
     ['include/mizugaki/ast', 'src/mizugaki/ast', 'include/mizugaki/ast/common/clone_wrapper.h'], [('copy constructors and clone functions', 'src/mizugaki/ast'), ('owning wrappers', 'include/mizugaki/ast/common')])
prop('P15', 'Equality of trees compares everything that is written and nothing else',
     'Two trees, or parts of trees, are equal exactly when they have the same class and all their fields (apart from source extents, which are ignored) are equal, however deep the difference; equality is reflexive and symmetric, and inequality is its negation.',
     ['programs'], 'all pairs of a node and a copy with one field changed, for all fields of all nodes; pairs of unrelated nodes', TESTED + 'each class is compared for a few values.',
     ['src/mizugaki/ast', 'include/mizugaki/ast'], [('operator== of every class', 'src/mizugaki/ast'), ('comparison of optional, pointer and vector fields', 'include/mizugaki/ast/common')])
prop('P16', 'The serialized form of a tree is well-formed and shows every field',
     'Serializing any tree, or any statement of it, gives one well-formed object for each node with its kind and every field that is part of its meaning, under its own name and with exactly its value; absent parts appear as null and lists keep their order and length. Writing a tree never changes it.',
     ['programs'], 'all nodes of all trees, all strings including quotes, control and non-ASCII characters', TESTED + 'serialization is only called, never read.',
     ['src/mizugaki/ast', 'include/mizugaki/ast/node.h', 'src/mizugaki/ast/node.cpp'], [('serialize functions of every class', 'src/mizugaki/ast')])
prop('P17', 'Names, option stores and dispatch are exact for every value and node',
     'Every value of every enumeration has its own name, written the same everywhere, and the element kind found by a name is the one of that name and nothing is found for any other string. '
     'Options and per-kind maps keep each value independently and show the documented defaults; a parser whose options are changed works like a new one with these options. '
     'The union of two extents covers both and an invalid one counts for nothing; values with extents compare by their values. '
     'Dispatching on any node reaches the handler of exactly its class with the same object, arguments and constness.',
     ['inputs', 'programs'], 'all enumeration values, all strings near names, all histories of option changes, all nodes of all trees', 'The existing tests cover the names of one enumeration and no dispatch.',
     ['include/mizugaki/parser/sql_parser_element_kind.h', 'include/mizugaki/parser/sql_parser_options.h', 'include/mizugaki/ast/statement/dispatch.h', 'include/mizugaki/ast/scalar/dispatch.h'],
     [('name tables', 'include/mizugaki'), ('dispatchers', 'include/mizugaki/ast/*/dispatch.h')])
prop('P18', 'Parsers and trees can be used by many threads at the same time',
     'Parsers which run at the same time in different threads, or one parser shared by them, and trees which are read, copied, compared and written by many threads at the same time, show no data race, and every result is the same as when nothing else runs.',
     ['schedules'], 'all interleavings of parsing, copying, comparing and serializing on 2 to 6 threads', 'The existing tests use one thread.',
     [P, D, S, 'include/mizugaki/parser/sql_parser.h'], [('no shared mutable state', P), ('parser tables and name maps', 'include/mizugaki')])

TECH = {
    'P01': 'ASan/UBSan/LSan-instrumented parser under generated, mutated and hostile inputs; result-shape oracle; every input parsed twice and compared',
    'P02': 'instrumented runs on generated texts rendered with random trivia and letter case; lexical oracle predicts reading or refusal',
    'P03': 'grammar-based generation with an independent expected tree; reflective dump of the real tree compared on every run',
    'P04': 'grammar-based generation with an independent expected tree; reflective dump of the real tree compared on every run',
    'P05': 'grammar-based generation with an independent expected tree; reflective dump of the real tree compared on every run',
    'P06': 'grammar-based generation with an independent expected tree; reflective dump of the real tree compared on every run',
    'P07': 'grammar-based generation with an independent expected tree; reflective dump of the real tree compared on every run',
    'P08': 'generator records the token span of each part; the extents observed in the real tree are compared with it',
    'P09': 'damaged texts with predicted first wrong token; prefix/suffix consistency monitors on the observed diagnostics',
    'P10': 'observed candidate lists compared with observed acceptance of each token at the same place',
    'P11': 'generator records comments, declarations and placeholders; observed attributions compared',
    'P12': 'generator records sizes of all lists; observed acceptance or diagnostic compared with the predicted first violation',
    'P13': 'generator counts nodes and depth; observed metrics and diagnostics compared',
    'P14': 'reflective monitor clones, moves and mutates every node of generated trees under ASan, comparing dumps before and after',
    'P15': 'reflective monitor changes one field at a time and observes equality in both directions',
    'P16': 'observed serialized form parsed as JSON and compared with the generated tree',
    'P17': 'compiler-derived enumerator names against observed names; model-based runs of option stores; dispatch observed on every node',
    'P18': 'ThreadSanitizer on concurrent parsing, cloning, comparing and serializing, with a sequential oracle for every result',
}
NOTE = {'default': 'sampled executions of the real code under ASan+UBSan; the takatori utility headers are replaced by validated stand-ins'}
NA = []


def main():
    try:
        from gen_props_more import extend
        extend(prop, TECH, NA, NOTE)
    except ImportError:
        pass
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
    na = {p for p, _ in NA}
    m = {'version': 1, 'setup_cmd': 'python3 run.py setup',
         'checks': [{'property': p['id'], 'quick_cmd': 'python3 run.py %s quick' % p['id'], 'thorough_cmd': 'python3 run.py %s thorough' % p['id'],
                     'evidence_file': 'evidence/%s.json' % p['id'], 'technique': TECH[p['id']], 'level': 'exploration',
                     'level_note': NOTE.get(p['id'], NOTE['default'])} for p in PROPS if p['id'] not in na],
         'not_applicable': [{'property': p, 'reason': r} for p, r in NA],
         'notes': 'All checks observe the real sources of /repo, rebuilt from its working tree; see DESIGN.md.'}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
