"""properties of the analyzer"""
A = 'src/mizugaki/analyzer/'
Q = A + 'details/analyze_query_expression.cpp'
X = A + 'details/analyze_scalar_expression.cpp'
N = A + 'details/analyze_name.cpp'
L = A + 'details/analyze_literal.cpp'
Y = A + 'details/analyze_type.cpp'
ST = A + 'details/analyze_statement.cpp'
CTX = A + 'details/analyzer_context.cpp'
SA = A + 'sql_analyzer.cpp'
SHIM = ('sampled executions of the real analyzer under ASan+UBSan, compiled against stand-ins for takatori and yugawara (not installed here), which the unit tests of the repository validate')
TESTED = 'The existing analyzer tests cannot be built in the reference set-up and fix one small tree each; '


def extend(prop, TECH, NA, NOTE):
    def p(id, tech, *args):
        prop(id, *args)
        TECH[id] = tech
        NOTE[id] = SHIM

    p('P19', 'ASan/UBSan/LSan-instrumented analyzer under generated and mutated statements over random catalogs; result-shape oracle; each tree analyzed twice and compared, and read again after its inputs are gone',
      'Analyzing any statement is total, memory-safe and repeatable',
      'For every statement which can be parsed, every catalog and every option setting, the analyzer terminates without a crash, a leak, an uncaught exception or undefined behaviour and gives exactly one of an execution plan, a statement or at least one diagnostic. '
      'Every diagnostic has a code which tells of the text, never of an internal problem, a message, and a place inside the text. '
      'The syntax tree is not changed, analyzing it again gives the same result, and a result stays valid when the tree and the text are gone.',
      ['inputs', 'configurations'], 'every statement, catalog, placeholder and host parameter table and option setting',
      TESTED + 'they never feed statements which were not written for the analyzer.', [SA, Q, X, N, L, Y, ST, CTX],
      [('analyzer entry point', SA + ' sql_analyzer::operator()'), ('diagnostics', CTX)])
    p('P20', 'monitor on the diagnostics an analysis reports, read through a hooked context, against the kind of its result',
      'The analyzer never gives a result after it reported a problem',
      'If the analyzer finds any problem in a statement - an unknown name, a value out of range, an unsupported clause, an inconsistent type - it refuses the statement: no plan and no statement is given for which a problem was reported on the way.',
      ['inputs', 'configurations'], 'every statement, catalog and option setting',
      TESTED + 'they look at the result or at the diagnostics, never at both.', [SA, Q, X, L, Y, ST, CTX],
      [('reporting', CTX + ' analyzer_context::report'), ('result selection', SA)])
    p('P21', 'online checker of the structure of every observed plan (ports, variable definition before use, correlation, write keys, extents)',
      'Every execution plan is well formed',
      'In every plan the analyzer gives, every port is connected exactly once, the operators form one tree which ends in one emit or write, every variable is defined exactly once and only read where its definition reaches, '
      'every subquery gets exactly the outer variables it reads as parameters, writes name key and column variables of their table, and every extent lies inside the text.',
      ['inputs', 'configurations'], 'all plans of all accepted queries and data manipulation statements',
      TESTED + 'they look at a few operators of small plans.', [Q, X, ST, A + 'details/query_scope.cpp', A + 'details/set_function_processor.cpp'],
      [('operators', Q), ('scopes and parameters', A + 'details/query_scope.cpp'), ('aggregation', A + 'details/set_function_processor.cpp')])
    p('P22', 'every observed plan is executed by an independent interpreter on random tables, and its rows, their order and column names are compared with the meaning of the generated query',
      'A query plan computes what the query means in SQL',
      'For every query of the supported language - selections, joins, APPLY, WHERE, GROUP BY, HAVING, set functions, DISTINCT, ORDER BY, LIMIT, VALUES, set operations, WITH, nested, scalar, EXISTS, IN and quantified queries, correlated or not, and every supported expression and predicate with three-valued logic - the analyzer accepts it, '
      'and its plan computes, on every database, exactly the rows, duplicates, order and column names which SQL defines.',
      ['programs', 'inputs', 'configurations'], 'all queries of the supported language, all table contents including empty tables and nulls, all option settings',
      TESTED + 'they look at operators one by one and never at what a plan computes.', [Q, X, N, A + 'details/set_function_processor.cpp', A + 'details/query_scope.cpp', A + 'details/relation_info.cpp'],
      [('queries', Q), ('expressions', X), ('names', N), ('grouping', A + 'details/set_function_processor.cpp')])
    p('P23', 'generated queries with exactly one planted fault run through the instrumented analyzer; oracle on the reason and the place of the refusal',
      'A query which breaks a rule is refused, for that reason and at that place',
      'A query which is correct except for one fault - an unknown or ambiguous name, a wrong number of columns, an ungrouped column, a misplaced set function, an unknown function, an operand of the wrong kind, an unsupported clause - is never accepted, however deeply the fault is nested; '
      'the first diagnostic names the kind of the fault and its location is exactly the faulty part of the text.',
      ['programs', 'inputs', 'configurations'], 'every otherwise valid query of the supported language and every position of one fault in it',
      TESTED + 'faults are tested at the top level of tiny queries, mostly without looking at the location.', [Q, X, N, A + 'details/set_function_processor.cpp', CTX],
      [('refusals', Q), ('names', N), ('expressions', X)])
    p('P24', 'generated literals, NULL, DEFAULT and data types in every place run through the instrumented analyzer, compared with an independent model of their values, types, conversions and refusals under random options',
      'Literals and data types denote exactly what their text says',
      'Every literal stands in the plan or statement as exactly the value its text denotes, with the type the options ask for (smallest types if preferred), at its place in the text, converted to the type its context asks for exactly if that is enabled; '
      'every data type in CAST and column definitions is the one written, with lengths, precisions and scales, and aliases and defaults as configured; literals and types which are malformed, out of range or inconsistent are refused for that reason, at that place.',
      ['inputs', 'configurations'], 'all literals, data types and settings of the options which concern them, in all places where they may stand',
      TESTED + 'a few dozen values are tested, never in combination with options and places.', [L, Y, X, A + 'details/value_context.cpp'],
      [('literals', L), ('types', Y), ('contexts', X)])
    p('P25', 'generated DDL and privilege statements, valid or with exactly one fault, run through the instrumented analyzer, compared with an independent model of the definition or the refusal',
      'Data definition statements define exactly what they say, or are refused',
      'CREATE TABLE, CREATE INDEX, ALTER, DROP, TRUNCATE, GRANT and REVOKE yield exactly the described change: columns in order with their names, types, nullability, default values, identity sequences and descriptions, the primary key with its order, the named targets with the schema they are found in, the privileges for each table and user; '
      'IF EXISTS and IF NOT EXISTS make nothing of what does not apply; conflicts, unknown names, contradicting constraints, bad sequence values and every clause which is not supported are refused for that reason, at that place, and never ignored.',
      ['inputs', 'configurations'], 'all statements of these kinds over any catalog, names of any spelling, description comments of any layout, option settings',
      TESTED + 'each clause is tested once and alone.', [ST, A + 'details/analyze_description.cpp', N, Y],
      [('definitions', ST), ('descriptions', A + 'details/analyze_description.cpp'), ('names', N)])
    p('P26', 'generated INSERT, UPDATE and DELETE statements run through the instrumented analyzer; their plans and statements are executed by an independent interpreter on random tables and the writes compared with the meaning of the statement; faulty ones must be refused',
      'Data manipulation statements write exactly the rows SQL says',
      'INSERT (with OR REPLACE, OR IGNORE, DEFAULT VALUES, VALUES and queries), UPDATE and DELETE write, on every database, exactly the rows which SQL defines to exactly the columns named, of the right table, with the right kind of write, and look rows up by their whole primary key; '
      'statements with unknown, repeated or hidden columns, a wrong number of values or an unknown table are refused for that reason, at that place.',
      ['programs', 'inputs', 'configurations'], 'all statements of these kinds over all tables and contents, option settings',
      TESTED + 'they look at single operators of small plans and never at what is written.', [ST, Q, X],
      [('statements', ST), ('sources', Q), ('values', X)])
    p('P27', 'generated references to tables, indices, columns, variables, functions and parameters over catalogs in which the same names are declared in many places, run through the instrumented analyzer; the declarations in the result are compared with an independent model of name resolution',
      'A name denotes the declaration the search path, the spelling and the argument types select, or nothing',
      'Every reference - to a table, index, column, schema variable, scalar, table or set function, EXTRACT field, host parameter or placeholder, with any number of qualifiers - denotes exactly one declaration: names in the query come before the catalog, schemas are searched in the order of the search path, a qualified name is found only where it says, '
      'regular identifiers are folded exactly for the kinds of names the options say and delimited ones never, placeholders come before host parameters; '
      'of all functions of that name and number of parameters in that place which take the arguments, it is the one more specific than every other, in whatever order they are declared. '
      'A name which denotes nothing, or a call with no such function, is refused for that reason and at that name.',
      ['inputs', 'configurations'], 'all catalogs, search paths, spellings, numbers of qualifiers, overloads, argument types and folding options',
      TESTED + 'each rule is tested alone, with one schema and two overloads in one order.', [N, X, ST, 'src/mizugaki/placeholder_map.cpp', A + 'details/query_scope.cpp', A + 'details/relation_info.cpp'],
      [('names', N), ('overloads', X + ' resolve_overload'), ('parameters', 'src/mizugaki/placeholder_map.cpp')])
    p('P28', 'batches of statements analyzed by one long-lived analyzer per thread, in changing order, mixed with options, moves and results read by other threads, under ThreadSanitizer and with hostile reuse of the addresses of expressions; every result compared with the one of a fresh analyzer',
      'The analysis of a statement depends on nothing but the statement, its catalog and the options',
      'One analyzer may analyze any number of statements, and any number of analyzers may run at the same time: every result is the one a new analyzer gives for that statement alone, whatever was analyzed before, in whatever order, with success or not, whatever else runs, wherever memory is allocated, '
      'and also after the analyzer was moved; results stay what they are when the analyzer goes on or is gone, and can be read by any thread.',
      ['schedules', 'histories', 'inputs'], 'all sequences of statements, numbers of threads and schedules',
      TESTED + 'they analyze one statement with one analyzer in one thread.', [SA, Q, X, CTX, ST],
      [('analyzer entry point', SA + ' sql_analyzer'), ('per statement state', CTX + ' analyzer_context, clear_expression_resolution'), ('common tables', Q + ' process_with_common_table_element')])
    p('P29', 'random operation sequences on options, parameter tables and results compared with plain models; every entry point of the analyzer, with and without text and parameters, run on the same statement and compared',
      'The host interface of the analyzer keeps what it is given, and all its entry points agree',
      'Every option has its documented default, and setting or copying options changes exactly what was set; a placeholder table is a map from exact names to the last value and type added, until it is cleared; a result holds exactly one kind of element and gives no other; '
      'all entry points of the analyzer give the same result for a statement, without its source text the same except for extents and descriptions, and without parameter tables none is found.',
      ['histories', 'inputs', 'configurations'], 'all sequences of operations on these objects, all statements, catalogs and options',
      TESTED + 'most of these accessors are used by no test, and only one entry point is.', ['include/mizugaki/analyzer/sql_analyzer_options.h', 'include/mizugaki/analyzer/sql_analyzer_result.h', 'src/mizugaki/placeholder_map.cpp', 'src/mizugaki/placeholder_entry.cpp', SA],
      [('options', 'include/mizugaki/analyzer/sql_analyzer_options.h'), ('parameters', 'src/mizugaki/placeholder_map.cpp'), ('results', 'include/mizugaki/analyzer/sql_analyzer_result.h'), ('entry points', SA + ' sql_analyzer::operator()')])
