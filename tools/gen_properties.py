#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The properties are data; this file only saves typing JSON by hand."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["src/"+f for f in files],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            observe_at=observe, hook_needed=hook)))

API = "return value of parse_statement / parse_statements and the list of issues"
FEW = "The unit tests are one fixed statement per construct; "

p("C01", "Parsing never panics, whatever the text",
  "For every text, dialect, argument style and option setting, parsing the text, computing the span of the returned statements, printing them and printing the issues returns normally: no panic, arithmetic overflow, out-of-range slice or abort.",
  ["inputs", "configurations"], "every UTF-8 text, under every combination of options",
  FEW + "none of them feeds malformed, truncated, non-ASCII or mutated text under all option combinations.",
  ["lexer.rs", "parser.rs", "expression.rs", "statement.rs", "issue.rs"],
  [("error recovery", "src/parser.rs recovered"), ("tokenizer", "src/lexer.rs next_token"), ("statement loop", "src/statement.rs parse_statements")],
  ["process exit and panics of the real library under debug assertions and overflow checks"])
p("C02", "Parsing terminates with work proportional to the text",
  "Parsing any text terminates, reads each character of the text at most once, and asks for at most a small constant number of tokens per character. The memory it allocates and the time it takes grow linearly with the length of the text, not faster.",
  ["inputs", "configurations"], "every text, valid or not, including inputs of 100 kB and more",
  FEW + "all are short, so a loop that does not advance or a quadratic recovery is never met.",
  ["lexer.rs", "parser.rs", "statement.rs"],
  [("single forward scan", "src/lexer.rs next_token"), ("recovery only moves forward", "src/parser.rs recover"), ("statement loop", "src/statement.rs parse_statements")],
  ["lexer step counter (hook), allocated bytes, cpu time for growing sizes"],
  hook="step counter and budget in the tokenizer, behind cfg(sqlparse_verif)")
p("C03", "No result and no placeholder node without an error",
  "When parsing a single statement returns nothing, at least one issue of level Error is reported; when no Error is reported, the result holds no invalid or unknown placeholder node and every character outside comments and white space was part of the statement. In particular, appending a stray token to a valid statement, or parsing an empty text as a statement, always reports an Error.",
  ["inputs", "configurations"], "every text under every option combination",
  FEW + "they check the issue list only for the handful of accepted texts.",
  ["lib.rs", "parser.rs", "expression.rs", "statement.rs"],
  [("error before unwinding", "src/parser.rs expected_failure, err_here"), ("end of input test", "src/lib.rs parse_statement")], [API])
p("C04", "Recorded source spans are exact",
  "In the tree of a text accepted without errors, every recorded span of an identifier, literal, placeholder, operator or keyword marker delimits in the source exactly the text of that token, or of the run of tokens the field documents. This holds whatever white space, comments, letter case or non-ASCII text surrounds them.",
  ["inputs"], "every accepted statement and every layout of it",
  FEW + "no test compares any span with the source text.",
  ["lexer.rs", "parser.rs", "span.rs", "select.rs", "create.rs", "alter.rs"],
  [("token spans", "src/lexer.rs next_token"), ("span joining", "src/span.rs join_span")], ["span fields of the returned tree against the token positions in the text"])
p("C05", "A node's span covers all of its parts and nothing outside the statement",
  "For every statement accepted without errors the span computed for the statement, and for the expressions, table references and other nodes in it, contains the spans of all its parts, starts and ends on character boundaries inside the text, and is the range from the first to the last position recorded in that node. Spans of statements in one text do not overlap and are in source order.",
  ["inputs"], "every accepted text",
  FEW + "no test computes the span of a statement.",
  ["span.rs", "expression.rs", "select.rs", "statement.rs", "data_type.rs", "create.rs", "alter.rs", "insert_replace.rs"],
  [("span computation", "src/span.rs Spanned implementations")], ["span() of the returned nodes"])
p("C06", "Statements in a script are split right and errors stay contained",
  "Parsing a script of statements each ended by the delimiter, a semicolon or $$ after DELIMITER $$, gives, in order, the same trees and issues as parsing each statement alone, with only positions and placeholder numbers shifted; empty statements are skipped. A broken statement reports Errors located within itself and does not change how any other statement of the script is parsed, unless it opens a statement list that the semicolon continues.",
  ["inputs", "histories"], "every sequence of valid and broken statements, with any delimiter layout",
  FEW + "no test mixes broken and valid statements in one script.",
  ["statement.rs", "parser.rs"],
  [("statement loop and resynchronisation", "src/statement.rs parse_statements")], [API],
  [("delimiter", "token that ends a top-level statement", "src/parser.rs Parser::delimiter"), ("permit_compound_statements", "whether BEGIN opens a block", "src/parser.rs")])
p("C07", "String literals keep their value",
  "The value of a string literal is its content with a doubled quote read as one quote, adjacent literals concatenated, and, in the MariaDB dialect only, backslash escapes decoded (\\0 \\b \\n \\r \\t \\Z, \\% and \\_ kept, any other escaped character standing for itself); in other dialects the backslash and the next character stay as written. Any other character, including multi-byte ones, newlines and comment markers, is kept unchanged.",
  ["inputs", "configurations"], "every string content, quote style and dialect",
  FEW + "only a few plain ASCII strings are used.",
  ["lexer.rs", "parser.rs", "sstring.rs"],
  [("string decoding", "src/parser.rs decode_quoted_string"), ("string scanning", "src/lexer.rs")], ["SString values in the returned tree"])
p("C08", "Numeric literals keep their value or are rejected",
  "An unsigned decimal integer literal up to 2^64-1 is reported with exactly its value, whether or not it has leading zeros, and a larger one is an Error; a literal with a fractional part is reported as the nearest double. A malformed number, such as a bad hex literal, is never silently turned into another value.",
  ["inputs"], "every digit sequence and float spelling",
  FEW + "only small integers occur.",
  ["lexer.rs", "parser.rs", "expression.rs", "data_type.rs"],
  [("number scanning", "src/lexer.rs"), ("integer conversion", "src/parser.rs consume_int")], ["Integer and Float nodes, widths and table options in the returned tree"])
p("C09", "Identifiers keep their spelling; reserved words need quotes",
  "An unquoted word that is not a keyword, and any word in the quotes of the dialect (backticks in MariaDB and Sqlite, double quotes in most places in PostgreSQL), is accepted wherever a name is expected and is reported with exactly its spelling (case included, quotes removed) and its qualification. An unquoted reserved word is rejected with an Error where a name is expected, while quoting it makes it an ordinary name.",
  ["inputs", "configurations"], "every word, position and quoting style allowed in the dialect",
  FEW + "few words are tried and never in all positions.",
  ["keywords.rs", "parser.rs", "identifier.rs", "qualified_name.rs", "lexer.rs"],
  [("reserved word table", "src/keywords.rs"), ("name parsing", "src/parser.rs consume_plain_identifier")], ["Identifier nodes of the returned tree"])
p("C10", "Keywords are case insensitive",
  "Changing the letter case of any keyword, function name, type name or time unit of a text, in any pattern, leaves the tree, all spans and the list of errors unchanged.",
  ["inputs"], "every text and every casing of its keywords",
  FEW + "keywords are written in capitals.",
  ["keywords.rs", "lexer.rs"], [("keyword lookup", "src/keywords.rs From<&str>")], [API])
p("C11", "Layout and comments do not change the meaning",
  "Inserting or removing white space (spaces, tabs, newlines, carriage returns), line comments or block comments between the tokens of a text leaves the tree unchanged except for positions, and does not change whether the text is accepted. Comment markers inside string literals and quoted names are content.",
  ["inputs"], "every text and every layout of it",
  FEW + "the layout is fixed.",
  ["lexer.rs"], [("white space and comment skipping", "src/lexer.rs next_token")], [API])
p("C12", "Placeholders are numbered in source order",
  "With question-mark or percent arguments (and list markers when enabled) the placeholders of a text are numbered 0, 1, 2, ... in source order, across all clauses, sub-queries and statements of one call; with dollar arguments the marker $n is reported as n-1. A placeholder of a style that is not enabled is an Error. In a text with errors the numbers still grow in source order, and none is larger than the number of placeholders before it.",
  ["inputs", "configurations"], "every accepted text with placeholders in any position",
  FEW + "they never look at the numbers of several placeholders.",
  ["expression.rs", "lexer.rs", "parser.rs"], [("argument counter", "src/expression.rs parse_expression")], ["Arg and ListHack nodes of the returned tree"],
  [("arg", "next placeholder number", "src/parser.rs Parser::arg")])
p("C13", "Operators follow precedence and associativity",
  "An expression is grouped by the documented operator precedence: unary minus, then * and /, + and -, shifts, bitwise and, bitwise or, comparisons with LIKE, IN and IS, then NOT, AND, XOR, OR, all binary operators grouping to the left. Parentheses override this, and every operator and operand appears in the tree exactly once and in source order.",
  ["inputs"], "every combination and nesting of operators, operands and parentheses",
  FEW + "no test looks at the grouping of mixed operators.",
  ["expression.rs"], [("shift-reduce parser", "src/expression.rs Reducer, Priority")], ["Expression nodes of the returned tree"])
p("C14", "SELECT: every clause is reported as written",
  "For every supported SELECT the tree holds exactly the flags, selected expressions with their aliases, tables, WHERE, GROUP BY, HAVING, ORDER BY with directions, LIMIT with offset and count, and row locking clause of the text, each in its own place, in order, and absent when not written. This holds for SELECTs nested in expressions, tables and other statements.",
  ["inputs", "configurations"], "every supported combination of clauses and nesting, in all dialects",
  FEW + "each clause is tried alone.",
  ["select.rs", "statement.rs"], [("select parser", "src/select.rs parse_select")], ["Select nodes of the returned tree"])
p("C15", "Joins, aliases and index hints are reported as written",
  "A table expression is reported with every join of the text with its own kind, its condition or column list, operands grouped from the left, and every table name with its qualification, alias and index hints. A comma starts a separate table.",
  ["inputs", "configurations"], "every supported combination of join kinds, conditions, parentheses, sub-queries, aliases and hints",
  FEW + "one join kind at a time.",
  ["select.rs", "qualified_name.rs"], [("table reference parser", "src/select.rs parse_table_reference")], ["TableReference nodes of the returned tree"])
p("C16", "INSERT, REPLACE, UPDATE and DELETE are reported as written",
  "For every supported data-changing statement the tree holds exactly its verb, flags, target tables, columns, value rows or SET assignments or source query, WHERE, conflict handling and RETURNING parts, each in its own place and order. A part that is not in the text is absent from the tree.",
  ["inputs", "configurations"], "every supported combination of parts, in all dialects",
  FEW + "a few fixed statements.",
  ["insert_replace.rs", "update.rs", "delete.rs"], [("parsers", "src/insert_replace.rs, src/update.rs, src/delete.rs")], ["InsertReplace, Update and Delete nodes"])
p("C17", "CREATE TABLE and its columns are reported as written",
  "For every supported table definition the tree holds exactly the table name, create options, each column with its name, type and properties in order, each constraint definition kept and each table option with its value. A property or option is never dropped, merged into a neighbour or reported as a different one.",
  ["inputs", "configurations"], "every supported combination and order of columns, properties and table options",
  FEW + "a few fixed tables.",
  ["create.rs", "data_type.rs"], [("parsers", "src/create.rs parse_create_table, src/data_type.rs parse_data_type")], ["CreateTable nodes"])
p("C18", "ALTER TABLE is reported as written",
  "For every supported ALTER TABLE the tree holds the table and exactly the alterations of the text in order: added, modified, altered and dropped columns, added indexes with their own kind, columns, sizes and options, added foreign keys with columns, referenced table and actions, and owner changes. The qualifiers IF EXISTS, IF NOT EXISTS, ONLINE, IGNORE and CASCADE are reported exactly when written.",
  ["inputs", "configurations"], "every supported combination and sequence of alterations",
  FEW + "a few fixed alterations.",
  ["alter.rs", "data_type.rs"], [("parser", "src/alter.rs parse_alter_table")], ["AlterTable nodes"])
p("C19", "DROP, TRUNCATE and RENAME are reported as written",
  "For every supported DROP, TRUNCATE TABLE and RENAME TABLE statement the tree names the kind of object and every object of the text in order with its qualification, and reports IF EXISTS, TEMPORARY, CASCADE and the ON table exactly when written.",
  ["inputs", "configurations"], "every supported form, object list and dialect",
  FEW + "one object per statement.",
  ["drop.rs", "rename.rs", "truncate.rs"], [("parsers", "src/drop.rs parse_drop, src/rename.rs, src/truncate.rs")], ["Drop*, TruncateTable and RenameTable nodes"])
p("C20", "Data types are reported with their parameters",
  "Every supported type name is reported as its own type with the width, precision, element list or time-zone marker written, in column definitions, casts, function parameters and alterations alike. A type name or parameter of one type is never reported as another.",
  ["inputs", "configurations"], "every supported type, parameter value, position and dialect",
  FEW + "a handful of types in one position.",
  ["data_type.rs"], [("parser", "src/data_type.rs parse_data_type")], ["DataType nodes"])
p("C21", "Function calls and special forms are reported as written",
  "A call of a known function is reported as that function, a call of any other name under that name, with exactly its arguments in order; aliases of one function are reported alike. The special forms CASE, CAST, COUNT, GROUP_CONCAT, EXTRACT, INTERVAL, TIMESTAMPADD, TIMESTAMPDIFF, EXISTS, sub-queries, window functions and system variables are reported with their own parts.",
  ["inputs", "configurations"], "every known function name, argument list and special form in any nesting",
  FEW + "only a few of some 180 function names occur.",
  ["expression.rs"], [("function table", "src/expression.rs parse_function"), ("special forms", "src/expression.rs parse_expression")], ["Function and special-form nodes"])
p("C22", "Compound statements nest and end where they should",
  "In trigger and function bodies, DO blocks, IF, CASE and BEGIN ... END statements, every inner statement is reported in its own branch and order, at every nesting, and each block ends at its own END. Outside of them BEGIN, END, START TRANSACTION and COMMIT are transaction statements, also directly after a compound statement, valid or broken, and after a change of delimiter.",
  ["inputs", "histories"], "every nesting and sequence of compound and plain statements and delimiter changes",
  FEW + "one flat trigger and one block.",
  ["statement.rs", "create.rs"], [("block parsing", "src/statement.rs parse_block, parse_if, parse_case_statement, parse_statement_list")], ["If, Case, Block, Do, CreateTrigger, CreateFunction nodes"],
  [("permit_compound_statements", "whether BEGIN opens a block", "src/parser.rs"), ("delimiter", "token that ends a top-level statement", "src/parser.rs")])
p("C23", "COPY ... FROM STDIN data is passed through untouched",
  "The data lines after a COPY ... FROM STDIN statement are reported byte for byte, up to and excluding the line holding only a backslash and a full stop or up to the end of the text, whatever they contain. Statements after the data are parsed as usual.",
  ["inputs"], "every payload, including quotes, semicolons, comment markers, non-ASCII text and near-terminators",
  FEW + "two small payloads.",
  ["lexer.rs", "parser.rs", "statement.rs"], [("raw reader", "src/lexer.rs read_from_stdin"), ("switch", "src/parser.rs read_from_stdin_and_next")], ["Stdin statements in the result"])
p("C24", "Syntax of another dialect is reported",
  "Syntax that exists in only one of the supported dialects, such as index hints and ON DUPLICATE KEY in MariaDB or ON CONFLICT, WITH, named enum types, UPDATE ... RETURNING and DROP TABLE ... CASCADE in PostgreSQL, is accepted without error in its own dialect and is an Error in the dialects without it.",
  ["inputs", "configurations"], "every statement using dialect specific syntax, embedded anywhere, in all dialects",
  FEW + "almost no test checks that something is rejected.",
  ["parser.rs", "insert_replace.rs", "select.rs", "create.rs", "drop.rs", "update.rs", "with_query.rs"], [("dialect tests", "src/parser.rs postgres_only, maria_only")], [API])
p("C25", "Warning options only add warnings",
  "Turning on the warnings for unquoted identifiers or lower-case keywords never changes the tree or the errors. With the identifier warning on, every name written without quotes gets a warning with exactly its span and quoted names get none; with the keyword warning on, keywords written in capitals get none, and whether another spelling of a keyword gets one does not depend on which of its letters are small.",
  ["inputs", "configurations"], "every text with warnings on and off",
  FEW + "warnings are hardly checked.",
  ["parser.rs", "lib.rs", "keywords.rs"], [("warnings", "src/parser.rs token_to_plain_identifier, consume_keyword")], [API])
p("C26", "Parsing is a pure function of text and options",
  "Parsing the same text with the same options gives the same tree and issues every time: repeated, after any other parse, be it of a text much like it or of another text in the same buffer, into an issue list already in use, from several threads at once, or from a copy of the text elsewhere in memory.",
  ["inputs", "schedules", "histories"], "every text, history of earlier parses and thread schedule",
  FEW + "each text is parsed once on one thread.",
  ["lib.rs", "parser.rs"], [("no shared state", "src/lib.rs parse_statement, parse_statements")], [API])
p("C27", "Issues point at the text they talk about",
  "Every issue and each of its fragments carries a span that lies inside the text on character boundaries and exactly the piece of text at that span; an issue that parsing reports is about whole tokens, and an empty span stands for the end of the text; parsing only appends to the issue list. The printed list shows every issue in order with its level, message, text and the number of the line on which it starts.",
  ["inputs", "configurations"], "every text that produces issues, including multi-line and non-ASCII ones",
  FEW + "issues are only counted.",
  ["issue.rs", "parser.rs"], [("issue construction and display", "src/issue.rs")], ["issue list and its printed form"])
p("C28", "No name, literal or placeholder is silently dropped",
  "When a text is accepted without errors, every quoted or plain name, every literal, every placeholder and every keyword of it, apart from connecting words such as AS, COLUMN or CHARACTER SET, lies within the span of a leaf of the tree, and two leaves never claim the same literal or placeholder. The parts the library documents as not represented (PostgreSQL function bodies, operator classes, column lists of inline foreign keys, exception handlers) are exempt.",
  ["inputs"], "every accepted text, including ones made by mutation",
  FEW + "they do not compare the tree with the text.",
  ["parser.rs", "expression.rs", "create.rs", "alter.rs", "select.rs", "insert_replace.rs"], [("one consume per token", "src/parser.rs consume")], ["leaf spans of the returned tree against an independent tokenizer"])
p("C29", "Unbalanced or unterminated text is never accepted",
  "A text with an unclosed or stray bracket, an unterminated string literal, quoted name or block comment, or a character, @@ word or $ number that is no token, is never parsed without an Error, wherever in a statement this happens. The raw data of COPY and bodies of PostgreSQL functions are exempt.",
  ["inputs"], "every text, in particular every truncation and single-token deletion of a valid one",
  FEW + "no test checks rejection of damaged text.",
  ["lexer.rs", "parser.rs", "expression.rs"], [("invalid token", "src/lexer.rs Token::Invalid"), ("required tokens", "src/parser.rs consume_token")], [API])
p("C30", "UNION and WITH are reported as written",
  "A union is reported with all of its parts in order, each with its own ALL or DISTINCT marker, and with ORDER BY and LIMIT attached to the union when they follow it and to a part when inside its parentheses. A WITH query is reported with each named query under its own name, in order, and the main statement.",
  ["inputs", "configurations"], "every supported number and nesting of parts",
  FEW + "two-part unions only.",
  ["statement.rs", "with_query.rs"], [("parsers", "src/statement.rs parse_compound_query, src/with_query.rs")], ["Union and WithQuery nodes"])
p("C31", "CREATE VIEW, INDEX, TRIGGER, FUNCTION and TYPE are reported as written",
  "For every supported CREATE statement for these objects the tree holds exactly the create options, IF NOT EXISTS, name, target table, columns, parameters with direction and type, return type, characteristics, time and event, labels, index options, and body or query of the text, each in its own place and order.",
  ["inputs", "configurations"], "every supported combination of options and parts, in all dialects",
  FEW + "one or two fixed statements per kind.",
  ["create.rs"], [("parsers", "src/create.rs parse_create")], ["CreateView, CreateIndex, CreateTrigger, CreateFunction and CreateTypeEnum nodes"])
p("C32", "SET, SIGNAL, RETURN and list markers are reported as written",
  "SET, SIGNAL and RETURN statements are reported with every assignment or item and its own expression in order. The word _LIST_ is a list placeholder exactly when that option is on, and an ordinary name otherwise.",
  ["inputs", "configurations"], "every supported form and option setting",
  FEW + "one fixed statement each.",
  ["statement.rs", "expression.rs"], [("parsers", "src/statement.rs parse_set, parse_signal, parse_return")], ["Set, Signal, Return and ListHack nodes"])

p("C33", "Statements that are not well formed are rejected",
  "A text gets an Error when it has clauses in the wrong order or twice, a clause or list without its contents, a doubled, leading or trailing comma, dot or operator, two operands with nothing between them, a number or string where a name must stand or the reverse, a reserved word used as a name or function, an operator without an operand, a malformed INTERVAL, EXTRACT, CAST, CASE, IN, IS or window part, a statement where only a query may stand, lacks a word its statement cannot be without, or is followed by a symbol or another statement with no delimiter between. Left open on purpose: repeated SELECT options, a WINDOW word (its contents are not supported), and the last semicolon in a body.",
  ["inputs", "configurations"], "every text that differs from a valid one in one of these ways, wherever in a statement it does, in all dialects that have the statement",
  FEW + "almost no test checks that something is rejected.",
  ["parser.rs", "expression.rs", "select.rs", "statement.rs", "insert_replace.rs", "update.rs", "delete.rs", "create.rs", "alter.rs", "drop.rs", "with_query.rs", "rename.rs", "truncate.rs", "data_type.rs"],
  [("required tokens", "src/parser.rs consume_token, consume_keyword, consume_plain_identifier, recovered"), ("operator stack", "src/expression.rs Reducer")], [API])
p("C34", "A part of a statement means the same on its own",
  "In an accepted text every expression, query, nested statement, data type, qualified name and table reference, cut out at its span together with the parentheses around its parts, is accepted on its own in the shortest statement that may hold such a part, and gives the same subtree, apart from the shift of positions and the numbering of placeholders.",
  ["inputs", "configurations"], "every part of every accepted text, including texts made by mutation",
  FEW + "nothing is parsed in two contexts.",
  ["parser.rs", "expression.rs", "select.rs", "statement.rs", "data_type.rs", "qualified_name.rs"],
  [("one parser per kind of part", "src/expression.rs parse_expression, src/data_type.rs parse_data_type, src/select.rs parse_table_reference, src/statement.rs parse_compound_query")], [API, "Spanned::span of every node"])
p("C35", "A composite span is the smallest one around its parts",
  "join_span and opt_join_span give the smallest span around both sides, in either order, and one side when the other has none. The span of an Option, Vec, slice, Box, tuple, identifier or string is the smallest one around the spans inside, wherever they lie relative to each other, and nothing when there is none; numbers, flags and texts in a tuple do not count.",
  ["inputs"], "every combination of present, missing, empty, nested and unordered spans",
  "No test computes a composite span.",
  ["span.rs", "identifier.rs", "sstring.rs"], [("joins", "src/span.rs Spanned, OptSpanned")], ["Spanned and OptSpanned implementations"])
p("C36", "Identifiers and strings act as their text",
  "An Identifier equals, orders, prints (with any width, fill and precision), dereferences and is looked up in ordered maps and sets exactly like its text, whatever its span; the text it gives out lives as long as the source. An SString gives out its decoded text in every way and keeps its span.",
  ["inputs"], "every text and pair of texts, whatever their spans",
  "No test compares, orders or prints names.",
  ["identifier.rs", "sstring.rs"], [("delegation to the text", "src/identifier.rs, src/sstring.rs trait implementations")], ["trait implementations of Identifier and SString"])
p("C37", "Parse options take effect as set, in any order",
  "ParseOptions start out as MariaDB without placeholders, warnings and list hack. Each setter changes its own option and no other, the last setting of an option counts, the order of different settings does not matter, a copy is the same, and get_dialect with is_maria, is_postgresql and is_sqlite tells exactly the dialect that was set. What was set is what parsing follows.",
  ["histories", "configurations"], "every sequence of settings",
  "The tests make their options in a few fixed ways.",
  ["lib.rs"], [("builder", "src/lib.rs ParseOptions")], ["ParseOptions and results of parsing with them"])

p("C38", "The first error is where the text stops being valid",
  "When a valid text, or a script of them, is cut, changed or damaged from some token on, no Error that is reported first lies wholly before that token, so text that was right so far is not objected to; and when the token fits nowhere in any statement, or is a comma, a dot, a closing parenthesis, a semicolon or a delimiter where none can stand, the first Error starts exactly at it. Three decisions wait for the token after: a reserved word used as a function, TEMPORARY, and DROP INDEX without ON in MariaDB may be reported at their own start. Bodies of PostgreSQL functions are exempt.",
  ["inputs", "configurations"], "every beginning of a valid text, followed by anything",
  FEW + "the place of an error is never checked.",
  ["parser.rs", "statement.rs", "expression.rs", "lexer.rs", "issue.rs"], [("error place", "src/parser.rs expected_error, err_here, consume"), ("error recovery", "src/parser.rs recovered")], ["spans of the issues"])
p("C39", "What an error says is expected is accepted there",
  "When an Error names what is expected at its place, be it a symbol, a keyword, one of several alternatives, or a kind of thing such as an identifier, an integer, a string, an expression, a type or a statement, then putting that in at the place gives a text in which it is not itself called unexpected. When the Error says that nothing may follow the statement, the text before it is a valid statement. A delimiter at the end of a single statement, the optional last semicolon of a body and locks of another dialect are exempt.",
  ["inputs", "configurations"], "every first error of every text",
  FEW + "messages are never read.",
  ["parser.rs", "statement.rs", "lexer.rs", "keywords.rs", "expression.rs"], [("messages", "src/parser.rs expected_failure, src/lexer.rs Token::name, src/keywords.rs Keyword::name")], ["messages and spans of the issues"])

p("C40", "An error inside brackets stays there and hides nothing outside",
  "When what stands between the parentheses of a function call, IN list, CAST, COUNT, EXTRACT, GROUP_CONCAT, TIMESTAMPADD or TIMESTAMPDIFF, data type, column property, column definition list, list of index, foreign key, INSERT or COPY columns, VALUES row, index hint, list of enum values, parameter list, WITH part or parenthesised SELECT, or between CASE, BEGIN or IF and its END, or between CREATE and what is created or CREATE TABLE and its parenthesis, or in the table options or a change of ALTER TABLE, is not valid, and what follows the first bad token has balanced brackets and no delimiter, then the statement is still returned, every Error about it lies in that part or at what ends it, errors elsewhere in the statement are reported as well, and everything outside of that part, in the statement and in later ones, is reported with the structure, values and spans it has when the contents are valid. In a list with commas (arguments, IN, column definitions, index hints, COPY columns, enum values) that goes for the other items too.",
  ["inputs", "configurations"], "every malformed content at every such place",
  FEW + "hardly any test has an error at all.",
  ["parser.rs", "expression.rs", "data_type.rs", "create.rs", "alter.rs", "insert_replace.rs", "select.rs", "statement.rs", "with_query.rs"], [("recovery", "src/parser.rs recover and recovered")], ["returned trees", "spans of the issues"])

p("C41", "An option changes only what it is about",
  "A style of placeholders (?, %s or $1) whose character does not occur in the text changes nothing: trees and issues are those without placeholders. The list hack changes nothing in a text without _LIST_. A text that is accepted without an Error in several dialects has the same trees and the same warnings in each of them, unless it has a backslash or double quotes (escapes and the meaning of double quotes differ) or the type REAL.",
  ["inputs", "configurations"], "every text under every combination of options",
  FEW + "each test parses under one set of options.",
  ["lib.rs", "parser.rs", "expression.rs", "lexer.rs", "data_type.rs", "statement.rs"], [("options", "src/lib.rs ParseOptions"), ("dialects", "src/lib.rs SQLDialect")], ["returned trees", "issues"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
