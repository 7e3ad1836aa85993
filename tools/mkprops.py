import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
                   observe_at=observe or ["str(query)"],hook_needed=None)))
p("C01","String values render as one self-contained, faithful SQL literal",
 "For every backend and every Python string used as a value (in conditions, SET and VALUES, list elements, relation operands, outfile options, separators), the rendered SQL carries it as exactly one single-quoted literal that closes only at the quote the renderer put there, whether or not the SQL lexer treats backslash as an escape, and whose backslash-escape decoding is exactly the original string. The only exception is a string that, ignoring surrounding whitespace, is itself a complete reference starting with a backend-quoted identifier (one quoted identifier followed by at most two dotted parts); it renders as a reference (C02). Two different strings that are not references never render to the same literal.",
 ["inputs","configurations"],"all Python strings of any length and content, all four backends, every position that takes a value",
 "The suite tries about six strings; a wrong escape only shows on strings combining quotes, backslashes and newlines or of unusual length or prefix.",
 ["sqlpuzzle/_common/sqlvalue.py","sqlpuzzle/_backends/sql.py","sqlpuzzle/_queryparts/values.py","sqlpuzzle/_queryparts/conditions.py","sqlpuzzle/_queryparts/intooutfile.py","sqlpuzzle/_queryparts/functions.py","sqlpuzzle/relations.py"],
 [("_escape_value doubles backslash and quote and encodes newline","sqlpuzzle/_common/sqlvalue.py:_escape_value"),("SqlValue type dispatch and quoting","sqlpuzzle/_common/sqlvalue.py:SqlValue._string"),("reference detection","sqlpuzzle/_backends/sql.py:SqlBackend.is_reference")])
p("C02","Identifiers never escape their quotes and keep their names",
 "For every backend and every string used as a table, column or alias name, the rendered text is a dot-separated sequence of parts, each either a bare * or a backend-quoted identifier in which every embedded quote character is doubled, so no name can inject SQL. For names without quote characters the parts are exactly the non-empty dot-separated components of the name, in order and unaltered; a part already written as a quoted identifier keeps its text, dots included.",
 ["inputs","configurations"],"all strings used as identifiers, all four backends, every position that takes a name",
 "Tests use a dozen well-behaved names and never an unbalanced or embedded quote.",
 ["sqlpuzzle/_backends/sql.py","sqlpuzzle/_backends/mysql.py","sqlpuzzle/_common/sqlvalue.py","sqlpuzzle/_queryparts/columns.py","sqlpuzzle/_queryparts/tables.py","sqlpuzzle/_queryparts/order.py"],
 [("reference splitting and quoting","sqlpuzzle/_backends/sql.py:SqlBackend.reference"),("SqlReference dispatch","sqlpuzzle/_common/sqlvalue.py:SqlReference"),("every name goes through SqlReference","sqlpuzzle/_queryparts/*.py")])
p("C03","Every supported Python value renders as the SQL literal of its own type",
 "For every backend: None renders NULL; booleans render as the backend's boolean (true/false on PostgreSQL, 1/0 elsewhere) and never as another type; integers as their decimal digits; floats and decimals with exactly five decimals; bytes as the backend's hex literal of exactly those bytes; dates and datetimes as their quoted ISO text. A non-empty list, tuple, set, range or generator renders as its elements' literals in iteration order, comma separated in one pair of parentheses, an empty one raises InvalidArgumentException; selects and unions render in parentheses and other SQL objects render as their own SQL.",
 ["inputs","configurations"],"all values of every supported type, nested lists included, all four backends",
 "Tests take one or two values per type, mostly on the default backend; dispatch depends on type order, subclassing and backend.",
 ["sqlpuzzle/_common/sqlvalue.py","sqlpuzzle/_backends/sql.py","sqlpuzzle/_backends/postgresql.py","sqlpuzzle/_common/utils.py","sqlpuzzle/_common/customsql.py"],
 [("type map","sqlpuzzle/_common/sqlvalue.py:SqlValue._get_convert_method"),("backend literals","sqlpuzzle/_backends/*.py:boolean,bytes")])
p("C04","DELETE and UPDATE without WHERE never render unless explicitly allowed",
 "Rendering a DELETE or UPDATE that has received no condition raises the matching Confirm exception unless the most recent allow/forbid call on that query was the allow one; no other builder call, argument shape (empty where calls included) or earlier rendering changes that permission. When the query has received conditions, the rendered statement always ends with a WHERE clause holding them.",
 ["histories","inputs"],"every sequence of builder calls on Delete and Update objects, and every argument to them",
 "No test asserts that the exception is raised; the guarantee is over all call histories.",
 ["sqlpuzzle/_queries/delete.py","sqlpuzzle/_queries/update.py","sqlpuzzle/_queries/query.py","sqlpuzzle/_queryparts/queryparts.py","sqlpuzzle/_queryparts/conditions.py"],
 [("guard in __str__","sqlpuzzle/_queries/delete.py:Delete.__str__, sqlpuzzle/_queries/update.py:Update.__str__"),("emptiness of the condition list","sqlpuzzle/_queryparts/queryparts.py:QueryParts.is_set")],
 [("allow flag","permission to render without WHERE","Delete._allow_delete_all, Update._allow_update_all")])
p("C05","Each clause is rendered once, in SQL order, exactly when it was set",
 "For SELECT, INSERT, UPDATE and DELETE, the statement is the fixed keywords plus exactly the clauses that were set, each once, in the statement's grammatical order and separated by single spaces, with each clause's own text reproduced unaltered and unset clauses leaving no trace; SELECT without columns selects *. query.has(clause) is true exactly for the clauses that are set (the default * counts as columns), has(option) exactly for the SELECT options in force, and has(clause, value) with a non-empty value exactly when the clause is set and its text contains that value literally, not as part of a longer word.",
 ["inputs","histories"],"all combinations of set and unset clauses and all clause texts",
 "There are more than a thousand clause combinations per statement; tests cover a few dozen.",
 ["sqlpuzzle/_queries/query.py","sqlpuzzle/_queries/select.py","sqlpuzzle/_queries/insert.py","sqlpuzzle/_queries/update.py","sqlpuzzle/_queries/delete.py","sqlpuzzle/_queryparts/queryparts.py","sqlpuzzle/__init__.py"],
 [("template assembly","sqlpuzzle/_queries/query.py:Query.__str__"),("templates","_query_template of each statement"),("is_set of every part","sqlpuzzle/_queryparts/*.py")])
p("C06","Condition composition keeps its boolean structure",
 "Conditions given to where, having and on are joined with AND; combining condition objects with & or | renders a parenthesised pair joined by AND or OR in which an operand made of several conditions is itself parenthesised, at any nesting depth, so SQL precedence never changes the meaning; Not(...) renders NOT(...) around its whole condition and EXISTS around its subquery. Each condition renders as its column, its operator and its value in that order, with HAVING and WHERE conditions independent of each other.",
 ["inputs"],"all trees of non-empty conditions built with Q, &, |, Not and repeated where/having/on calls",
 "Tests cover eight small trees; the guarantee is inductive over the depth of the tree.",
 ["sqlpuzzle/_queryparts/conditions.py","sqlpuzzle/_queryparts/queryparts.py","sqlpuzzle/_queryparts/where.py","sqlpuzzle/_queryparts/having.py","sqlpuzzle/_queryparts/functions.py"],
 [("bracketing","sqlpuzzle/_queryparts/conditions.py:ConditionsOfConditions.__str__"),("AND join","sqlpuzzle/_queryparts/queryparts.py:ListOfQueryParts.__str__")])
p("C07","Relations render their documented operator, handle NULL and reject wrong types",
 "Each relation renders '<column> <its operator> <value>'; a bare Python value in a condition gets IS for None, IN for lists, tuples, ranges and generators, and = for everything else, also when wrapped as an SQL value. IN and NOT IN keep all non-None elements in order and express None as OR col IS NULL, respectively AND col IS NOT NULL, parenthesised together (only the null test when nothing else remains). A relation refuses, with InvalidArgumentException, every non-SQL-object operand whose type it does not accept, booleans included unless it accepts bool (IN and NOT IN take any iterable).",
 ["inputs"],"all relations, all operand values and types, all element lists with or without None anywhere",
 "Tests check one operand per relation and a single None position.",
 ["sqlpuzzle/relations.py","sqlpuzzle/_queryparts/conditions.py"],
 [("operand type check","sqlpuzzle/relations.py:_RelationValue._check_value_type"),("None handling","sqlpuzzle/relations.py:IN._format_condition, NOT_IN._format_condition"),("default relations","sqlpuzzle/_queryparts/conditions.py:Condition.value")])
p("C08","All argument shapes mean the same and nothing passed in is dropped",
 "Builder methods normalise positional items, tuples or lists, a dictionary and keyword arguments to one list of fixed-width entries: positional entries first in the given order, then the dictionary's and then the keyword entries in sorted key order, missing trailing optional items filled with None. Every item passed appears in exactly one entry, or the call raises (only empty table arguments are ignored); entries with too many or too few items, and dictionaries where they are not accepted, raise InvalidArgumentException.",
 ["inputs"],"all positional/keyword argument combinations of any length, for every entry width the library uses",
 "Tests sample about twenty argument tuples; combinations of shapes (a dictionary or condition object together with keywords) are not sampled.",
 ["sqlpuzzle/_common/argsparser.py","sqlpuzzle/_queryparts/conditions.py","sqlpuzzle/_queryparts/values.py","sqlpuzzle/_queryparts/columns.py","sqlpuzzle/_queryparts/tables.py","sqlpuzzle/_queryparts/order.py"],
 [("parser","sqlpuzzle/_common/argsparser.py:Parser.parse"),("call sites","where/set/columns/tables/order methods")])
p("C09","Builder calls accumulate in call order and only real duplicates collapse",
 "Successive calls add columns, tables, conditions, values, groupings, orderings and rows after the ones already present, in call order, without removing, replacing or reordering earlier ones; re-ordering on a column already ordered only updates that column's direction in place. A new part is left out only if a part with the same meaning (same names, alias, relation and value, of the same kind) is already present; inserted rows are never merged.",
 ["histories","inputs"],"all sequences of builder calls with arbitrary arguments",
 "Tests make at most three successive calls with simple values and check dedup on one example per clause.",
 ["sqlpuzzle/_queryparts/queryparts.py","sqlpuzzle/_queryparts/columns.py","sqlpuzzle/_queryparts/tables.py","sqlpuzzle/_queryparts/conditions.py","sqlpuzzle/_queryparts/values.py","sqlpuzzle/_queryparts/order.py","sqlpuzzle/_queries/select.py"],
 [("append_unique_part and membership","sqlpuzzle/_queryparts/queryparts.py:QueryParts"),("part equality","__eq__ of Column, Table, Condition, Value, Order")])
p("C10","INSERT rows stay aligned with the column list",
 "The column list of an INSERT is the sorted set of all column names used by any row, each once; every row renders exactly one value per listed column, in the column list's order, namely that row's value for that column or NULL when the row does not set it, and rows appear in the order they were added. The conflict clause assigns each given column its value with the backend's syntax.",
 ["inputs","histories"],"any number of rows over any sets of string column names and any values",
 "Tests insert at most three rows over one column set and never rows with different column sets in one statement.",
 ["sqlpuzzle/_queryparts/values.py","sqlpuzzle/_queries/insert.py","sqlpuzzle/_queryparts/onconflictdoupdate.py","sqlpuzzle/_queryparts/onduplicatekeyupdate.py"],
 [("column union","sqlpuzzle/_queryparts/values.py:MultipleValues.all_columns"),("row projection","sqlpuzzle/_queryparts/values.py:Values.values")])
p("C11","Joins attach to the right table with their own type, alias and conditions",
 "A join is attached to the most recently added table, an on() call to the most recently added join, and joining or conditioning with nothing to attach to raises InvalidQueryException. Rendering emits the joins in call order with their join type, table, alias and ON conditions (strings on the value side are references, other values are literals); joins are merged only when table, alias and conditions are the same (mirrored comparisons count as same), to a plain JOIN if any of them is a plain join, or to a single one if all have one type, and otherwise all are kept.",
 ["histories","inputs"],"all sequences of table, join and on calls",
 "Tests merge at most two joins and never mix three join types, three or more joins, or joins differing only by alias.",
 ["sqlpuzzle/_queryparts/tables.py","sqlpuzzle/_queries/select.py","sqlpuzzle/_queries/update.py","sqlpuzzle/_queries/delete.py"],
 [("join bookkeeping","sqlpuzzle/_queryparts/tables.py:Table.join, Table.on, Tables.last_table"),("merging","sqlpuzzle/_queryparts/tables.py:Table._minimize_joins"),("ON equality","sqlpuzzle/_queryparts/tables.py:OnCondition.__eq__")])
p("C12","Rendering changes nothing; queries, copies and arguments are independent",
 "Rendering, comparing, hashing, copying or inspecting (has) a query or query part changes no observable state: the same object renders to the same text any number of times and later builder calls act as if it had never been rendered. No builder call on one query affects another query (unless that one contains it as a subquery or union operand), a copy, the defaults of future queries, or any argument object passed in; nor does changing a list or dictionary after it was passed to a clause call (columns, from, where, having, on, set, values) or as the value of a condition; a copy renders like its original at the time of copying.",
 ["histories"],"all interleavings of builder, render, compare, has and copy calls on any number of queries",
 "Tests copy fresh objects and render once; shared or hidden mutable state shows only across several objects or repeated renderings.",
 ["sqlpuzzle/_common/object.py","sqlpuzzle/_common/sqlvalue.py","sqlpuzzle/_queries/query.py","sqlpuzzle/_queries/options.py","sqlpuzzle/_queryparts/tables.py","sqlpuzzle/_queryparts/queryparts.py","sqlpuzzle/relations.py"],
 [("parts instantiated per query","sqlpuzzle/_queries/query.py:Query.__init__"),("deep copy","sqlpuzzle/_common/object.py:Object.copy"),("generators materialised","sqlpuzzle/relations.py:IN.__init__")])
p("C13","LIMIT, OFFSET, sort direction and options admit only their vocabulary",
 "LIMIT and OFFSET render exactly the last integers set (limit(None) clears both, a zero or None offset clears OFFSET) and reject booleans, floats and strings; sort direction accepts only asc or desc in any letter case (ascending is the default and rendered implicitly), everything else raises InvalidArgumentException. Each statement option and FOR UPDATE renders its keyword exactly when last switched on, mutually exclusive options (SQL_CACHE/SQL_NO_CACHE, ALL/DISTINCT/DISTINCTROW) replace each other, and keywords appear alphabetically.",
 ["inputs","histories"],"all integers, all argument types, all strings as direction, all on/off histories of all options",
 "Tests toggle one option at a time; combinations and histories number in the thousands.",
 ["sqlpuzzle/_queryparts/limit.py","sqlpuzzle/_queryparts/order.py","sqlpuzzle/_queries/options.py","sqlpuzzle/_queries/selectoptions.py","sqlpuzzle/_queries/select.py"],
 [("limit/offset setters","sqlpuzzle/_queryparts/limit.py:Limit"),("sort setter","sqlpuzzle/_queryparts/order.py:Order.sort"),("option tables","sqlpuzzle/_queries/selectoptions.py:SelectOptions")])
p("C14","Backend choice governs rendering and gates unsupported features",
 "configure(name) accepts exactly sql, mysql, postgresql and sqlite in any letter case, an unknown name raises and leaves the choice unchanged, and the last accepted choice decides quoting, booleans and bytes of everything rendered afterwards, also of queries built before. FULL JOIN is accepted only on PostgreSQL, and on_duplicate_key_update yields ON DUPLICATE KEY UPDATE on MySQL, ON CONFLICT (column) DO UPDATE on PostgreSQL (the first argument must name the column), REPLACE on SQLite (arguments raise), and nothing on plain SQL.",
 ["configurations","histories"],"all backend names, all sequences of configure calls interleaved with building and rendering",
 "Tests run two examples per backend and never an unknown name or a switch between building and rendering.",
 ["sqlpuzzle/_backends/__init__.py","sqlpuzzle/_backends/sql.py","sqlpuzzle/_backends/mysql.py","sqlpuzzle/_backends/postgresql.py","sqlpuzzle/_backends/sqlite.py","sqlpuzzle/_queries/insert.py","sqlpuzzle/_queryparts/tables.py"],
 [("set_backend/get_backend","sqlpuzzle/_backends/__init__.py"),("feature flags","sqlpuzzle/_backends/*.py"),("gating","sqlpuzzle/_queries/insert.py:Insert.on_duplicate_key_update, sqlpuzzle/_queryparts/tables.py:Tables.full_join")],
 [("BACKEND","the backend in force","sqlpuzzle/_backends/__init__.py")])
p("C15","SQL functions and unions render their operands completely and in order",
 "Aggregate functions render NAME(expr) with DISTINCT exactly when last requested, several expressions comma separated as references, and COUNT without expression as COUNT(*); CONCAT and GROUP_CONCAT render all given columns in order (none at all raises), GROUP_CONCAT followed by its ordering and its separator as a literal; CONVERT renders its expression and upper-cased type. & renders 'left UNION ALL right' and | renders 'left UNION right' for any selects or unions, operands unaltered and in order.",
 ["inputs"],"all expressions, distinct toggles, column lists, orderings, separators and operand queries",
 "Tests use one or two plain column names per function.",
 ["sqlpuzzle/_queryparts/functions.py","sqlpuzzle/_queries/union.py","sqlpuzzle/_queries/select.py","sqlpuzzle/__init__.py"],
 [("function rendering","sqlpuzzle/_queryparts/functions.py"),("union rendering","sqlpuzzle/_queries/union.py:Union.__str__"),("shortcuts","sqlpuzzle/__init__.py")])
p("C16","Arguments of a type a position does not accept are rejected, never rendered",
 "Table, alias and condition-column names accept only strings (None as no alias) or SQL objects; column and order/group names also integers; assigned values only None, strings, numbers, booleans, bytes and dates or SQL objects; condition values additionally lists, tuples, ranges and generators but not bytes; outfile settings only strings or SQL objects. Any other argument raises InvalidArgumentException when it is passed, booleans are never accepted as integers, and a rejected call leaves an already stored name, alias or value unchanged.",
 ["inputs"],"all argument values of all Python types for every checked position",
 "Tests try two or three wrong types per position.",
 ["sqlpuzzle/_common/utils.py","sqlpuzzle/_queryparts/columns.py","sqlpuzzle/_queryparts/tables.py","sqlpuzzle/_queryparts/conditions.py","sqlpuzzle/_queryparts/values.py","sqlpuzzle/_queryparts/order.py","sqlpuzzle/_queryparts/intooutfile.py","sqlpuzzle/_queries/union.py"],
 [("type check decorator","sqlpuzzle/_common/utils.py:check_type_decorator"),("decorated setters","sqlpuzzle/_queryparts/*.py")])
p("C17","Queries are equal exactly when their content is the same",
 "Two queries compare equal (== true and != false, whichever is on the left) exactly when they are statements of the same kind whose clauses hold the same parts in the same order and the same options and settings: columns, tables, aliases, joins and their conditions, conditions and their relations, assigned values, rows, conflict targets, orderings and directions, limits, outfile settings, union operands and union type. Parts are the same only if names and values are of the same type and equal (1, True, '1' and C('1') are all different; SQL objects of one type compare by their text), except that an ON condition between two columns is the same as its mirrored form (a > b and b < a). So a query equals its copy and any query built by the same calls, and a builder call that changes its content makes them different. SQL objects used as names or values compare equal to, and sort with, strings and each other by their rendered text.",
 ["inputs","histories"],"all pairs of queries and of builder histories, all names, values and settings",
 "Tests compare a few pairs that differ in one obvious place; a comparison that ignores one setting or one type shows only on pairs differing exactly there.",
 ["sqlpuzzle/_queries/query.py","sqlpuzzle/_queries/union.py","sqlpuzzle/_queries/options.py","sqlpuzzle/_queries/selectoptions.py","sqlpuzzle/_queries/insert.py","sqlpuzzle/_queryparts/queryparts.py","sqlpuzzle/_queryparts/columns.py","sqlpuzzle/_queryparts/tables.py","sqlpuzzle/_queryparts/conditions.py","sqlpuzzle/_queryparts/values.py","sqlpuzzle/_queryparts/order.py","sqlpuzzle/_queryparts/limit.py","sqlpuzzle/_queryparts/intooutfile.py","sqlpuzzle/_queryparts/onconflictdoupdate.py","sqlpuzzle/_common/object.py","sqlpuzzle/_common/utils.py","sqlpuzzle/relations.py"],
 [("comparison of statements","sqlpuzzle/_queries/query.py:Query.__eq__, sqlpuzzle/_queries/union.py:Union.__eq__"),("comparison of parts","__eq__ of sqlpuzzle/_queryparts/*.py"),("strict comparison","sqlpuzzle/_common/utils.py:is_same"),("comparison by text","sqlpuzzle/_common/object.py:Object.__eq__, Object.__lt__")],
 None,["query == other"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
