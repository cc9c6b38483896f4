#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the file stays well formed).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
I=["inputs"]; IP=["inputs","programs"]; IH=["inputs","histories"]
RET="value and error returned by parsing and evaluating the query"

prop("C01","Any text yields a value or an error, never a panic or a hang",
 "Parsing and evaluating any text, with any values bound to its parameters and variables, and parsing any text as a path pattern and running it from any node, returns either a usable result or an error, exactly one of the two. It never panics, never returns both or neither, and returns within seconds for text of ordinary size and nesting. Constructs of the language that are not implemented are reported as errors.",
 IP,"all byte strings, all token sequences and all mutations of valid queries up to a few hundred bytes; all graphs; all parameter values of the documented types",
 "11 tests evaluate about 60 fixed, valid queries; none feeds malformed, truncated, mistyped or unsupported input.",
 ["lang.go","ast.go","eval.go","patterneval.go","update.go","literal.go"],
 [("parse entry points and error listener","lang.go"),("syntax tree construction","ast.go"),("evaluation of every node type","eval.go, update.go, patterneval.go")],
 [RET])
prop("C02","Only well-formed queries run; layout and keyword case do not matter",
 "A text that is not a complete query of the language is rejected with an error when it is parsed, and nothing is evaluated. Replacing whitespace by other whitespace or comments, changing the letter case of keywords, or adding whitespace or a semicolon at the end does not change what a query means.",
 IP,"all queries generated from the grammar; all single-token and single-character corruptions of them that leave the language; all layouts and keyword spellings",
 "The tests contain no malformed query, no comment, and only a few fixed layouts.",
 ["lang.go","ast.go","Cypher.g4"],
 [("syntax and lexer error listeners, end-of-input check","lang.go"),("grammar","Cypher.g4, parser/")],
 [RET])
prop("C03","A literal evaluates to the value that is written",
 "Integer (decimal, hexadecimal, octal), floating point, string (either quote, every escape sequence), boolean, null, list and map literals, nested in any way, evaluate to exactly the value they denote, with integers and floats kept distinct. A number that cannot be represented is an error, not another number.",
 I,"all literals of all types, nested to depth 4, including boundary numbers and every Unicode character in strings",
 "The tests use a handful of decimal integers and plain ASCII strings.",
 ["ast.go","literal.go"],
 [("literal conversion","ast.go (oC_Literal, oC_NumberLiteral, oC_StringLiteral)"),("unescaping","literal.go")],
 [RET])
prop("C04","Names are kept verbatim, and escaping round-trips for every string",
 "Labels, relationship types, property keys, variables and column aliases are used exactly as written: case, reserved words, non-ASCII letters and back-quoted names included. For every string, escaping it as a string literal, a label, or a property key and using the result in a query yields that same string.",
 I,"all strings without invalid UTF-8; all identifiers, including the reserved words in any letter case",
 "The tests only use plain ASCII identifiers and never call the escaping functions.",
 ["ast.go","literal.go"],
 [("symbolic and schema names","ast.go"),("escape functions","literal.go")],
 [RET,"labels, types and property keys of the graph"])
prop("C05","Arithmetic follows type, precedence and associativity rules",
 "For numbers, + - * / % ^ and unary signs give the mathematically defined result of the operand types: integers stay 64-bit integers with truncating division, mixing with a float gives a float, ^ is always float; ^ binds tighter than * / %, these tighter than + -, all associate to the left, and parentheses override. Null in any operand of these operators gives null, division or modulo by zero and operands of unsuitable type are errors wherever they occur in the expression.",
 I,"all arithmetic expression trees over numbers, null and mistyped operands, given as literals, parameters, variables or properties, evaluated repeatedly",
 "One test adds three small integers.",
 ["arithmeticeval.go"],
 [("operator evaluation and type dispatch","arithmeticeval.go"),("constant caching","arithmeticeval.go"),("precedence","Cypher.g4, ast.go")],
 [RET])
prop("C06","Comparisons agree with one total order per type and with each other",
 "For two values of comparable type (numbers among each other, strings, booleans, dates, local times, local date-times, durations), = <> < <= > >= agree with one total order: exactly one of less, equal, greater holds, <> is the negation of =, and the order is antisymmetric and transitive. Comparison with null is null, values of different types are an error, NaN is different from everything, and a chained comparison a < b <= c equals a < b AND b <= c.",
 I,"all pairs and triples of values of the documented primitive types, including boundary values; all operators and chains of them",
 "No test compares anything but two strings for equality.",
 ["relationaleval.go"],
 [("primitive comparison","relationaleval.go (comparePrimitiveValues)"),("operator and chain evaluation","relationaleval.go (comparisonExpression)")],
 [RET])
prop("C07","AND, OR, XOR, NOT implement three-valued logic",
 "AND, OR, XOR and NOT over true, false and null follow Kleene's three-valued logic for any number of operands in any nesting, with NOT binding tighter than AND, AND tighter than XOR, and XOR tighter than OR. An operand that is neither boolean nor null is an error when it is needed to decide the result.",
 I,"all boolean expression trees over true, false, null, comparisons and mistyped operands",
 "Tests use one AND of two equalities in a WHERE clause.",
 ["relationaleval.go"],
 [("three-valued evaluation","relationaleval.go (andExpression, orExpression, xorExpression, notExpression)")],
 [RET])
prop("C08","List, string and null operators compute their definition",
 "List concatenation, indexing (negative from the end, out of range gives null), slicing (start inclusive, end exclusive, bounds optional and clamped), IN, STARTS WITH, ENDS WITH, CONTAINS, string concatenation, IS NULL and IS NOT NULL return what their definition over the elements or characters prescribes, for lists and strings of any length. Null operands propagate (IN is null only if the answer depends on a null), and operands of the wrong type are errors.",
 I,"all lists and strings up to a few dozen elements with duplicates, nulls and nesting; all indexes and bounds",
 "One test indexes a list by size-1; slicing, IN, and the string operators are not tested.",
 ["eval.go","arithmeticeval.go"],
 [("list, slice, IN, null and string operators","eval.go (stringListNullOperatorExpression)"),("concatenation","arithmeticeval.go")],
 [RET])
prop("C09","CASE selects the first matching branch",
 "A CASE with a test value returns the branch of the first alternative equal to it, a CASE without one the branch of the first alternative whose condition is true; conditions that are false or null are passed over. If none matches the result is the ELSE branch, or null without ELSE, and branches that are not selected have no effect on the result.",
 I,"all CASE expressions with up to 5 alternatives over values of all types, nested, with and without ELSE, including branches that would fail if evaluated",
 "One test evaluates a single CASE expression and only logs the result.",
 ["eval.go"],
 [("case evaluation","eval.go (caseClause)")],
 [RET])
prop("C10","Built-in string, number and list functions compute their definition",
 "range, size, left, right, substring, split, trim, ltrim, rtrim, toInteger, toFloat and their OrNull variants, labels and type return what their definition prescribes for all arguments, counting characters and not bytes, and return null for a null string argument. The OrNull variants return null where the plain ones return an error; a wrong number or type of arguments is an error.",
 I,"all argument tuples of all types, Unicode strings, boundary numbers, empty values",
 "Tests call substring, trim, size, labels and type once each on plain values.",
 ["functions.go","scalarfuncs.go","stringfuncs.go","eval.go"],
 [("function table and argument checks","functions.go, eval.go (functionInvocation)"),("implementations","stringfuncs.go, scalarfuncs.go, functions.go")],
 [RET])
prop("C11","Date, time and duration values follow calendar arithmetic",
 "Dates built from components or from text denote that calendar day; adding or subtracting a duration to a date, local time or local date-time moves it by the duration's months, days, seconds and nanoseconds on the calendar, and subtraction undoes addition. Durations add, subtract, and scale by numbers component-wise. Operations that are not defined between these types are errors.",
 I,"all dates between years 1 and 9999, all times of day, durations of either sign in every component, chains of such operations",
 "No test uses a date, a time or a duration.",
 ["arithmeticeval.go","datefuncs.go","datetime.go","duration.go"],
 [("date functions","datefuncs.go"),("date and duration operators","arithmeticeval.go"),("value types","datetime.go, duration.go")],
 [RET])
prop("C12","MATCH returns exactly the embeddings of the pattern in the graph",
 "MATCH with a path pattern returns one row for every way to assign nodes and relationships of the graph to it such that all given labels, relationship types (any of the alternatives), properties and directions hold, and no other rows. This holds whatever the direction of each step, the number of steps, parallel relationships, self-loops, the order in which the graph was built, and its size.",
 IP,"all graphs up to a dozen nodes with parallel edges and loops; all patterns up to 5 nodes with labels, type alternatives, properties, and all three directions",
 "Two tests match 6 fixed patterns in graphs of at most 8 nodes without loops or parallel edges.",
 ["patterneval.go","ast.go"],
 [("translation to graph patterns","patterneval.go (getPattern)"),("result collection","patterneval.go (GetResults, StoreResult)")],
 ["rows of the result set"])
prop("C13","Variable-length relationships match exactly the paths of allowed length",
 "A variable-length relationship matches every path that does not repeat a relationship, follows the given direction, uses only allowed types and properties, and has a length within the bounds; bounds may be exact, open at either side, or absent. There is exactly one row for each such path, and the relationship variable holds that path.",
 IP,"all graphs up to 8 nodes with cycles; all bounds with minimum at least 1; all directions, type and property restrictions",
 "One test counts the rows of one unbounded pattern in a 3-node chain.",
 ["patterneval.go","literal.go","ast.go"],
 [("range literal","literal.go (rangeLiteral), ast.go"),("translation to graph patterns","patterneval.go")],
 ["rows of the result set"])
prop("C14","Several patterns and MATCH clauses join on their shared variables",
 "Comma separated patterns and consecutive MATCH clauses return exactly the combinations of their matches that agree on all shared node and relationship variables, also when a variable is used several times in one pattern; without shared variables that is the full product. OPTIONAL MATCH keeps every row: if there is no match for a row, the new variables are null.",
 IP,"all graphs up to 8 nodes; all combinations of up to 3 patterns in up to 3 clauses with any sharing of variables; optional clauses",
 "One test joins two comma separated patterns on one variable.",
 ["patterneval.go","eval.go"],
 [("pattern recursion","patterneval.go (GetResults)"),("joining reading clauses","eval.go (singlePartQuery)"),("bound symbols","patterneval.go (BuildPatternSymbols)")],
 ["rows of the result set"])
prop("C15","WHERE keeps exactly the rows for which the condition is true",
 "A MATCH with WHERE returns exactly those rows of the MATCH without it for which the condition evaluates to true; rows where it is false or null are dropped. So for any condition, the rows kept by it, by its negation, and by testing it for null partition the rows of the unfiltered MATCH, and an error in the condition fails the query.",
 IP,"all graphs and patterns of C12; all conditions over properties of the matched nodes and relationships, parameters and constants",
 "Tests have one WHERE clause comparing two strings.",
 ["patterneval.go","eval.go"],
 [("filtering","patterneval.go (Match.GetResults)"),("property lookup","eval.go (propertyOrLabelsExpression)")],
 ["rows of the result set"])
prop("C16","RETURN projects, names, skips and limits rows as written",
 "A result set has one row per result and in each row one value per returned item, under its alias or its 1-based position, equal to the item's expression evaluated for that row; RETURN * returns all variables. SKIP s LIMIT n, given as any integer expression, yields min(n, max(0, total-s)) rows, which are distinct members of the full result, and disjoint SKIP/LIMIT windows over a fully ordered result tile it.",
 IP,"all queries with up to 6 items, with and without aliases, SKIP and LIMIT from 0 to beyond the number of rows, zero rows included",
 "Tests read at most 3 columns of the first row; no test has SKIP or LIMIT.",
 ["eval.go","ast.go"],
 [("projection","eval.go (singlePartQuery, Project)"),("column names","ast.go (getProjectedNames)")],
 ["columns and rows of the result set"])
prop("C17","RETURN DISTINCT and ORDER BY remove duplicates and sort",
 "RETURN DISTINCT returns every distinct row of the query exactly once. ORDER BY returns the same rows, sorted by the given keys and directions, later keys deciding ties, nulls after all other values in ascending order; DISTINCT and ORDER BY take effect before SKIP and LIMIT.",
 IP,"all result sets up to a few dozen rows with duplicates, nulls, mixed int and float; 1 to 3 sort keys of any direction, over properties, aliases or expressions",
 "No test uses DISTINCT or ORDER BY.",
 ["eval.go","resultset.go","relationaleval.go"],
 [("distinct and sort","eval.go"),("row equality","resultset.go, value.go")],
 ["rows of the result set, in order"])
prop("C18","UNION removes duplicate rows, UNION ALL keeps every row",
 "UNION ALL returns the rows of all its queries, every occurrence kept. UNION returns each distinct row of them exactly once, whichever side it comes from and however often it occurs, where rows are equal if they have the same columns with equal values (null equal to null, nodes by identity, lists and maps element by element).",
 IP,"all unions of 2 to 4 queries over constants, lists, maps, nodes, nulls and properties, with any overlap and internal duplicates",
 "One test unions two fixed result sets through the internal API.",
 ["eval.go","resultset.go","value.go"],
 [("union","resultset.go (Union, find)"),("value identity","value.go (IsValueSame)")],
 ["rows of the result set"])
prop("C19","CREATE adds exactly the described nodes and relationships, once per row",
 "For each row of the preceding clauses, or once if there are none, CREATE adds exactly one node for each node of its patterns that is not already bound and one relationship for each relationship, with exactly the given labels, type, properties and direction, and nothing else in the graph changes. Variables of the pattern refer to what was created for that row; properties given as null are not stored.",
 IP,"all graphs up to 8 nodes, all preceding MATCH clauses, all create patterns up to 5 nodes with computed properties",
 "The tests create a few fixed nodes and check one of them; none creates for several rows.",
 ["update.go"],
 [("create","update.go (create, PatternPart.Create, nodePattern.Create, relationshipPattern.Create)")],
 ["graph after the query","rows of the result set"])
prop("C20","SET and REMOVE change exactly the named properties and labels",
 "For each row, SET of a property stores the value of the expression (null removes it), SET n = map or node replaces all properties, SET n += merges them (null removes), SET n:L adds labels, and REMOVE deletes properties or labels; items take effect from left to right. No other property, label, node or relationship of the graph changes, and a following RETURN or MATCH sees the new state.",
 IP,"all graphs up to 8 nodes, all row sets, all sequences of up to 4 SET and REMOVE items with any expressions over row variables",
 "Tests set or remove one constant on one node per query.",
 ["update.go","eval.go"],
 [("set","update.go (set, setItem)"),("remove","update.go (remove)"),("assignable properties","eval.go (propertyExpression)")],
 ["graph after the query"])
prop("C21","DELETE removes exactly the selected nodes and relationships",
 "DELETE removes every node and relationship its expressions select in any row, each once, and nothing else; DETACH DELETE also removes all relationships of the selected nodes. Deleting a node that still has relationships that are not deleted by the same clause is an error, and then nothing is deleted; deleting null has no effect.",
 IP,"all graphs up to 8 nodes with loops and parallel edges, all row sets with repeated nodes, all lists of deleted variables",
 "Tests delete one or all nodes of a 4-node graph and check only the number of nodes.",
 ["update.go"],
 [("delete","update.go (deleteClause)")],
 ["graph after the query","error returned"])
prop("C22","MERGE matches what exists and otherwise creates it, and is idempotent",
 "For each row, MERGE returns all matches of its pattern if there are any and changes nothing but what ON MATCH says; if there are none it creates the pattern once, binds its variables, and applies ON CREATE. Rows and MERGE clauses are processed in order, so what one creates the following ones match, and running the same MERGE again in a fresh context never creates anything.",
 IP,"all graphs up to 8 nodes, all preceding rows, merge patterns of up to 3 nodes with string and integer properties, all ON CREATE and ON MATCH actions, chains of up to 3 MERGE clauses",
 "Tests merge 10 fixed patterns into one 7-node graph, mostly counting nodes.",
 ["update.go"],
 [("merge","update.go (merge)")],
 ["graph after the query","rows of the result set"])
prop("C23","A query without updating clauses never changes the graph",
 "Evaluating a query that contains no CREATE, MERGE, SET, REMOVE or DELETE leaves every node, relationship, label and property of the graph, and every parameter value passed in, as it was, whether it succeeds or fails. Updating queries that fail while being parsed leave them unchanged as well.",
 IP,"all read-only queries of C12 to C18 over all graphs, with composite property and parameter values",
 "No test looks at the graph after a read-only query.",
 ["eval.go","patterneval.go"],
 [("read-only evaluation","eval.go, patterneval.go")],
 ["graph and parameter values after the query"])
prop("C24","The evaluation context carries variables, parameters and their scope",
 "Variables bound by a successful query stay bound in its evaluation context and constrain the patterns of later queries in that context; another context, or a variable set in a subcontext, is not affected. A parameter may be used wherever an expression is allowed and behaves exactly as its value written as a literal; unknown parameters, variables and functions are errors.",
 IH,"all sequences of up to 6 queries over up to 3 contexts; all parameter values of literal types",
 "One example prints the result of two consecutive queries; no test sets a parameter.",
 ["ctx.go","eval.go","patterneval.go"],
 [("scopes","ctx.go"),("exporting variables","eval.go (regularQuery.Evaluate)"),("bound symbols","patterneval.go")],
 [RET,"variables of the context"])
prop("C25","A parsed query can be evaluated repeatedly and independently",
 "Evaluating one parsed query any number of times, with different graphs, contexts, parameters and variable values, returns each time what a freshly parsed copy of the text returns for that input. Earlier evaluations, including failed ones, and changes made to earlier results do not influence later ones.",
 IH,"all queries with constant and non-constant parts, sequences of up to 6 evaluations with differing bindings",
 "No test evaluates a parsed query twice.",
 ["arithmeticeval.go","literal.go","eval.go"],
 [("constant caching","arithmeticeval.go, literal.go, eval.go (functionInvocation)")],
 [RET])
prop("C26","Results do not depend on indexes or on how the graph was built",
 "Adding property indexes to a graph, or building the same graph with nodes and relationships created in another order or through CREATE queries, does not change the set of rows any query returns or the effect of any update. The same holds for irrelevant extra nodes that no pattern of the query can match.",
 ["inputs","configurations"],"all graphs up to 10 nodes, all queries of C12 to C22, all subsets of indexed properties, all permutations of construction order",
 "No test uses an index or compares two constructions of a graph.",
 ["patterneval.go","update.go"],
 [("pattern evaluation through graph indexes","patterneval.go")],
 ["rows of the result set","graph after the query"])
prop("C27","Relative path lookups find exactly the nodes MATCH would find",
 "Looking up a path pattern relative to a node returns the nodes that MATCH of the same pattern would bind to the target when the start is bound to that node, with the same multiplicity. It does not change the graph, gives the same answer every time, and returns no nodes if the pattern has no target or no match.",
 I,"all graphs up to 10 nodes, all start nodes, all patterns of up to 4 steps of C12 and C13",
 "One test looks up three fixed patterns in a 4-node tree.",
 ["lang.go","patterneval.go"],
 [("relative lookup","lang.go (ParsePatternExpr, FindRelative)")],
 ["nodes returned"])
prop("C28","Any history of queries leaves the graph a reference interpreter predicts",
 "After any sequence of reading and updating queries, evaluated in one or several contexts, the graph and the result of every query are those of a reference interpreter applying the same clauses one after another to an abstract graph. Failed queries do not disturb later ones beyond the clauses already carried out.",
 IH,"all sequences of up to 10 queries combining MATCH, OPTIONAL MATCH, WHERE, CREATE, MERGE, SET, REMOVE, DELETE, RETURN with modifiers, and UNION",
 "No test evaluates more than two queries on one graph, and none chains updates.",
 ["eval.go","update.go","patterneval.go"],
 [("clause pipeline","eval.go (singlePartQuery)"),("updates","update.go")],
 ["graph and rows after each query"])
prop("C29","Property values pass through the value conversion hooks exactly once",
 "When a conversion filter is set, every property value written by CREATE, MERGE, SET n.p, SET n = and SET n += goes through it exactly once with its key, and what it returns is stored; reading never calls it. A stored property that provides a native value is seen by expressions as that native value, and the filter applies in all subcontexts.",
 I,"all updating queries of C19, C20 and C22 with all kinds of values; filters that rename, wrap or transform values",
 "No test sets a filter or stores a property with a native value.",
 ["ctx.go","update.go","eval.go"],
 [("write filter","ctx.go (PropertyValueFromNative), update.go, eval.go (propertyExpression)"),("native values","eval.go (propertyOrLabelsExpression)")],
 ["graph after the query","calls of the filter"])
prop("C30","Registered functions get the arguments written and their result is used",
 "A registered function, whatever its name and declared minimum and maximum number of arguments, is called exactly when the number of arguments given is within these bounds, with the values of its arguments in order, and its result or error becomes that of the call. Calls outside the bounds and calls to unknown names are errors, and the function is not called.",
 I,"all arities from 0 to 6 with bounded and unbounded maximum, dotted names, nested calls, constant and varying arguments, failing functions, repeated evaluation",
 "No test registers a function.",
 ["functions.go","eval.go","ctx.go"],
 [("registration and lookup","functions.go, ctx.go"),("invocation","eval.go (functionInvocation)")],
 [RET,"arguments received by the function"])
prop("C31","Independent evaluations can run concurrently",
 "Parsing queries, and evaluating them in contexts of their own on graphs of their own, in any number of goroutines at the same time, is free of data races and gives each the result it has when run alone. The same holds for queries that only read a graph that no goroutine updates.",
 ["schedules","inputs"],"all sets of up to 16 queries run concurrently, all schedules the runtime produces under the race detector",
 "No test starts a goroutine.",
 ["lang.go","functions.go","ctx.go"],
 [("shared state: function table, parser tables","functions.go, ctx.go, lang.go, parser/")],
 [RET,"race detector reports"])
prop("C32","Value identity and result set operations obey their laws",
 "Value identity is reflexive, symmetric, and structural: equal for values of equal content (null, primitives, lists, maps, string sets) and identical nodes or paths, different otherwise. Result set operations keep rows intact: Append and Add keep every row in order, Column lists a column in row order, Union without duplicates is idempotent, and the cartesian product enumerates each combination exactly once.",
 I,"all values of all documented types nested to depth 3; all result sets up to 6 rows and 4 columns, including empty ones",
 "One test unions and one multiplies two fixed result sets.",
 ["resultset.go","value.go"],
 [("value identity and conversion","value.go"),("result sets","resultset.go")],
 ["return values of the API"])
prop("C33","An error in any evaluated part fails the query",
 "If any operand, argument, index, list element, map value, branch, condition, sort key, SKIP or LIMIT, or property value that has to be evaluated fails, the evaluation of the whole query returns an error: a failure never turns into null, a default, a partial result, or the value of another part. This holds at any depth and position of the failing part.",
 IP,"all expressions and clauses with a failing subexpression inserted at every position where it must be evaluated",
 "No test evaluates an expression that fails.",
 ["eval.go","arithmeticeval.go","relationaleval.go","literal.go","update.go"],
 [("error propagation in each evaluator","eval.go, arithmeticeval.go, relationaleval.go, literal.go, update.go")],
 [RET])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
