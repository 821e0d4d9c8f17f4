import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs=None,state=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=None)))
pr="parser/"
p("C01","Every input is answered: no panic, no hang, no crash",
 "For any byte string up to 1 MiB, parsing returns either a list of statements or an error; it never panics, exhausts the stack or loops. Every tree that parsing returns can be formatted (compact, and beautified with any indent), asked for the start and end of each of its nodes, walked, visited and dumped as JSON without a panic.",
 ["inputs"],"all byte strings up to 1 MiB, all trees the parser returns, all indents",
 "The goldens are about 200 well-formed scripts; nothing tests truncated, mutated, deeply nested or binary input, and no test calls Pos/End/Format on every node of a tree from hostile input.",
 [pr+"lexer.go",pr+"parser_query.go",pr+"parser_table.go",pr+"parser_column.go",pr+"parse_system.go",pr+"parser_alter.go",pr+"format.go",pr+"ast.go"],
 [("ParseStmts loop and error return",pr+"parser_table.go"),("depth limit enter/leave",pr+"parser_common.go"),("nil checks in Pos/End/FormatSQL",pr+"ast.go")],
 ["Parser.ParseStmts","Format","Expr.Pos/End","Walk","Accept"])
p("C02","Work grows in step with input size",
 "The work of parsing, formatting, walking and visiting a statement (basic blocks executed and bytes allocated) grows at most in proportion to its size when a list, chain or bracket nesting inside it is repeated, so that doubling the input about doubles the work. No construct makes the parser re-read what it has read an unbounded number of times.",
 ["inputs"],"all repeatable constructs (lists, operator chains, nested brackets, joins, unions, comments, statements), sizes up to the depth limit",
 "Tests have no cost oracle; a backtracking or copying regression changes no output.",
 [pr+"lexer.go",pr+"parser_common.go",pr+"parser_query.go",pr+"parser_column.go",pr+"format.go",pr+"walk.go"],
 [("one-token lookahead and saved lexer state",pr+"lexer.go"),("strings.Builder output",pr+"format.go")],["block counters","runtime.MemStats"])
p("C03","Formatting and parsing round-trip",
 "Formatting a parsed statement gives text that parses again to exactly one statement with the same tree, positions aside, and formatting that tree gives the same text again. Known losses that existing golden files fix (a FORMAT clause after a non-query statement, ATTACH printed as CREATE, PARTITION ID) are listed as exceptions.",
 ["inputs"],"every statement the parser accepts",
 "Goldens compare output text for fixed inputs; round trip is tested on those files only.",
 [pr+"format.go",pr+"ast.go",pr+"parser_query.go",pr+"parser_table.go",pr+"parser_column.go"],
 [("FormatSQL methods",pr+"format.go"),("flags kept in the tree for optional syntax",pr+"ast.go")],["Format","ParseStmts"])
p("C04","Beautified output says the same as compact output",
 "For every tree, beautified output with any whitespace indent differs from compact output only in whitespace outside quoted text: the token sequence is the same and it parses back to the same tree. Beautifying the result again yields the same text.",
 ["inputs","configurations"],"every accepted statement, every whitespace indent string, nesting levels",
 "Beautify goldens cover the sample files with one indent.",
 [pr+"format.go"],[("Formatter modes, Indent/Dedent/Break/NewLine",pr+"format.go")],["Formatter.WithBeautify","Formatter.WithIndent"])
p("C05","Formatting keeps every word of the statement",
 "Every identifier, literal, number, operator and meaningful keyword of an accepted statement appears in its formatted text as often as in the source, in the source's order apart from clauses that are documented to print in a fixed order, and nothing is invented beyond optional keywords and punctuation (AS, =, INTO, TABLE, commas and the like).",
 ["inputs"],"every accepted statement",
 "Goldens check fixed inputs; a clause dropped or reordered for an unsampled combination goes unnoticed.",
 [pr+"format.go",pr+"parser_query.go",pr+"parser_table.go",pr+"parser_alter.go",pr+"parser_view.go",pr+"parse_system.go",pr+"parser_drop.go"],
 [("FormatSQL prints every field",pr+"format.go")],["Format vs an independent tokenizer over the source"])
p("C06","No accepted token is without effect",
 "Taking one meaningful token out of an accepted statement, or replacing an identifier or literal by another, either makes parsing fail or changes the tree; the parser never skips over part of its input.",
 ["inputs"],"every accepted statement and every token position in it",
 "Tests parse whole files; none perturbs a token and looks for a reaction.",
 [pr+"parser_table.go",pr+"parser_query.go",pr+"parser_common.go",pr+"lexer.go"],
 [("tryConsume/expect functions",pr+"parser_common.go"),("statement end check",pr+"parser_table.go")],["ParseStmts on one-token edits"])
p("C07","Operators group by precedence and brackets",
 "Expressions group according to one fixed precedence and associativity order (OR, AND, NOT, comparisons with IN, LIKE, BETWEEN and IS, concatenation, additive, multiplicative, unary minus, cast, subscript and member access, lambda and ternary outermost), binary operators at one level associate to the left, and brackets override this. The grouping does not depend on where the expression stands, on its layout, or on redundant brackets around operands.",
 ["inputs"],"all expression trees over the supported operators, in all expression positions",
 "precedence_test.go samples pairs of operators; it cannot cover all nestings, nor all statement positions that parse an expression.",
 [pr+"parser_column.go",pr+"format.go"],[("precedence climbing in parseSubExpr",pr+"parser_column.go"),("precedence table",pr+"parser_column.go")],["tree shape of parsed expressions"])
p("C08","Layout does not matter",
 "Replacing the whitespace between tokens by any other whitespace, line breaks or comments, removing it where tokens do not merge, and changing the letter case of keywords leaves the tree unchanged except for positions (and the letter case of words that the tree stores as text); a sign in front of a number stays apart or joined as it was.",
 ["inputs"],"every accepted statement, all whitespace and comment placements, all keyword casings",
 "Tests use the layout of the sample files.",
 [pr+"lexer.go",pr+"parser_common.go",pr+"keyword.go"],[("skipSpace and comment skipping",pr+"lexer.go"),("case-folded keyword lookup",pr+"keyword.go")],["trees of re-laid-out sources"])
p("C09","Statements in a script are parsed independently",
 "Parsing several statements joined by semicolons gives exactly the statements that each yields alone, in order, with positions moved by the offset of each statement; empty statements, trailing semicolons and comments add nothing, and one malformed statement makes the whole script fail. A statement prefixed by whitespace or comments has the same tree with positions shifted by the length of the prefix.",
 ["inputs"],"all sequences of accepted statements and separators, and malformed statements at any place",
 "A few multi-statement samples; no test compares joined with separate parsing.",
 [pr+"parser_table.go",pr+"lexer.go"],[("ParseStmts loop",pr+"parser_table.go")],["ParseStmts"])
p("C10","Positions delimit the source text of each node",
 "Every node's start and end are within the source (end at most one past it), start does not exceed end, the start is where the node's first token (or the text inside its quotes) begins, and a statement's start and end cover its own tokens and none of the next statement's. A node lies within its parent, and nodes that are literals, identifiers and numbers span exactly their own text; exceptions fixed by existing golden files are enumerated by node type.",
 ["inputs"],"every node of every accepted statement",
 "position_test.go checks a handful of nodes; goldens pin numbers for fixed files only.",
 [pr+"ast.go",pr+"parser_query.go",pr+"parser_column.go",pr+"parser_table.go",pr+"lexer.go"],[("Pos/End methods",pr+"ast.go"),("p.Pos()/p.End() capture",pr+"parser_common.go")],["Expr.Pos","Expr.End"])
p("C11","Parse errors are structured and point into the source",
 "Whatever input is rejected, the error is a ParseError carrying a byte offset within the input, a line and column that agree with that offset, and the failing token if there is one; its text is finite, names the line and column and shows the source line with a marker under the failing place. No statements accompany an error, and the error is the same on every run.",
 ["inputs"],"all rejected byte strings",
 "error_test.go has a few messages.",
 [pr+"error.go",pr+"source.go",pr+"parser_table.go"],[("wrapError and Source line lookup",pr+"error.go")],["error of ParseStmts"])
p("C12","Walk visits every node once, parents before children",
 "Walk and WalkWithBreak call the callback exactly once for the root and once for each syntax node below it, never for a nil node, each node before its descendants, the subtree of a node as one contiguous run, and the items of one list in their order. Find, FindAll and the other helpers see the same nodes.",
 ["inputs"],"every tree the parser returns",
 "walk_test.go counts a few node types; the drift test compares the two traversal engines with each other, not with the tree.",
 [pr+"walk.go",pr+"ast.go"],[("type switch in Walk",pr+"walk.go")],["Walk callback sequence vs reflection over the tree"])
p("C13","Walk control: prune, stop, find and rewrite",
 "Returning false from a Walk callback leaves out exactly the subtree below that node; WalkWithBreak stops at once on false; Find returns the first and FindAll all matching nodes in walk order. A field changed on a visited node is what Format then prints, and nothing else in the output changes.",
 ["inputs","histories"],"every tree, every choice of nodes at which the callback declines, every renamed node",
 "walk_test.go tests one or two trees.",
 [pr+"walk.go",pr+"format.go"],[("Walk return values",pr+"walk.go")],["Walk","WalkWithBreak","Find","FindAll"])
p("C14","Visitors see every node once and their errors surface",
 "Accept calls the visit function of the matching type exactly once per node, in a parent-child order that is fixed by the visitor's hooks, with Enter before and Leave after everything beneath a node. An error from any visit function stops the traversal and is the error Accept returns.",
 ["inputs","histories"],"every tree, every node at which a visit function fails",
 "visitor_test.go overrides two or three methods.",
 [pr+"ast_visitor.go",pr+"ast.go"],[("Accept methods",pr+"ast.go"),("DefaultASTVisitor",pr+"ast_visitor.go")],["Accept"])
p("C15","Results are deterministic and inspection changes nothing",
 "Parsing the same text gives the same tree or error each time, whatever was parsed before it in the process. Formatting, beautifying, walking, visiting, asking positions and dumping JSON leave the tree and the formatter of other calls untouched, and formatting the same tree again gives the same text.",
 ["inputs","histories"],"every input, every order of calls in one process",
 "Tests run each call once on fresh objects.",
 [pr+"format.go",pr+"ast.go",pr+"keyword.go",pr+"lexer.go",pr+"walk.go"],[("no package-level mutable state",pr+"keyword.go")],["all exported functions"])
p("C16","Independent use from many goroutines is safe",
 "Any number of goroutines may each parse their own text, and may format, beautify, walk, visit, query and dump one shared tree at the same time, without a data race and with the results they would get alone.",
 ["schedules","inputs"],"all interleavings of parsers and of readers of shared trees",
 "No test uses goroutines on the library.",
 [pr+"lexer.go",pr+"keyword.go",pr+"format.go",pr+"walk.go",pr+"ast.go"],[("no shared mutable state",pr+"keyword.go")],["race detector","results vs sequential run"])
p("C17","The command-line tool reports exactly what the library does",
 "For a statement given as argument or by -f file, the tool prints the JSON tree, with -format one compact line per statement, and with -beautify the beautified text, equal to what the library returns, and exits 0. On input the library rejects or a file that cannot be read it prints nothing on standard output, the error on standard error, and exits 1.",
 ["inputs","configurations"],"all inputs and flag combinations",
 "No test runs main.go.",
 ["main.go"],[("main",  "main.go")],["process exit code, stdout, stderr"])
p("C18","The documented dialect is accepted with the right structure",
 "Every combination of the optional clauses that the supported statements define (queries, joins, set operations, windows, inserts, table, view, database, dictionary, function, role and user definitions, alterations, grants, system and show statements) is accepted, in one statement node of the right type whose parts are the clauses, expressions and names written, each under the field it belongs to. The type names that statements, alterations and column types report (Type, AlterType) are those of the words written.",
 ["inputs"],"all clause combinations of the grammar, with all kinds of operands",
 "Each golden file shows one combination.",
 [pr+"parser_query.go",pr+"parser_table.go",pr+"parser_alter.go",pr+"parser_view.go",pr+"parser_drop.go",pr+"parse_system.go",pr+"parser_column.go"],
 [("statement dispatch and clause parsers",pr+"parser_table.go")],["ParseStmts, tree by reflection"])
p("C19","Malformed statements are rejected",
 "Text that is not a statement of the dialect is rejected with an error: unclosed or mismatched brackets, quotes and comments, a missing operand, name or list item, a doubled comma or binary operator, a repeated single-use clause, clauses out of order, a keyword or clause at a place where no statement of the dialect has it (OR REPLACE before LIVE VIEW, a WHERE in CREATE TABLE), stray characters, and left-over tokens after the end of a statement.",
 ["inputs"],"all single-fault edits of accepted statements of these kinds",
 "Tests hold a handful of error cases.",
 [pr+"parser_query.go",pr+"parser_table.go",pr+"parser_column.go",pr+"parser_common.go",pr+"lexer.go"],[("expect functions",pr+"parser_common.go"),("lexer errors",pr+"lexer.go")],["ParseStmts"])
p("C20","Literals and identifiers are kept byte for byte",
 "Strings, quoted identifiers and numbers of any content (quotes doubled or escaped, comment markers, brackets, semicolons, keywords, Unicode, control characters, every number notation) are read as one token wherever such an operand may stand, stored with their exact text and quoting style, and printed unchanged.",
 ["inputs"],"all literal and identifier contents, in all operand positions",
 "lexer_test.go samples tokens.",
 [pr+"lexer.go",pr+"ast.go",pr+"format.go",pr+"parser_common.go"],[("consumeString/consumeIdent/consumeNumber",pr+"lexer.go")],["tree and formatted text"])
p("C21","Keywords serve as names where the dialect allows",
 "Every non-reserved keyword can be used, in any letter case, as a column, table, database, function or column-definition name, and any keyword as an alias after AS, as a name after a dot and as a whole item of a SELECT list, except at a place where the word has a meaning of its own there (IF before EXISTS, CAST before a bracket, NONE in a role list and the like); a quoted keyword can be used wherever a quoted identifier can. Wherever an expression stands, any keyword at all (save NOT, and DISTINCT, TOP, SELECT, ON, CUBE, ROLLUP and ALL where the clause in front of it takes that word) is a name when the next token can only follow a name: a comma, AS, a closing bracket, the end, an infix operator such as = < + * || ::, or AND, OR, IN, LIKE, ILIKE, BETWEEN, IS and their negations. The statement then has the same structure as with an ordinary name in its place.",
 ["inputs"],"all keywords, all name positions, all casings",
 "Goldens use a dozen keywords in a few positions.",
 [pr+"keyword.go",pr+"parser_common.go",pr+"parser_column.go",pr+"parser_query.go"],[("keyword-or-ident lookahead",pr+"parser_common.go")],["ParseStmts"])
p("C22","The JSON dump is faithful",
 "Marshalling the statements gives valid JSON holding every exported field of every node with its value (bytes that are not UTF-8 as U+FFFD), so that different trees give different dumps.",
 ["inputs"],"every tree the parser returns",
 "Goldens compare dumps of fixed files.",
 [pr+"ast.go","main.go"],[("exported fields and json tags",pr+"ast.go")],["encoding/json over statements"])
p("C23","A node prints the same wherever it stands",
 "The text of a node follows from its own content. Formatted alone, a node gives the text that it has inside the text of its parent, and beautified alone the same words. Neither text depends on where the node lies in the source (its positions, so far as they are set), on what the formatter wrote before, or, apart from the indentation of each line outside quoted text, on the indentation in force, which every node leaves as it found it. Exchanging a node for another one of its type exchanges exactly its text. Where a parent writes words of its own into a node (the parts of a join, the settings of SET and of a dictionary, the target of a materialized view, ADD INDEX IF NOT EXISTS) the node alone gives its plain form.",
 ["inputs","configurations"],"every node of every tree the parser returns, every indentation level, every exchange of nodes of one type",
 "Tests format whole statements only, each with a new formatter and the tree as parsed.",
 [pr+"format.go",pr+"ast.go"],[("Formatter state and FormatSQL methods",pr+"format.go")],["Format of every node","Formatter.Indent and WriteExpr"])
p("C24","A caller's own nodes and text go where they are put",
 "A Formatter holds exactly what its operations wrote, in order: strings and bytes as given, a line break for NewLine and Break when beautifying and nothing and one space when compact, and, when beautifying, the indentation then in force once in front of each line that gets text; Dedent stops at no indentation, and reading the text changes nothing. A value of the caller's own type that implements Expr, put into a tree in place of a node, is printed by its own FormatSQL once at that place with the rest as a name there would leave it, is met once by Walk, WalkWithBreak, Find and FindAll while every other node is met as before, and gets Accept called once, its error coming out.",
 ["histories","inputs"],"every sequence of formatter operations, every place of every tree that can hold a caller's node",
 "Tests only call Format and beautify on parsed trees.",
 [pr+"format.go",pr+"walk.go",pr+"ast.go"],[("Formatter methods",pr+"format.go"),("Walk and Accept on interface fields",pr+"walk.go")],["Formatter operations","Format, Walk, Find, Accept over a tree with a foreign node"])
p("C25","A tree and an error belong to their caller",
 "The trees of different parses, and the statements of one script, have no node and no list storage in common, and neither have two places of one tree. So changing any part of a tree or an error that parsing returned (overwriting texts, numbers and flags, reordering a list, adding to it) leaves every other tree and error as it was, earlier or later, and later parses give what they gave before.",
 ["histories","inputs"],"every pair of parses in a process, every change to what they returned",
 "Tests parse each text once and compare the result without changing it.",
 [pr+"parser_common.go",pr+"parser_column.go",pr+"parser_table.go",pr+"parser_query.go",pr+"lexer.go"],[("node and token construction",pr+"parser_common.go")],["ParseStmts","exported fields of trees"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
