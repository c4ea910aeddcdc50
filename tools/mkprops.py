#!/usr/bin/env python3
"""Writes properties.jsonl. Kept as a script so the text stays reviewable."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
L="ecmascript/lexer/lexer.go"; SC="ecmascript/lexer/scanner.go"; U="ecmascript/lexer/unicode.go"; T="ecmascript/lexer/token.go"
PP="ecmascript/parser/parser.go"; PE="ecmascript/parser/expression.go"; PS="ecmascript/parser/statement.go"; PD="ecmascript/parser/declaration.go"
PM="ecmascript/parser/module.go"; PSC="ecmascript/parser/scanner.go"; PC="ecmascript/parser/context.go"; PK="ecmascript/parser/keyword.go"

p("C01","Lexing any input ends in tokens or a located syntax error",
  "For every character sequence, repeatedly asking the lexer for tokens reaches the end-of-input token or stops with a syntax error that carries a source location; it never hangs and never fails in any other way. Once the end of input is reached, asking again keeps returning the end-of-input token.",
  ["inputs"],"every sequence of Unicode scalar values offered to the lexer",
  "Four sample inputs are lexed by tests; hangs, index faults and wrong error types need unusual character sequences (unterminated comments, strings, classes, escapes at end of input).",
  [L,SC],[("token dispatch loop",L),("EOF handling of Read/Unread",SC)],observe=["lexer.Lexer.Lex","lexer.Lexer.ReLex"])
p("C02","Tokens and skipped trivia reproduce the source exactly",
  "For every input the lexer accepts, writing out the source text of the tokens in order, with only white space, line terminators and comments between them, gives back the input: no character of a token is dropped, invented, reordered or attributed to a neighbouring token.",
  ["inputs"],"every accepted character sequence",
  "Tests compare a handful of token lists; losing one digit, sign or escape needs a specific literal form.",
  [L,SC,T],[("literal builders",L),("Token.Source",T)],observe=["lexer.Lexer.Lex","lexer.Token.Source"])
p("C03","Punctuators are recognised by longest match with the right identity",
  "Every ECMAScript punctuator is recognised as the longest one that starts at the current position and is reported with that punctuator's own token type (`?.` followed by a decimal digit is `?`); characters after it are left for the next token. Two adjacent dots, which occur in no program, are outside of the property.",
  ["inputs"],"every run of punctuator characters in any following context",
  "Tests touch a dozen of about sixty punctuators and none of the confusable runs.",
  [L,T],[("nested character switch",L),("Token types",T)],observe=["lexer.Lexer.Lex"])
p("C04","The preceding-line-break flag of a token is exact",
  "A token reports a preceding line break exactly when at least one line terminator (LF, CR, LS, PS) lies between it and the previous token, including one that ends a single-line comment or lies inside a multi-line comment; it never carries over to a later token.",
  ["inputs"],"every arrangement of white space, line terminators and comments around tokens",
  "Tests contain only LF directly before a token and no comments at all.",
  [L,U],[("newLine latch in Lex",L),("comment consumers",L),("line terminator set",U)],observe=["lexer.Token.NewLine"])
p("C05","Identifiers, private names and keywords are classified exactly",
  "An identifier token covers the maximal run of identifier characters (Unicode ID_Start/ID_Continue plus $, _, ZWNJ, ZWJ) starting with a valid start character; it is reported as a keyword exactly when its whole text is that keyword's spelling, and a name after # is always a private identifier. Any other character that starts no token is a syntax error.",
  ["inputs"],"every Unicode character in every position of an identifier, and every spelling",
  "Over 130,000 identifier characters and 57 keyword spellings exist; tests use a few ASCII names.",
  [L,U,T],[("isIdentifierStart/isIdentifierContinue",U),("keyword table",T),("identifier consumer",L)],observe=["lexer.Lexer.Lex"])
p("C06","Numeric literals keep their full extent and denote their value",
  "A decimal, fractional, exponent, hexadecimal, octal or binary literal, with numeric separators only between digits, is one token that contains every digit, dot, exponent and sign of the literal, and its numeric value is the one ECMAScript assigns to that literal. Malformed literals (no digits after a radix prefix, dangling or doubled separator, missing exponent digits) are syntax errors. Legacy literals with a leading zero (017, 08) and BigInts are outside of the property.",
  ["inputs"],"every digit string in every literal form",
  "Only the literals 0, 1, 2, 3, 4 and 8 occur in tests that check a value.",
  [L,T,PE],[("digit consumers",L),("NumberConstant",T)],observe=["lexer.Lexer.Lex","lexer.Token.NumberConstant"])
p("C07","String literals keep their exact extent and value",
  "A string literal token starts at its opening quote and ends at the first matching quote that is not escaped by a backslash, keeping every character in between verbatim; an unterminated literal is a syntax error. For literals without escape sequences the string value is exactly the text between the quotes.",
  ["inputs"],"every character sequence after an opening quote",
  "Tests contain no escapes, no nested quotes and no unterminated strings.",
  [L,T],[("string consumer",L),("StringConstant",T)],observe=["lexer.Lexer.Lex","lexer.Token.StringConstant"])
p("C08","Regular expression literals keep extent, pattern and flags",
  "When a division token is re-read as a regular expression, the literal ends at the first / that is neither escaped nor inside a character class and is followed by the maximal run of identifier characters as flags; pattern and flags are the exact source text, so that / + pattern + / + flags equals the raw literal. Unterminated literals are syntax errors.",
  ["inputs"],"every character sequence after the opening slash",
  "Two short regular expressions are parsed by tests without checking pattern or flags.",
  [L,PSC],[("regex consumer",L)],observe=["lexer.Lexer.ReLex","ast.RegExpLiteral"])
p("C09","Source positions count rows and columns exactly",
  "After any sequence of reads and single-step unreads the reported location is the one of the next unread character: the row is one plus the number of line terminators consumed and the column is one plus the number of characters consumed since the last line terminator, also at and after end of input.",
  ["inputs","histories"],"every text and every valid interleaving of reading and unreading, including at end of input",
  "No test looks at a location; the column encoding that allows unreading a line terminator has several boundary cases.",
  [SC],[("Read/Unread column sign encoding",SC)],state=[("row, column","position of the next character",SC)],observe=["lexer.Scanner.Location","lexer.Lexer.Location"])
p("C10","A token's source text lexes back to the same token",
  "For every token the lexer can produce, its source text is the exact spelling of that token: lexing this text alone yields one token of the same type and literal and then the end of input.",
  ["inputs"],"every token type and every literal text",
  "Token.Source has about 120 cases of which tests exercise none directly.",
  [T,"ecmascript/lexer/tokentype_string.go"],[("Source table",T)],observe=["lexer.Token.Source"])
p("C11","UTF-16 encoding is standard for every string",
  "Encoding a string as UTF-16 yields, for every code point in order, the single unit or the surrogate pair the Unicode standard prescribes, and U+FFFD for every invalid byte; nothing else is added and nothing is lost, so decoding returns the original text.",
  ["inputs"],"every string, valid or invalid UTF-8",
  "Tests sample 14 strings of 1.1 million code points and their combinations.",
  [U],[("EncodeUTF16",U)],observe=["lexer.EncodeUTF16"])
p("C12","Token lookahead never changes what is scanned",
  "For every sequence of peeks at any distance and scans, the tokens returned by scanning are exactly the lexer's tokens in order, peeking at distance i shows the token that the (i+1)-th following scan returns, and the reported location is the one at which the next unscanned token's text region begins, the same as without peeking.",
  ["histories","inputs"],"every interleaving of peek, scan, expect and location queries over every token sequence",
  "The parser's fixed peek patterns exercise only distance 0 and 1 and never compare locations.",
  [PSC],[("lookahead queue",PSC)],state=[("lookahead queue","tokens and locations read ahead",PSC)],observe=["parser.Scanner.PeekAt","parser.Scanner.Scan","parser.Scanner.Location"])
p("C13","Parsing any source returns a tree or a typed error and terminates",
  "For every source text and every parse mode, parsing terminates and returns either a non-nil tree and no error, or an error that is a syntax, encoding or parser error; it never panics and never hangs.",
  ["inputs"],"every source text in script, module and expression mode",
  "Tests parse about 80 inputs; truncated or unusual statements that loop forever or crash are not among them.",
  [PP,PE,PS,PD,PM],[("recover in Parse",PP),("statement and expression loops",PS)],observe=["parser.Parser.Parse"])
p("C14","A failing reader surfaces as an encoding error, never as a tree",
  "If the underlying reader fails with an error other than end of input at any position the parser reads, parsing returns an encoding error that wraps exactly that error; it never returns a tree, another error or a panic.",
  ["fault_sequences","inputs"],"every position at which the reader fails, every source text and mode",
  "No test injects a read failure.",
  [SC,PP,"ecmascript/errs/errors.go"],[("error branch of Scanner.Read",SC),("recover in Parse",PP)],observe=["parser.Parser.Parse"])
p("C15","An accepted program's tree spells exactly the program's tokens",
  "Whenever parsing succeeds, writing the tree back out in source order (with the parentheses it records) gives the program's own token sequence, except for statement semicolons that automatic insertion supplies and optional trailing commas; no operand, operator, name, modifier, clause or statement is lost, duplicated, reordered or changed.",
  ["inputs"],"every accepted token sequence in script, module and expression mode",
  "Tests compare trees for about 45 short sources; library files are only checked for acceptance.",
  [PE,PS,PD,PM],[("recursive descent productions",PE),("statement productions",PS)],observe=["parser.Parser.Parse","ast nodes"])
p("C16","Operator nesting follows ECMAScript precedence and associativity",
  "For every accepted expression the tree nests exactly as the ECMAScript grammar prescribes: each operand of a unary, binary, conditional, assignment, arrow, sequence, member, call or new expression belongs to a production at least as tightly binding as the grammar requires, with left associativity for binary operators and right associativity for exponentiation, assignment and conditional; an else belongs to the nearest if. Conversely, operators nested as the grammar prescribes, without parentheses that it does not need, are accepted.",
  ["inputs"],"every combination of operators and operands",
  "Two arithmetic expressions are parsed by tests, without checking the tree.",
  [PE,"ecmascript/ast/expressions_binary.go"],[("precedence ladder",PE)],observe=["parser.Parser.Parse","ast nodes"])
p("C17","Semicolon insertion happens exactly where the grammar allows it",
  "A statement that must end in a semicolon is accepted without one only before a line break, a closing brace or the end of input, and there whenever the next token can not continue it (after do-while always); no semicolon is inserted where the expression goes on in the next line; a line break directly after return, break, continue or throw, before postfix ++/--, before => and between async and what it modifies is never skipped over; semicolons of a for header are never inserted.",
  ["inputs"],"every statement kind with every following token and line break arrangement",
  "Tests contain no multi-line statements without semicolons besides the bundled minified libraries.",
  [PP,PS,PE],[("expectSemicolon",PP),("restricted productions",PS)],observe=["parser.Parser.Parse"])
p("C18","Reserved words never become names, contextual words do in context",
  "A word is accepted as a variable, function, class, label, parameter or import binding or as a simple reference exactly when ECMAScript does not reserve it there: always-reserved words never, yield inside of generators and await inside of async functions (with their parameters and defaults, also those of async arrows) never, the strict-mode words (implements, interface, let, package, private, protected, public, static) only outside of strict code, let never as the name of a lexical declaration, and the other contextual words always; after a dot and as property keys every word is accepted. The strict, async and generator state of one function never leaks into the code after it. Whether module or strict code outside of such functions may use yield and await as names, and functions with both a \"use strict\" directive and parameters other than names, are outside of the property.",
  ["inputs"],"every keyword at every binding, reference and property position, in every nesting of contexts",
  "Tests use eight contextual words in import clauses only.",
  [PC,PK,PP,PS,PE],[("keywordToIdentifier",PC),("reservation table",PK)],state=[("parse context","strict/async/generator flags",PC)],observe=["parser.Parser.Parse"])
p("C19","Arrow parameters mean the same as function parameters",
  "For every parameter list, an arrow function (plain or async) that is accepted yields the same parameter structure, defaults, patterns and rest element as a function expression with the same list between its parentheses; intermediate placeholder nodes never remain in the result and a parenthesised expression that is not followed by => is never silently turned into something else.",
  ["inputs"],"every parameter list",
  "About 20 arrow heads are tested one by one.",
  [PE,"ecmascript/ast/temporal.go"],[("convertExprToArrowParams",PE),("temporal nodes","ecmascript/ast/temporal.go")],observe=["ast.FunctionExpression"])
p("C20","Every successfully parsed tree converts to ESTree without failure",
  "Whenever parsing succeeds, converting the resulting tree to ESTree and to JSON succeeds; no placeholder node is reachable from the tree.",
  ["inputs"],"every accepted source in script, module and expression mode",
  "No test calls the ESTree conversion.",
  ["ecmascript/ast","ecmascript/parser"],[("ESTree methods","ecmascript/ast"),("temporal node rejection",PE)],observe=["ast.Node.ESTree","cmd/estree"])
p("C21","ESTree output has the node types and fields ESTree prescribes",
  "For every tree node, whatever its operators, flags, kinds and children, the ESTree object has the type name, operator spelling, kind and every field that ESTree defines for that construct, each child converted in its own field, absent optional children null and lists always JSON arrays in source order. Assignment targets that are arrays or objects become patterns under =; under the other assignment operators (an error in ECMAScript) they are outside of the property.",
  ["inputs"],"every node type with every combination of field values",
  "No test calls the ESTree conversion.",
  ["ecmascript/ast"],[("ESTree methods and operator tables","ecmascript/ast")],observe=["ast.Node.ESTree"])
p("C22","The estree command prints only the JSON trees of its inputs",
  "For every list of readable files that parse, standard output consists of exactly one JSON document per file in order, separated by the separator line, and the exit status is 0; if a file cannot be opened or parsed, the command ends with a non-zero status, having printed the documents of the files before it (the separator after the last of them may be printed too) and none for that file or any later one.",
  ["inputs","fault_sequences"],"every file list, every content, every position of a failing file",
  "The command has no tests.",
  ["cmd/estree/main.go","ecmascript/parser"],[("main","cmd/estree/main.go")],observe=["standard output and exit status of cmd/estree"])
p("C23","Syntax errors point at a position inside the source",
  "For every rejected source the reported location's row is between 1 and the number of rows of the source and its column is between 1 and one past the length of that row, and it does not lie before the end of the last token that was consumed successfully before the offending one (where only the word after let or async shows that this word was no name, it is the offending one).",
  ["inputs"],"every rejected source text",
  "Tests only check that the message contains `syntax error`.",
  [PSC,SC,PP],[("SyntaxError location",PSC),("position tracking",SC)],observe=["errs.SyntaxError.Location"])
p("C24","Clearing spans removes positions and nothing else",
  "After clearing the spans of the tree of a program that was parsed (handed over as parsing returned it or by reference), no node below its root, and not the root itself if it was handed over by reference, reports a source position, and every other field of every node is unchanged.",
  ["inputs"],"every tree",
  "Tests call it but ignore spans when comparing.",
  ["ecmascript/ast/node.go"],[("reflective walk","ecmascript/ast/node.go")],observe=["ast.ClearSpans"])
p("C25","The browser entry point returns either a result or an error",
  "For every source string handed to the browser parse function, whatever it was called with before, the returned object has exactly one of the fields result (the JSON ESTree text of the script) and error (the message); it never throws.",
  ["inputs"],"every source string",
  "The package is only compiled by the build, no test runs it.",
  ["web/parser/parser.go"],[("ParseES","web/parser/parser.go")],observe=["ParseES"])
p("C26","Every program of the supported grammar parses to its derivation's tree",
  "Every program that the ECMAScript grammar derives out of the supported constructs - expressions of every operator, member accesses, calls, optional chains, new, literals, arrays, objects, destructuring, functions, arrows, classes, all statements, declarations and import declarations, with directives, omitted semicolons where they can be inserted, trailing commas and line breaks wherever they mean nothing - is accepted in its mode, and its ESTree is the one of that derivation.",
  ["inputs"],"every derivation of the grammar",
  "The bundled tests parse some 80 programs; most pairs of constructs (one inside of the other) occur in none of them.",
  [PE,PS,PD,PM,"ecmascript/ast"],[("expression productions",PE),("statement productions",PS),("declarations and patterns",PD),("imports",PM)],observe=["parser.Parser.Parse","ast.Node.ESTree"])
p("C27","Layout between tokens never changes what a program means",
  "White space, line terminators and comments between two tokens (or nothing, where the tokens do not merge) only separate them: a program with other trivia at a place is accepted or rejected alike and gives the same ESTree, as long as there is a line terminator at this place (also inside of a comment) in both or in neither.",
  ["inputs"],"every program, every place in it and every trivia",
  "The tests contain blanks and line feeds only, and a comment in none of the programs whose trees are compared.",
  [L,PP,PE,PS],[("comment and white space consumers",L),("preceding-line-break flag",L),("line break tests",PP)],observe=["parser.Parser.Parse"])
p("C28","Assignments, loop heads, declarations and clauses have legal forms only",
  "In every program that is accepted, what =, a compound assignment, ++, -- or the head of a for-in or for-of statement assigns to is a name or a member access (also in parentheses, but no optional chain) or, for = and the heads, an array or object pattern made of such targets and defaults; patterns and constants that are declared have initializers, except in a for-in or for-of head, which declares exactly one binding without initializer (but for `var name = value in` outside of strict code); the iterable of for-of is no sequence; a switch has at most one default and a try has a catch or a finally; what a control statement or a label governs is a statement, not a lexical or class declaration; and no expression statement begins with {, function, class, async function (on one line) or let [. Calls as targets, the number of parameters of accessors, the places of return, break, continue and yield, and names declared twice are outside of the property.",
  ["inputs"],"every token sequence at every place with a restricted form",
  "The tests contain no program that has to be rejected for its form; the parser takes expressions and patterns first and has to reject the wrong ones afterwards, at several places.",
  [PE,PS,PD],[("assignment and update operands",PE),("for headers, switch, try, sub-statements",PS),("declarations",PD)],observe=["parser.Parser.Parse"])
p("C29","Recorded spans cover exactly the source of their node",
  "In every program that is accepted, every statement, declaration and import, the program itself, and every expression but names, literals, this, class expressions and calls of a function named async records its source span with both ends (regular expressions do, too), and every span that is recorded starts neither before the end of the token in front of the node nor after the start of the node's first token, and ends exactly where its last token ends (for an expression statement: its last token but the semicolon, or the semicolon). So the spans of nested nodes are nested and those of neighbours do not overlap, whatever lines the tokens are on.",
  ["inputs"],"every program and every node of its tree",
  "The tests clear all spans before they compare trees.",
  [PE,PS,PD,PM,PP,"ecmascript/ast/node.go"],[("setStart and setEnd",PP),("spans of expressions",PE),("spans of statements",PS)],observe=["ast.Node.Span"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
