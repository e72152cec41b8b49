#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
LEX="src/lexer/mod.rs"; POS="src/lexer/position.rs"; SI="src/parser/statement_iterator.rs"; BL="src/parser/blocks.rs"
ST="src/parser/statements/"; EX="src/parser/expression/"
HOOK="cfg(lolcode_verif): a read-only export of the syntax tree (its fields are crate-private)"
NOLEX="No existing test runs the lexer on text: all 47 build tokens by hand."
p("C01","Any input yields a result, never a crash or a hang",
 "Tokenizing any Unicode text and parsing any list of tokens always returns normally: no panic, no endless loop. The only failure tokenizing reports is a multi-line comment that is never closed; every parse problem is reported as an error node inside the returned tree. Asking the returned tree for its errors, ranges and tokens never panics either.",
 ["inputs"],"all Unicode strings, and all vectors of tokens (also ones no text produces)",
 NOLEX+" They reach a few well-formed lines and some missing-token errors; arbitrary bytes, non-ASCII characters and truncated statements are never tried.",
 [LEX,"src/lib.rs",ST+"mod.rs",EX+"mod.rs",BL,SI],
 [("slicing of the remaining text at token ends",LEX+" make_token and parse_*"),("fallback token for any other character",LEX+" tokenize"),("errors turned into nodes",BL+" parse_block")],
 ["tokenize","parse","tokenize_and_parse","ASTBlock::iter_errors"],hook=HOOK)
p("C02","Tokens tile the source text",
 "The tokens of a text come in source order, do not overlap, are not empty, and lie inside the text on character boundaries; whatever lies between them is only blank space (space, tab, carriage return, line feed). The stretch of text a token spans is the spelling of what the token says it is, so the source can be rebuilt from the tokens and the blanks without losing or inventing anything.",
 ["inputs"],"all Unicode texts that tokenize successfully",
 NOLEX+" So neither the ranges nor their contents are ever compared with a text.",
 [LEX,POS,"src/lexer/range.rs","src/lexer/token.rs"],
 [("range and consumed text come from the same slice",LEX+" make_token"),("blank skipping",LEX+" parse_whitespace")],
 ["tokenize: Token.range and Token.token_type"],state=[("bytes","byte offset of a position",POS)])
p("C03","Positions tell the truth",
 "Every start and end position reported for a token or a lexing error gives the true line (1 + line feeds before it), column (1 + characters since the line began), byte offset and character offset in the source. Advancing a position over a piece of text yields the position just after that text, whether done at once or piecewise. Two positions of one text are equal exactly when their offsets are, and are ordered like their offsets.",
 ["inputs"],"all texts (tabs, CRLF, multi-byte characters, strings and comments spanning lines), all pieces of text added to a position",
 NOLEX+" Test helpers fabricate ranges by their own arithmetic.",
 [POS,LEX,"src/lexer/range.rs"],
 [("Position + &str / += &str",POS),("line counting in blanks",LEX+" parse_whitespace"),("error range",LEX+" tokenize")],
 ["Token.range","TokenError","Position + &str","Position == / <"],
 state=[("line,column,bytes,chars","the four counters of a position",POS)])
p("C04","Words are whole: keywords never split a name",
 "A run of letters, digits and underscores that starts with a letter or underscore is one identifier, spelled exactly as written, unless the run is a keyword or literal word by itself (or starts a multi-word keyword or a comment). In particular a name that merely begins with, ends with or contains a keyword or literal word (such as ARRAY, FAILURE, ANIMAL, OMGLOL, xAN) stays one identifier, and a keyword is recognised only where it stands as a whole word.",
 ["inputs"],"all names, in particular every keyword and literal word extended by any letters, digits or underscores on either side, in any surrounding context",
 NOLEX+" No name is ever lexed next to a keyword prefix.",
 [LEX,"src/lexer/keywords.rs"],
 [("keyword lookup with word boundary",LEX+" parse_keyword, parse_boolean, parse_noob"),("identifier scan",LEX+" parse_identifier")],
 ["tokenize: Token.token_type"])
p("C05","Every keyword is recognised from its spelling and prints back",
 "Every LOLCODE keyword has one spelling (its words separated by single spaces), different from all others, which the library reports for it. That spelling, standing in a text as whole words between blanks, separators or text ends, is tokenized as that very keyword as a single token; the two truth values and the untyped value are tokenized as literals, and the comment openers as comments.",
 ["inputs","configurations"],"all 61 keywords, in every context and next to every other keyword",
 "Keyword spellings come from a derive macro no test looks at: replacing the blanks by dashes left all 47 tests passing.",
 ["lolcode-ast-derive/src/lib.rs","src/lexer/keywords.rs","src/to_string_slice.rs",LEX],
 [("spelling generated from the variant name","lolcode-ast-derive/src/lib.rs derive_to_string_slice"),("enumeration of all keywords","lolcode-ast-derive/src/lib.rs derive_iterable_enum"),("choice among keywords",LEX+" parse_keyword")],
 ["Keywords::to_string_slice","tokenize"])
p("C06","Literals keep their value",
 "A number literal (optional sign, decimal digits, at most one dot) is one token: without a dot its integer value, with a dot the nearest 32-bit float, wherever it stands, including at the very end of the text. A string literal runs from its opening quote to the first quote that is not escaped (a colon escapes a following quote or colon) and carries exactly the raw text in between, any characters and line breaks included; a string never closed extends to the end of the text. WIN, FAIL and NOOB standing alone carry true, false and no value.",
 ["inputs"],"all number spellings, all string bodies over all of Unicode, all positions in a text",
 NOLEX+" No literal is ever read from text.",
 [LEX,"src/lexer/token.rs"],
 [("number scan and conversion",LEX+" parse_number"),("string scan",LEX+" parse_string"),("truth values and NOOB",LEX+" parse_boolean, parse_noob")],
 ["tokenize: TokenType::Value"])
p("C07","Comments are delimited exactly",
 "A single-line comment runs from its BTW opener up to, and not including, the end of its line (or of the text); a multi-line comment runs from OBTW through the first following TLDR; each is one token carrying exactly the text between, and nothing inside a comment or a string is tokenized separately. Tokenizing fails exactly when a multi-line comment is opened and never closed, and the error spans from that opener to the end of the text.",
 ["inputs"],"all comment bodies (quotes, keywords, nested openers, multi-byte text, empty, at end of text) and all places where a comment can stand",
 NOLEX+" No comment is lexed by any test.",
 [LEX],[("single-line comments",LEX+" parse_single_line_comment"),("multi-line comments",LEX+" parse_multi_line_comment")],
 ["tokenize: comment tokens and TokenError"])
p("C08","Comments do not change the parse",
 "Adding comments to a program (a single-line comment at the end of any line, a comment on a line of its own, a multi-line comment without line breaks between any two tokens, or one with line breaks between two statements) yields the same syntax tree, errors included, up to source positions.",
 ["inputs","programs"],"all programs, well-formed or not, and all insertions of comments at token gaps that leave the line structure as it was",
 "No test parses a token list that contains a comment.",
 ["src/parser/mod.rs",SI],[("comments dropped before parsing","src/parser/mod.rs parse")],["parse","tokenize_and_parse"],hook=HOOK)
p("C09","Blank space and layout do not change the parse",
 "Changing the amount or kind of blank space between tokens (spaces, tabs, indentation, trailing blanks, blank lines, CRLF instead of LF line ends, a missing final line end) changes neither the tokens nor the syntax tree, except for source positions.",
 ["inputs","programs"],"all programs, well-formed or not, and all re-layouts that keep tokens apart and on the same lines",
 "Tests use one fixed artificial layout, made without text.",
 [LEX,SI],[("blank skipping",LEX+" parse_whitespace"),("statements delimited by line number",SI+" next")],["tokenize","tokenize_and_parse"],hook=HOOK,
 state=[("current_line","line whose tokens belong to the current statement",SI)])
p("C10","Commas, line ends and continuations delimit statements consistently",
 "A comma separates statements exactly like a line end, repeated or leading or trailing separators add nothing, and an ellipsis (three dots or the single ellipsis character) at a line's end joins the next line to the statement as if it were on the same line. Rewriting a program by these equivalences gives the same syntax tree up to source positions, and a string that spans lines does not end the statement it stands in.",
 ["inputs","programs"],"all programs, well-formed or not, and all combinations of commas, line ends and continuations between statements and inside them, at any block depth",
 "Tests use a comma in three hand-made token lists and never an ellipsis.",
 [SI,BL,LEX],[("statement boundary decision",SI+" next"),("skipping separators",SI+" next_statement"),("ellipsis token",LEX+" parse_ellipsis")],
 ["parse","tokenize_and_parse"],state=[("current_line","line whose tokens belong to the current statement",SI)],hook=HOOK)
p("C11","Expressions parse to the tree they denote",
 "Every well-formed expression, written in prefix notation from literals, variables (with slot accesses and SRS), the unary, binary and any-arity operators in any nesting, with the optional AN between operands and the optional MKAY at the end of the statement, parses without error to exactly the tree it denotes: the same operators, operands in the written order, nothing added or dropped.",
 ["inputs","programs"],"all well-formed expressions, in every statement that takes one",
 "Only a handful of fixed expressions, at most three operators deep, are parsed by tests; most operators are never parsed.",
 [EX+"mod.rs",EX+"binary_operation.rs",EX+"nary_operations.rs",EX+"unary_operation.rs",EX+"variable_access.rs",EX+"identifier.rs"],
 [("recursive descent on the operator keyword",EX+"mod.rs ASTExpression::parse"),("operand loops",EX+"nary_operations.rs, binary_operation.rs")],
 ["tokenize_and_parse"],hook=HOOK)
p("C12","Simple statements parse to what they say",
 "Every well-formed simple statement (version header, end of program, declaration with no value, a value or a type, assignment, slot declaration, print with any number of expressions and optional exclamation mark, input, return with and without value, function call with any number of arguments, bare expression) parses without error to one node of that kind, holding exactly the names, slots, types, expressions and argument lists written, in the written order.",
 ["inputs","programs"],"all well-formed simple statements",
 "One or two fixed token lists per statement kind; kinds such as return without value, end of program and expression statements have no test.",
 [ST+f for f in ["mod.rs","assignment.rs","bukkit_set_slot.rs","found_yr.rs","gimmeh.rs","gtfo.rs","hai.rs","i_has_a.rs","i_is.rs","kthxbye.rs","visible.rs"]],
 [("dispatch on the first token",ST+"mod.rs parse_statement")],["tokenize_and_parse"],hook=HOOK)
p("C13","Blocks own exactly the statements between opener and closer",
 "Every well-formed function, loop, conditional and switch parses without error to one node whose clauses (parameters; loop label, operation, operand and condition; branches and cases in written order; default branch) are those written and whose bodies hold exactly the statements written in them. This holds for any nesting of blocks in blocks, for empty bodies and absent optional clauses, and whatever statements precede or follow the block.",
 ["programs"],"all well-formed block statements with any bodies, nested to any depth",
 "Nine fixed blocks, never nested and never with an empty body; what follows a block is not looked at.",
 [BL,ST+"how_is_i.rs",ST+"im_in_yr.rs",ST+"o_rly.rs",ST+"wtf.rs"],
 [("body parsing up to a closing keyword",BL+" parse_block*"),("clause order",ST+"o_rly.rs, wtf.rs, im_in_yr.rs, how_is_i.rs")],["tokenize_and_parse"],hook=HOOK)
p("C14","Programs parse statement by statement, in order",
 "The tree of a program holds one entry per statement, in source order, none lost, merged or repeated: if a text A parses without error and does not end in an open string or a continuation, then parsing A, a line end and any text B gives the entries of A followed by the entries that B gives alone, up to source positions. This includes statements directly after a version header, a function, a loop, a conditional or a switch.",
 ["programs","inputs"],"all error-free texts A and all texts B",
 "Tests parse one statement at a time; only two of them parse a short list.",
 ["src/parser/mod.rs",BL,SI,ST+"hai.rs",ST+"how_is_i.rs",ST+"wtf.rs"],
 [("statement loop",BL+" parse_block"),("advance to the next statement",SI+" next_statement")],["tokenize_and_parse","ASTBlock"],hook=HOOK)
p("C15","A malformed simple statement spoils only itself",
 "Replacing one simple statement of an error-free program, at any depth, by a malformed one that neither opens, continues nor closes a block produces at least one error entry at that place, and leaves the entries of all other statements, before and after it and in enclosing and enclosed blocks, as they were up to source positions.",
 ["programs","inputs"],"all error-free programs, all of their simple statements, all malformed replacements on one line",
 "No test parses a malformed statement among others.",
 [BL,SI,ST+"mod.rs"],[("error recovery at the statement end",BL+" parse_block"),("left-over tokens",SI+" next_statement_should_be_empty")],["tokenize_and_parse"],hook=HOOK)
p("C16","Mistakes get the documented diagnosis and the right token",
 "Each documented mistake is reported with its documented error kind, carrying the token the documentation names: a missing or invalid name, label, operand, value, type, argument, condition, question mark, assignment word, call end or block closer, an operator without operands, an unexpected token, or left-over tokens after a complete statement (all of them, in order). A well-formed program yields no error.",
 ["inputs","programs"],"all statement forms cut short at every token, with any one token replaced, and with tokens appended",
 "Thirteen fixed mistakes; most documented kinds are never produced by a test.",
 ["src/parser/error.rs",SI]+[ST+f for f in ["mod.rs","assignment.rs","i_has_a.rs","i_is.rs","im_in_yr.rs","o_rly.rs","wtf.rs","how_is_i.rs","bukkit_set_slot.rs"]]+[EX+"mod.rs"],
 [("error constructors at each expectation",ST+"*.rs parse")],["ASTBlock entries of error kind"],hook=HOOK)
p("C17","Tokens are conserved between source and tree",
 "Every token in a syntax tree, error entries included, is one of the tokens parsed, unchanged, and appears in the tree at most once. In an error-free tree, each name, literal, type, operator and statement keyword of the source appears exactly once; the only tokens left out are separators, continuations, comments and fixed connecting or closing words.",
 ["inputs","programs"],"all texts and token lists, well-formed or not",
 "Tests compare single expected nodes; none counts what was dropped or duplicated.",
 [SI,BL,ST+"mod.rs",EX+"mod.rs"],[("tokens moved, not copied, into nodes",ST+"*.rs, "+EX+"*.rs")],["parse: tokens in the tree against tokens given"],hook=HOOK)
p("C18","Expressions know their own tokens and extent",
 "For every expression, variable access, operation and assignment in a tree, iterating over its tokens yields exactly the source tokens it was parsed from, each once, in source order, and then nothing more. Its range starts where its first token starts and ends where its last token ends. The token reported for an operator is the operator's own keyword.",
 ["inputs","programs"],"all expressions and assignments in all trees, at any depth",
 "Twelve fixed iterations; no test looks at a range.",
 [EX+f for f in ["mod.rs","binary_operation.rs","nary_operations.rs","unary_operation.rs","variable_access.rs","variable_access_iterator.rs","identifier.rs","identifier_iterator.rs"]]+[ST+"assignment.rs"],
 [("iterator state machines",EX+"*_iterator.rs, mod.rs"),("range",EX+"mod.rs, variable_access.rs, identifier.rs")],["tokens()","range()"],hook=HOOK)
p("C19","Iterating over errors finds every error once",
 "Iterating over the errors of a program visits every error entry of the tree exactly once, at any block depth (functions, loops, every branch and case), in source order, and nothing else; an error-free tree yields none.",
 ["programs","inputs"],"all trees, in particular errors nested in any combination of blocks",
 "No test iterates over errors.",
 [BL],[("walk over nested blocks",BL+" ASTBlockErrorIterator, Node::get_inner_block")],["ASTBlock::iter_errors"],hook=HOOK)
p("C20","Results depend on the input alone",
 "Tokenizing and parsing are functions of their input: the same text gives the same tokens and tree, positions included, however often it is processed, whatever was processed before, and however many threads process texts at the same time. Doing both in one call gives the same as doing one after the other.",
 ["schedules","histories","inputs"],"all orders, repetitions and thread interleavings of calls on all inputs",
 "Each test makes one call in one thread.",
 ["src/lib.rs",LEX,"src/parser/mod.rs"],[("no shared state; tokenize_and_parse composes the two","src/lib.rs")],["tokenize","parse","tokenize_and_parse"],hook=HOOK)
p("C21","Size and nesting do not change the outcome, and cost stays linear",
 "Long inputs (many statements, lines, arguments, operands, accesses; long names, strings, comments and lines) and deep inputs (expressions and blocks nested hundreds deep) parse by the same rules as small ones, with true positions throughout. Memory used and work done grow in proportion to input size.",
 ["inputs","configurations"],"all sizes up to the megabyte range and all nesting depths up to several hundred levels",
 "The longest input of a test has 13 tokens; the deepest nests three levels.",
 [LEX,SI,BL,EX+"mod.rs"],[("single pass over the text and the tokens",LEX+" tokenize, "+SI)],["tokenize","parse"],hook=HOOK)
p("C22","Processing is free of undefined behaviour and memory errors",
 "Tokenizing, parsing, walking, comparing, copying and dropping trees touch only memory they own, leave nothing allocated once results are dropped, and produce only valid text and values, for any input.",
 ["inputs","schedules"],"all inputs; any number of threads",
 "Tests run without sanitizers on small ASCII data.",
 [LEX,SI,BL],[("safe Rust only; slices on character boundaries",LEX)],["AddressSanitizer, LeakSanitizer, ThreadSanitizer, Miri, counting allocator"],hook=HOOK)
p("C23","Parsing any token list follows the grammar to the letter",
 "For every list of tokens, well-formed or not, the parse result is the one the LOLCODE grammar and the documented error rules prescribe: which statements are recognised, where each statement and block begins and ends, which entries are errors and with which tokens, and where parsing resumes after an error.",
 ["inputs","histories"],"all token lists, including ones no text produces",
 "Tests sample 35 fixed token lists, nearly all of them well-formed and a single statement long.",
 ["src/parser/mod.rs",SI,BL,ST+"mod.rs",EX+"mod.rs"],[("recursive descent over statements",BL+", "+ST+"*.rs"),("statement iterator",SI)],["parse"],hook=HOOK)
p("C24","Tokenizing any text follows the lexical rules to the letter",
 "For every text, the tokens are the ones the lexical rules prescribe: at each point blanks are skipped, then the longest comment, mark (comma, exclamation mark, question mark, slot access, ellipsis), literal, whole-word keyword or identifier is taken, and any other single character becomes a symbol token of its own. Digits that make a number too large for its type are not taken as a literal at that point.",
 ["inputs"],"all Unicode texts, valid LOLCODE or not",
 NOLEX,
 [LEX,"src/lexer/keywords.rs"],[("order of token rules",LEX+" tokenize")],["tokenize"])
p("C25","Tokenizing is local to a line",
 "If a text A tokenizes and ends outside any open string, then tokenizing A, a line end and any text B gives the tokens of A followed by the tokens B gives alone, shifted by the size of what precedes them; if tokenizing B fails, it fails in the same way, with a shifted range.",
 ["inputs","histories"],"all pairs of texts with A ending outside an open string",
 NOLEX,
 [LEX,POS],[("lexer state is only the remaining text and the position",LEX+" tokenize")],["tokenize"])
p("C26","Results compare, copy and convert by what they contain",
 "Two tokens compare equal exactly when they are of the same kind, carry the same value and span the same lines and columns; two positions when line and column agree; two ranges when both ends do; two entries, errors or syntax trees when they have the same structure with equal tokens throughout. Comparing gives the same answer from either side, and != is its opposite. A copy has the same contents as its original (offsets included), compares equal to it, and neither changes with the other. Turning a block into its entries yields each of them once, in order, and a block built from them equals the original; an empty block has no entries and no errors. A range made from a pair of positions keeps both, one made from a single position has it at both ends; the default position is line 1, column 1, offset 0; a position is shown as its line followed by its column, and tokens that differ are shown differently. A token made into a literal value or a type, where it is one, and a statement, expression or error made into an entry hold what they were made from; tokens that are none are refused and come back unchanged.",
 ["inputs"],"all pairs of tokens, positions, ranges, errors and trees, in particular pairs that differ in exactly one spelling, value, kind, line, column or entry",
 "Every existing test judges by comparing trees for equality: a comparison that overlooks a difference makes them all pass more easily, and none asserts that two results differ.",
 ["src/lexer/range.rs",POS,"src/lexer/token.rs",BL,"src/lexer/keywords.rs"],
 [("equality of ranges","src/lexer/range.rs PartialEq for Range"),("equality and display of positions",POS),("derived equality and copies","src/parser/statements/*.rs, src/parser/expression/*.rs"),("blocks from and into entries",BL+" From<[Node; T]>, IntoIterator")],
 ["== and != on Token, Position, Range, TokenError, Node, ASTErrorType, ASTBlock","clone","ASTBlock::into_iter","ASTBlock::from","Range::from"],hook=HOOK)
p("C27","Names, values and places mean nothing to the parser",
 "Renaming the identifiers of a program, replacing its literal values by others of the same type (consistently, different ones staying different), and moving its tokens (tokens that share a line still sharing one, later lines staying later, columns and offsets changing at will) changes nothing in the syntax tree but those names, values and places: the same entries, errors included, holding the same tokens.",
 ["inputs"],"all token lists, all consistent renamings to any text (keyword spellings, empty and very long names included), all revaluations, all order-preserving placements",
 "The tests name everything VAR or one of a few words, use a handful of small values, and number all tokens alike: a rule that holds for those names, values or columns only passes them.",
 ["src/parser/mod.rs","src/parser/statement_iterator.rs","src/parser/statements/*.rs","src/parser/expression/*.rs"],
 [("statement boundaries decided by line alone","src/parser/statement_iterator.rs next"),("tokens told apart by kind alone","src/parser/statements/*.rs, src/parser/expression/*.rs")],
 ["parse"],hook=HOOK)
p("C28","A block's body parses like a program",
 "Wherever a text stands as the body of a block (of a function, a loop, any branch of a conditional, any case of a switch), at any depth, the block's body holds exactly the entries that the text gives when it is parsed by itself, errors included, provided that it leaves no block, string or continuation open and holds none of that block's own dividing or closing words; and the block around it is the same as with any other body.",
 ["inputs"],"all texts, malformed ones included, under all kinds of block and all nestings of them",
 "The tests parse bodies of one or two well-formed statements in one kind of block at a time; that error recovery, separators and nested blocks work in every body as they do at the top takes every text in every place.",
 [BL,"src/parser/statements/how_is_i.rs","src/parser/statements/im_in_yr.rs","src/parser/statements/o_rly.rs","src/parser/statements/wtf.rs"],
 [("one loop for all kinds of block, differing in the words that end it",BL+" parse_block_*")],
 ["parse","tokenize_and_parse"],hook=HOOK)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
for x in P:
    assert len(x["title"])<=80,x["id"]
