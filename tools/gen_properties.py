#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **extra):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(extra)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("T01", "Tokens reproduce the source text exactly",
 "For every source text (a sequence of Unicode characters other than NUL), the token stream (with blanks and comments loaded) is a gap-free, overlap-free sequence of non-empty tokens whose raw texts concatenate to exactly that text, followed by end-of-file at its end, repeatedly. With blanks and/or comments not loaded the stream is the same one minus exactly the blank and/or comment tokens.",
 ["inputs"], "every source text (sequence of Unicode characters other than NUL)",
 "The tokenizer tests feed a few dozen literal snippets; a lost, duplicated or swallowed character appears only for particular neighbours (comment openers at end of file, a number next to dots, an unknown character).",
 ["token/tokenizer.go", "token/comment.go", "token/string.go", "token/numeral.go", "token/special_symbols.go", "token/word.go", "token/space.go", "runes/cursor.go"],
 [("token dispatch", "token/tokenizer.go"), ("rune cursor", "runes/cursor.go"), ("per-class scanners", "token/*.go")])

prop("T02", "Every token gets the lexical class its text demands",
 "For every source text (a sequence of Unicode characters other than NUL), each token is the longest lexeme of the Object Pascal class its first characters select: blanks, the three comment forms, quoted strings, integer and real numerals (a range's '..' never eaten by a numeral), two-character symbols before one-character symbols, and words, which are reserved words exactly when they spell one in any letter case and identifiers otherwise. A character that starts no lexeme never aborts tokenizing or disappears.",
 ["inputs"], "every source text; every position in it; every letter-case variant of every word",
 "Tests list sample lexemes; class boundaries depend on all pairs/triples of adjacent characters and on all case variants of every reserved word.",
 ["token/comment.go", "token/string.go", "token/numeral.go", "token/special_symbols.go", "token/word.go", "token/space.go", "token/reserved_words.go", "runes/word.go", "runes/digit.go"],
 [("scanner order", "token/tokenizer.go: processors"), ("reserved word table", "token/reserved_words.go"), ("symbol tables", "token/special_symbols.go")])

prop("T03", "Token and identifier positions are exact",
 "The start and end recorded for every token and for every identifier in a returned syntax tree are its true index, line and column in the source (lines counted by line feeds, columns by characters, both from 1), whatever precedes it: multi-line comments, strings, blank lines, or text the parser looked ahead over and re-read. (A text starting with a line feed is the one recorded exception; see the known findings.)",
 ["inputs"], "every source text and every token/identifier in it, including those re-read after look-ahead",
 "Tests check a handful of one- or two-line texts; line accounting depends on where line feeds fall relative to token boundaries and to parser look-ahead.",
 ["runes/cursor.go", "runes/position.go", "token/token.go", "ast/astcore/ident.go", "parser/base.go"],
 [("line/column accounting", "runes/cursor.go: Next, Clone"), ("look-ahead rollback", "parser/base.go: RollbackPoint"), ("identifier locations", "ast/astcore/ident.go: NewIdent")])

prop("P01", "Parsing any text terminates with a tree or an error, never a crash",
 "For every source text, parsing it as a program, unit, block, statement, expression, type or declaration section returns after finitely many steps with either a complete syntax tree or an error. It never panics, never runs forever, and never returns neither (or both).",
 ["inputs"], "every source text (valid, malformed or truncated anywhere) and every parse entry point",
 "Tests parse well-formed texts and a few chosen errors; crashes and endless loops hide behind particular wrong or missing tokens at particular grammar states.",
 ["parser/*.go", "token/*.go", "ast/type_class.go", "ast/type_id.go"],
 [("token loop helpers", "parser/base.go: Until, Next, Current"), ("assembler skipping", "parser/statement_asm.go"), ("string scanning", "token/string.go"), ("class ancestry walks", "ast/type_class.go")])

prop("P02", "Expression trees follow operator precedence and grouping",
 "For every valid expression, the returned tree has exactly the operands and operators of the source, in source order, grouped by the language's precedence (unary/not and designator suffixes bind tightest, then multiplicative, additive, relational; equal precedence left to right; parentheses, index lists, argument lists, set constructors and type casts keep their own contents).",
 ["inputs"], "every valid expression derivable from the grammar, every operator and operand kind in every position",
 "Tests cover selected operator pairs; precedence errors show only for particular operator/operand combinations and nesting.",
 ["parser/expression.go", "ast/expression.go", "parser/unit.go"],
 [("precedence climbing", "parser/expression.go: ParseExpression/ParseSimpleExpression/ParseTerm/ParseFactor"), ("designators", "parser/expression.go: ParseDesignator")])

prop("P03", "Statement trees mirror the source structure",
 "For every valid statement (assignment, call, compound, if/else, case, repeat, while, for to/downto, with, try/except, try/finally, raise, goto, labelled, inherited, asm) the returned tree holds exactly the statements, conditions, bounds, labels and handlers of the source, in order and at their nesting level; an else belongs to the nearest open if.",
 ["inputs"], "every valid statement derivable from the grammar, nested to any depth",
 "Tests cover each statement kind alone or in one nesting; attachment mistakes need particular nestings (else under loops, handlers inside handlers, list separators).",
 ["parser/statement.go", "parser/statement_conditional.go", "parser/statement_loop.go", "parser/statement_try.go", "parser/statement_with.go", "parser/statement_raise.go", "parser/statement_asm.go", "ast/statement.go"],
 [("statement dispatch", "parser/statement.go: ParseStatement"), ("statement lists", "parser/statement.go: ParseStmtList"), ("exception handlers", "parser/statement_try.go")])

prop("P04", "Declarations and types are represented faithfully",
 "For every valid constant, type, variable, thread-variable or label section, the returned tree lists exactly the declared names in order with exactly the written types and values: enumerations, subranges, arrays, sets, files, records with variants, pointers, procedural types, strings with and without length, qualified and plain type names, packed and portability markers, absolute and initial values.",
 ["inputs"], "every valid declaration section derivable from the grammar",
 "Tests sample each type form once or twice in one context; faults depend on a form inside another form, or on what follows it.",
 ["parser/const.go", "parser/var.go", "parser/type.go", "parser/type_simple.go", "parser/type_struc.go", "parser/type_string.go", "parser/type_procedure.go", "parser/ident_list.go", "parser/block.go"],
 [("type dispatch", "parser/type.go: ParseType"), ("structured types", "parser/type_struc.go"), ("section loops", "parser/type.go, parser/var.go, parser/const.go")])

prop("P05", "Class declarations are represented faithfully",
 "For every valid class declaration, the returned tree holds exactly its ancestors, its member sections with the written visibility, and in each section the fields, methods (kind, name, parameters, result, directives) and properties (index parameters, type, index, read, write, stored, default, nodefault, implements) of the source, in order.",
 ["inputs"], "every valid class declaration: any mix of sections, members and specifiers",
 "Tests use a few fixed classes; members are dropped or misplaced only for particular sequences of member kinds, directives and specifiers.",
 ["parser/type_class.go", "ast/type_class.go", "parser/function_heading.go"],
 [("member sections", "parser/type_class.go: ParseClassMemberSection"), ("method directives", "parser/type_class.go: ClassMethodDirectiveList"), ("property specifiers", "parser/type_class.go: ParseClassProperty")])

prop("P06", "Programs, units and routines are represented faithfully",
 "For every valid program or unit, the returned tree holds exactly its name, used units (with file paths), interface and implementation declarations, routine headings (kind, parameters with modes, types and defaults, result), directives and external options, bodies, exports, and initialization/finalization statements, in order.",
 ["programs"], "every valid program or unit text derivable from the grammar",
 "Tests use a few sample files; loss or misplacement depends on which optional parts are present together.",
 ["parser/program.go", "parser/unit_parser.go", "parser/block.go", "parser/function.go", "parser/function_heading.go", "parser/uses_clause.go", "ast/unit.go", "ast/program.go", "ast/block.go"],
 [("unit skeleton", "parser/unit_parser.go"), ("block", "parser/block.go: ParseBlock"), ("routine headings and directives", "parser/function_heading.go")])

prop("P07", "Accepted text is fully accounted for; malformed text is rejected",
 "Whenever parsing succeeds, every significant token of the accepted text is reflected in the returned tree at its place: no word, symbol, operand or declaration is skipped, invented or taken twice. A text with a token removed, added or exchanged so that it no longer follows the grammar is rejected with an error.",
 ["inputs"], "every sequence of tokens offered to a parse entry point",
 "Tests check that good texts are accepted; that no bad text is accepted is a statement about all token sequences.",
 ["parser/*.go"],
 [("expected-token checks", "parser/base.go: Next, Current, Validate, Until"), ("section terminators", "parser/type.go, parser/type_struc.go, parser/unit_parser.go")])

prop("P08", "Letter case never matters",
 "Changing the letter case of any reserved word, directive, built-in type or constant name, or of any occurrence of an identifier, never changes whether a text is accepted, the shape of the resulting tree, or which declaration each name resolves to; identifiers keep the spelling written at that place.",
 ["inputs"], "every text and every assignment of upper/lower case to each of its letters",
 "Tests write each keyword in one or two casings; a case-sensitive comparison shows only for the word and site concerned.",
 ["token/word.go", "token/token.go", "token/predicate.go", "token/directives.go", "parser/*.go", "ast/astcore/decl_map.go", "ast/type_embedded.go", "ast/manifest_constants.go"],
 [("keyword normalisation", "token/token.go: Value; token/word.go"), ("directive matching", "token/directives.go, token/predicate.go: UpperCase"), ("name keys", "ast/astcore/decl_map.go: regularize")])

prop("P09", "Blanks and comments between tokens never matter",
 "Inserting or changing blanks, line breaks or comments between two tokens of a text (keeping the tokens separated as they were) never changes whether it is accepted or the resulting tree, apart from positions.",
 ["inputs"], "every text, every gap between its tokens, every filler",
 "Tests use one layout per text; a scanner or look-ahead fault needs a particular filler at a particular gap.",
 ["token/tokenizer.go", "token/comment.go", "token/space.go", "parser/base.go"],
 [("skipping", "token/tokenizer.go: GetNext"), ("look-ahead", "parser/base.go: RollbackPoint")])

prop("R01", "Names resolve to the innermost visible declaration",
 "Each name used in a block resolves, ignoring case, to the declaration of that name in the nearest enclosing scope that precedes the use (routine-local and parameters before the surrounding block, before used units, before built-ins), or to nothing if there is none. Declarations of a routine, method heading, procedural type or exception handler are invisible outside it.",
 ["programs"], "every nesting of scopes, every set of declared and used names, including equal names in different scopes",
 "Tests resolve distinct names in one or two scopes; shadowing and leaking need coinciding names and a use after the scope ended.",
 ["parser/pcontext/*.go", "ast/astcore/decl_map.go", "parser/ident.go", "parser/unit.go", "parser/function.go", "parser/base.go"],
 [("scope stack", "parser/pcontext/*_context.go: StackDeclMap"), ("chained lookup", "ast/astcore/decl_map.go"), ("reference binding", "parser/ident.go, parser/unit.go")])

prop("R02", "Redeclaring a name in one scope is rejected, in another accepted",
 "Declaring the same name twice (ignoring case) in one scope, in whatever declaration forms, is reported as an error, except that a class may complete its own forward declaration and a routine may repeat a routine's name. (Members of one class are not compared.) Declaring a name that is only declared in an outer scope, a used unit or among the built-ins is accepted and hides that one from there on.",
 ["programs"], "every pair of declarations and scopes, every spelling of the two names",
 "Tests try one duplicate in one section; detection depends on the pair of declaration kinds, scopes and casings.",
 ["ast/astcore/decl_map.go", "parser/type.go", "parser/var.go", "parser/const.go", "parser/block.go", "parser/type_simple.go", "parser/function_heading.go"],
 [("duplicate check", "ast/astcore/decl_map.go: Set"), ("type redeclaration", "parser/type.go: ParseTypeDecl")])

prop("R03", "Used units are visible, later units first, by name when qualified",
 "In a program or unit, a name not declared locally resolves to the interface declaration of the last listed unit of the same uses clause that declares it, and Unit.Name resolves to that unit's own interface declaration (an error if it has none). Declarations of a unit's implementation part, and of units it does not use, are not visible.",
 ["programs"], "every uses list, every distribution of names over unit interfaces and implementations",
 "Tests use one fixed pair of units with distinct names; order and visibility faults need coinciding names in several units.",
 ["parser/program.go", "parser/unit_parser.go", "parser/unit.go", "parser/pcontext/unit_context.go", "ast/uses_clause.go", "ast/unit.go"],
 [("import order", "parser/pcontext/unit_context.go: ImportUnitDecls; parser/program.go: LoadUnits"), ("qualified names", "parser/unit.go: ParseQualId")])

prop("U01", "Units load in dependency order for every uses graph",
 "For a program whose units use one another through their interface parts, loading succeeds exactly when that graph has no cycle, whatever order the units are listed in: every unit then sees the interface declarations of the units it uses, and the program reports each listed unit once. A cycle or a missing or malformed unit file gives an error.",
 ["configurations", "programs"], "every interface-uses graph over the listed units and every listing order",
 "Tests load one or two fixed acyclic projects; ordering faults need particular graph shapes and listing orders (and hash orders).",
 ["parser/program.go", "parser/unit_parsers.go", "parser/unit_parser.go", "ext/string_set.go"],
 [("dependency sort", "parser/unit_parsers.go: Sort, Graph"), ("load phases", "parser/program.go: LoadUnits")])

prop("U02", "A unit is loaded from the file its uses clause names",
 "Each unit that a program lists with IN 'path' is read from the file at exactly that path (backslashes taken as directory separators, letter case and all other characters kept, relative to the working directory, not the program's), the loaded unit records that path and is linked with its item in the uses clause, whose path stays as written. A unit listed without IN is not loaded, even if a file of its name exists. The program is read from exactly the given path and records it. A file that is not there is an error, never replaced by one of a similar name.",
 ["inputs"], "every path in a uses clause, every set of files",
 "Tests use a few fixed paths; blanks, letter case, mixed separators and similarly named files matter only in combination.",
 ["ast/uses_clause.go", "parser/program.go", "parser/unit_parser.go"],
 [("paths", "ast/uses_clause.go: UnquotedPath, EffectivePath; parser/program.go: LoadUnits; parser/unit_parser.go: LoadFile")])

prop("W01", "Walking a tree visits every identifier exactly once",
 "Walking a syntax tree, returned by the parser or built of the exported node types, from its root reaches every identifier of the tree, so every one written in the source (declared names, referenced names, type names, member names) exactly once, with its written spelling, never reaches identifiers that are not in the source, and stops at once with the callback's error when the callback fails.",
 ["inputs"], "every accepted text and every node kind that can occur in its tree",
 "Tests walk a couple of trees; a node kind that forgets or repeats a child is noticed only when that kind occurs.",
 ["ast/*.go", "ast/astcore/node.go"],
 [("tree walk", "ast/astcore/node.go: WalkDown"), ("child lists", "ast/*.go: Children")])

prop("C01", "Class members and properties are found along the ancestry",
 "A property's read, write and stored names resolve to the field or method of that name (ignoring case) declared so far in the class itself, in any visibility, or else in the nearest ancestor that has it non-privately, and are rejected when there is none. A property that omits the type, index, read or write part which the nearest ancestor's property of the same name (effectively) has is linked to that one, and its effective definition takes every part it omits, of all seven, from the nearest linked ancestor that gives it.",
 ["programs"], "every class chain, every placement and visibility of members, every subset of property specifiers",
 "Tests use one short chain; lookup order and merging depend on coinciding names over several levels and sections.",
 ["ast/type_class.go", "parser/type_class.go"],
 [("member search", "ast/type_class.go: FindMemberDecl, FindProperty"), ("effective property", "ast/type_class.go: ComputedProperty, InheritsFrom")])

prop("E01", "Syntax errors name the file, line and column of the offending token",
 "When a text is rejected because a token is not what the grammar expects there, the error message (of a syntax error; unknown or repeated names are reported without a place) contains the file path and the line and column of the first token at which no valid continuation exists for the construct being parsed.",
 ["inputs"], "every valid text with one token replaced by a wrong one, at every position and layout",
 "Tests check two or three messages; the reported place depends on which check rejects and on look-ahead.",
 ["parser/base.go"],
 [("error formatting", "parser/base.go: TokenErrorf, PlaceString"), ("expected-token checks", "parser/base.go: Validate")])

prop("I01", "Parsing is deterministic and independent of earlier parsing",
 "Parsing a text with a fresh parser gives the same outcome (tree, resolutions or error) every time in a process, regardless of hash-table iteration order and of what was parsed before, successfully or not, by other parsers.",
 ["histories"], "every earlier parse, every hash-table iteration order",
 "Each test parses one text in a fresh context and only once; shared tables and iteration orders are never varied.",
 ["token/special_symbols.go", "ext/string_set.go", "ast/type_embedded.go", "parser/unit_parsers.go", "parser/pcontext/program_context.go"],
 [("shared built-in tables", "ast/type_embedded.go"), ("map iteration", "token/special_symbols.go: ProcessDoubleSpecialSymbol; ext/string_set.go: Slice")])

prop("D01", "Type names classify as the type they finally denote",
 "A type name answers whether it is a real, ordinal, string, pointer or variant type exactly as the type at the end of its alias chain does, for built-in and declared types and however the name is cased; only ordinal types are accepted as array index, set element and variant selector types. A chain that never ends in a type answers no.",
 ["inputs"], "every built-in type, every declared type form, every alias chain to it",
 "Tests check a few built-ins directly; chains, casings and the whole table are not covered.",
 ["ast/type_id.go", "ast/type_embedded.go", "ast/type_simple.go", "parser/type_simple.go"],
 [("alias following", "ast/type_id.go"), ("built-in table", "ast/type_embedded.go"), ("ordinal check", "parser/type_simple.go: ParseTypeAsOrdinalType")])

prop("F01", "Forward references to types and classes get resolved",
 "Inside a type section, a reference to a type declared later in the same section (pointer base, field, parameter, ancestor or class of) is bound to that declaration when the section ends, and a forward-declared class is completed by its later full declaration; references to names never declared stay unbound.",
 ["programs"], "every order of declarations and references within a section",
 "Tests have one forward class; binding depends on which constructs refer forward and on what is declared when.",
 ["parser/type.go", "parser/type_class.go", "ast/type_forward_declaration.go"],
 [("deferred binding", "parser/base.go: AddPostSection; parser/type.go: parseTypeIdWithoutUnit"), ("forward class completion", "parser/type.go: ParseTypeDecl; ast/type_class.go: SetActualType")])

prop("L01", "Source files are decoded as Shift-JIS",
 "Source files read from disk (programs and the units they use) are decoded as Shift-JIS (Windows code page 932): the comments, strings and identifiers of a file come out as the characters that its bytes stand for, wherever in the file they are, and the file is accepted or rejected as its characters say. Byte sequences which are not Shift-JIS (and the user-defined area F040-F9FC) stand for unspecified characters; also then the file is parsed or rejected, without a crash.",
 ["inputs"], "every byte sequence of a source file",
 "Tests use a few files; the decoder's tables cover thousands of two-byte codes, and a code may lie across any boundary of the reader's buffers.",
 ["parser/program.go", "parser/unit_parser.go"],
 [("decoding", "parser/program.go: ParseProgram; parser/unit_parser.go: LoadFile")])

prop("X01", "Several goroutines may parse, and read finished trees, at the same time",
 "Goroutines that each parse texts with parsers (and contexts) of their own, and goroutines that each read an already returned tree (walk it, ask types what they are, look up members and effective properties, list declarations), may run at the same time under every schedule: there is no data race, and each gets exactly the outcome it gets alone. Parsing and reading change nothing that others can see: no shared table, and not the text the caller passed in.",
 ["schedules"], "every interleaving of any number of goroutines parsing or reading; every text",
 "No test starts a second goroutine; a shared table filled lazily, a cache inside a tree node or a buffer reused between parsers works in every sequential run.",
 ["token/reserved_words.go", "token/special_symbols.go", "ast/type_embedded.go", "ast/type_class.go", "ast/type_id.go", "ext/string_set.go", "parser/context.go", "parser/unit_parsers.go"],
 [("shared package-level tables", "token/reserved_words.go; token/special_symbols.go; ast/type_embedded.go; token/*.go"), ("queries on shared trees", "ast/type_class.go; ast/type_id.go; ast/astcore/decl_map.go"), ("per-parser state", "runes/cursor.go; parser/base.go")])

prop("Q01", "Lookups by name find exactly what the source declares under that name",
 "Asked for a name in any letter case: a class finds its own member of that name (private ones only on request), else the non-private member of its nearest ancestor having one; its property lookup finds properties likewise; a parsed unit's declarations are exactly those of its interface (elements of enumerations included; not those of the implementation, of used units or built-in ones) and those of a program that uses units its own ones; lists of identifiers, declarations, units and uses items find the first of that name. The result carries the identifier and the node of the source declaration; a name not declared there finds nothing. Every declaring node lists exactly the names it declares. A declaration table refuses a second entry of a name, returns what was entered or written over, and nested or combined tables are searched in their order.",
 ["inputs", "programs"], "every declared name, every query name, every arrangement of members, ancestors, units and tables",
 "Tests look up a few names; which declaration is found depends on letter case, visibility, shadowing along the ancestry, and the order and nesting of tables.",
 ["ast/type_class.go", "ast/unit.go", "ast/program.go", "ast/uses_clause.go", "ast/astcore/decl.go", "ast/astcore/decl_map.go", "ast/astcore/ident.go", "parser/unit_parser.go"],
 [("member lookup", "ast/type_class.go: FindMemberDecl, FindProperty"), ("declaration tables", "ast/astcore/decl_map.go"), ("unit declarations", "parser/unit_parser.go: ParseUnitIntfBody"), ("names a node declares", "ast/*.go: ToDeclarations")])

prop("T04", "Looking ahead never changes what is read next",
 "From any point of any text, a cloned tokenizer (or cursor) yields exactly the tokens (class, text, places) the original would yield from there, whichever of the two is advanced first and however far, and a parser that rolls back to a rollback point has the same current token and reads the same tokens again as at that point, also with nested look-aheads. Tokens handed out earlier never change, and a clone of a token, position or cursor is a copy of its own.",
 ["inputs", "histories"], "every text, every point in it, every order of advancing the original, its clones and rolling back",
 "The single clone test reads one short text; shared position objects or state lost in a clone show only when look-ahead crosses particular tokens or line ends.",
 ["token/tokenizer.go", "token/token.go", "runes/cursor.go", "runes/position.go", "parser/base.go"],
 [("cloning", "token/tokenizer.go: Clone; runes/cursor.go: Clone; runes/position.go: Clone"), ("rollback", "parser/base.go: RollbackPoint")])

prop("K01", "String sets, string lists and token predicates mean what they say",
 "A string set includes exactly what was added and not removed since, lists it sorted and once, and equals exactly the sets with the same elements; the operations of string lists (membership, equality, selection, exclusion, mapping, upper-casing, joining, reversing, sorting) give the mathematically expected list and, sorting aside, leave the list itself unchanged. A token predicate (class, symbol, keyword, text, directive in any letter case, and negations, conjunctions and disjunctions of them) holds for exactly the tokens it names; a token's value is its text, upper-cased for reserved words.",
 ["inputs"], "every string, list, set, token and combination of predicates",
 "The helpers have a test or two each; all parsing decisions go through them.",
 ["ext/string_set.go", "ext/strings.go", "token/predicate.go", "token/directives.go", "token/type.go", "token/token.go", "ast/manifest_constants.go"],
 [("sets and lists", "ext/string_set.go; ext/strings.go"), ("predicates", "token/predicate.go; token/type.go; token/directives.go")])

prop("S01", "Scopes nest: a name denotes what the innermost open scope declares",
 "For every history of opening and closing scopes, declaring and redefining names in the context of a program, of a unit, or one stacked on another context: a lookup, in any letter case, gives the declaration that the innermost open scope holds under that name, else the next outer one's, else nothing; closing a scope takes away all that was declared in it and nothing else; a name already in the innermost scope cannot be declared there again, while names of outer scopes can. A clone of a context knows what the context knows and has its path, and a scope opened on one of the two does not change the other. When a unit imports its uses clause, each item of a known unit is bound to it; then the unit's own declarations hide those of the units it uses, later units in the clause hide earlier ones, built-in types come last, and the units themselves are unchanged.",
 ["inputs", "histories"], "every sequence of operations on a context, all names",
 "One test exercises one context with one order of imports; leaks between scopes need particular histories.",
 ["parser/pcontext/program_context.go", "parser/pcontext/unit_context.go", "parser/pcontext/stackable_context.go", "ast/astcore/decl_map.go", "ast/unit.go", "ast/uses_clause.go"],
 [("scopes", "parser/pcontext/*.go StackDeclMap"), ("tables", "ast/astcore/decl_map.go"), ("imports", "parser/pcontext/unit_context.go ImportUnitDecls")])

prop("B01", "The constructors of nodes build exactly the node of their arguments",
 "Every exported constructor of the ast package (expressions, simple expressions, terms, designators, number, string and value factors, identifiers and lists of them, references, names of types and units, items of a uses clause, parameters and their types, case labels, external options, set elements, pointer, class reference and fixed string types), given its arguments in any of the forms it takes (value or pointer, identifier, token, reference, finished node), returns the node with exactly these parts: finished nodes are used as they are, nothing is dropped, doubled or left over, names keep spelling and place. A name of a built-in type given to the constructor of its kind is bound to that type in any letter case, and any other name is not bound and is of no kind.",
 ["inputs"], "every form of the arguments, every name and letter case",
 "Tests build the trees they expect with the same constructors, so an error there cancels out.",
 ["ast/expression.go", "ast/function_heading.go", "ast/type_id.go", "ast/type_simple.go", "ast/type_string.go", "ast/type_pointer.go", "ast/type_variant.go", "ast/type_embedded.go", "ast/unit.go", "ast/uses_clause.go", "ast/directive.go", "ast/statement.go", "ast/var.go", "ast/astcore/ident.go", "ast/astcore/decl.go"],
 [("expressions", "ast/expression.go New*"), ("parameters", "ast/function_heading.go NewParameter, NewFormalParm"), ("types", "ast/type_id.go NewTypeId; ast/type_embedded.go EmbeddedTypeDecl"), ("names", "ast/astcore/ident.go NewIdentFrom, NewIdentList")])

prop("Y01", "A parser can be used for one text after another",
 "A parser that is given a second text, after one that was accepted or rejected at whatever point, parses it as a new parser would: same tree or same error, positions counted from the start of the new text, the same rest. What the first text declared in its outermost scope is known in the second (and cannot be declared there again), and no name declared in an inner scope of the first text - parameters, locals, fields, members, exception variables - is, even if parsing stopped inside that scope. The tree of the first text stays as it was.",
 ["inputs", "histories"], "every two texts, every point at which the first breaks off, all names",
 "Tests use every parser once and look at nothing after an error.",
 ["parser/base.go", "parser/function.go", "parser/function_heading.go", "parser/type_class.go", "parser/type_procedure.go", "parser/statement_try.go", "parser/type.go", "parser/pcontext/program_context.go"],
 [("scopes are closed on every way out", "parser/function.go; parser/type_class.go; parser/statement_try.go"), ("pending work of a section", "parser/base.go SetupPostSectionFuncs"), ("fresh tokenizer", "parser/base.go SetText")])

prop("A01", "A construct parsed on its own is parsed as in a program",
 "The parsing methods for single constructs - a type, a type that begins with a name, a type declaration, an expression, a simple expression, a factor, a set constructor, a statement, a compound statement, a block, the section of variables, constants or types, a routine, its parameters, an exported heading, a list of names - called on the first token of the construct, accept exactly the texts that are accepted as that part of a program or unit, in the context of a program or of a unit, give the same tree with the same names, references and positions, and leave the parser on the token behind the construct. A section or body asked for as optional that is not there is no error, gives nothing and consumes nothing; asked for as required it is an error.",
 ["inputs"], "every construct and every place the parser can begin at",
 "Tests call each method on a few texts and never compare it with the whole-program parser.",
 ["parser/type.go", "parser/expression.go", "parser/statement.go", "parser/block.go", "parser/var.go", "parser/const.go", "parser/function.go", "parser/function_heading.go", "parser/ident_list.go"],
 [("methods for single constructs", "parser/*.go exported Parse methods"), ("optional and required sections", "parser/var.go; parser/const.go; parser/type.go; parser/statement.go")])

prop("G01", "Diagnostics go to the logger in force and change nothing",
 "After log.SetLogger every message written with log.Printf, log.TraceMethod or by the parser goes to that logger, once, with the format and the values it was written with, and to no other; the function SetLogger returned brings back the logger that was in force before, to any depth, when the loggers are taken away in the reverse order. TraceMethod writes the name and START at once, and the name and END when the function it returned is called. What a text is parsed to, or the error it is rejected with, does not depend on the logger; parsing leaves the logger in force, and of the traces it writes each one is ended, the inner ones first, also when the text is rejected.",
 ["inputs", "histories"], "every history of loggers and messages and every text",
 "Tests install one logger for the length of a test and never look at what it gets.",
 ["log/base.go", "parser/base.go", "parser/type_class.go"],
 [("stack of loggers", "log/base.go SetLogger, Printf, TraceMethod"), ("traces of the parser", "parser/base.go TraceMethod, Logf; ast/type_class.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
