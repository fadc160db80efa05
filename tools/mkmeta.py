#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (a development aid; both files are committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                observe_at=["standard output, exit status and files of the compiled program",
                                            "exit status and diagnostics of lacsap"], hook_needed=None)),
              technique, note))


MODEL = ("generated Pascal programs (typed grammar, choice-sequence shrinking) compiled and run by the real compiler and "
         "runtime; oracle: a reference interpreter written independently of lacsap")
NOTE = ("exploration: every generated case within the stated grammar is compared with the reference; trusts the "
        "reference interpreter, the LLVM backend, clang as linker and the host's libc; ")
WHY = "the test programs are a few hundred fixed sources with one expected output each; "

prop("C01", "Integer arithmetic yields exact 32/64-bit results",
     "For every integer, longint and integer-subrange expression whose operations stay in range, the compiled program "
     "computes exactly the mathematical value: + - *, div truncating toward zero and mod with the sign of the dividend, "
     "pow, bitwise and/or/xor/not, shl and logical shr, abs, sqr, odd, succ, pred, min, max and sign, with Pascal "
     "operator precedence and left associativity. An operation with one longint operand is done in 64 bits. Literals and named "
     "constants have exactly the value they denote.",
     ["programs", "inputs"], "all well-typed integer expressions and operand values without overflow or division by zero",
     WHY + "operand values, operator nesting and 32/64-bit mixes are unbounded",
     ["expr.cpp", "builtin.cpp", "semantics.cpp", "parser.cpp", "token.cpp"],
     [("binary operator code generation", "expr.cpp IntegerBinExpr, PowerInt, BinaryExprAST::CodeGen"),
      ("operand widening", "semantics.cpp TypeCheckVisitor::Check<BinaryExprAST>, Recast"),
      ("precedence climbing", "parser.cpp ParseBinOpRHS, token.cpp Token::Precedence"),
      ("integer builtins", "builtin.cpp FunctionAbs, FunctionSqr, FunctionSucc, FunctionMin")],
     MODEL, NOTE + "overflow, division by zero and over-wide shifts are avoided")

prop("C02", "Boolean logic, comparisons and ordinal functions are exact",
     "For every boolean expression, comparison of integers, longints, reals, chars, booleans or enumeration values, and "
     "every use of ord, chr, succ, pred and odd, the compiled program computes the value the language defines, with "
     "Pascal precedence. and_then and or_else evaluate their right operand exactly when the left operand does not decide "
     "the result. Comparisons of signed values are signed and those of chars and enumeration values follow their ordinal "
     "numbers.",
     ["programs", "inputs"], "all well-typed boolean and ordinal expressions and operand values",
     WHY + "combinations of operators, types and values are unbounded",
     ["expr.cpp", "builtin.cpp", "semantics.cpp", "types.cpp"],
     [("comparison code generation", "expr.cpp IntegerBinExpr, DoubleBinExpr, BinaryExprAST::CodeGen"),
      ("short-circuit operators", "expr.cpp ShortCtOr, ShortCtAnd"),
      ("signedness of a type", "types.cpp IsUnsigned")],
     MODEL, NOTE + "whether plain and/or evaluate both operands is not claimed")

prop("C03", "Real arithmetic, conversions and math functions are correct",
     "For every real expression over finite values, + - * / unary minus, abs, sqr, sqrt, min, max, int, frac and the "
     "comparisons give the IEEE double result, integers mixed in are converted exactly, and trunc rounds toward zero and "
     "round to nearest with halves away from zero. sin, cos, tan, arctan, arctan2, ln, exp, log10, power, fmod and the like "
     "agree with the mathematical function to the accuracy printed.",
     ["programs", "inputs"], "all well-typed real expressions over finite operand values",
     WHY + "the operand space is unbounded and mixed-type promotion is exercised at a few points only",
     ["expr.cpp", "builtin.cpp", "semantics.cpp", "runtime/math.c"],
     [("real operator code generation", "expr.cpp DoubleBinExpr, TypeCastAST::CodeGen"),
      ("math builtins", "builtin.cpp FunctionFloat, FunctionRound, FunctionTrunc, FunctionFloat2Arg")],
     MODEL, NOTE + "results are compared after rounding to 6 decimals; cases near a rounding boundary are avoided")

prop("C04", "Control flow runs exactly the statements the source says",
     "For every program built from if, case (labels, ranges, otherwise), while, repeat, for to/downto, for-in over sets "
     "and arrays, goto, compound statements and nested combinations, the compiled program executes exactly the "
     "statements the language defines, in order. Loop bounds are evaluated once, a for loop whose range is empty runs no "
     "iteration, and a case picks the one branch whose label or range matches.",
     ["programs"], "all well-formed nestings of control statements with terminating loops",
     WHY + "they contain a few nestings; the space of nestings and bounds is unbounded",
     ["expr.cpp", "parser.cpp", "semantics.cpp"],
     [("loops", "expr.cpp ForExprAST::CodeGen, GenForInSet, GenForInArr, WhileExprAST, RepeatExprAST"),
      ("case", "expr.cpp CaseExprAST::CodeGen, parser.cpp ParseCaseExpr"),
      ("goto", "expr.cpp GotoAST, LabelExprAST")],
     MODEL, NOTE + "the loop variable after a for loop and a case without matching label are not used")

prop("C05", "Calls, parameter modes, recursion and nested procedures behave",
     "For every well-formed set of procedures and functions, value parameters are copies, var parameters alias the "
     "caller's variable, recursion (direct and mutual through forward declarations) gives each activation its own "
     "variables, and a nested procedure reads and writes the variables of the innermost live activation of its enclosing "
     "procedures, at any nesting depth. A procedural parameter, called later, runs with the environment it was passed with. "
     "A function returns the last value assigned to its result.",
     ["programs"], "all well-formed call graphs, nestings and parameter lists",
     WHY + "nesting depth, capture sets and parameter combinations are unbounded",
     ["callgraph.cpp", "expr.cpp", "parser.cpp", "semantics.cpp"],
     [("capture of outer variables", "callgraph.cpp; expr.cpp ClosureAST::CodeGen, TrampolineAST"),
      ("argument passing", "expr.cpp CallExprAST::CodeGen, semantics.cpp Check<CallExprAST>"),
      ("prologue", "expr.cpp PrototypeAST::CreateArgumentAlloca, FunctionAST::CodeGen")],
     MODEL, NOTE)

prop("C06", "Arrays, records and variants store and copy element-exact",
     "For every composition of arrays (any ordinal index range, several dimensions), records, nested records and variant "
     "records, an assignment to one component changes that component and no other, whole-value assignment copies every "
     "component, and with-statements denote the fields of the record they open. Values of an active variant read back as "
     "written.",
     ["programs"], "all well-formed aggregate types and sequences of component and whole-value operations",
     WHY + "type shapes, index bases and access sequences are unbounded",
     ["expr.cpp", "types.cpp", "parser.cpp"],
     [("element addressing", "expr.cpp ArrayExprAST::Address, RangeReduceAST"),
      ("field addressing", "expr.cpp FieldExprAST::Address, VariantFieldExprAST::Address"),
      ("layout", "types.cpp ArrayDecl, RecordDecl, VariantDecl"),
      ("aggregate copy", "expr.cpp AssignExprAST::CodeGen, MemCopy")],
     MODEL, NOTE + "inactive variants are not read")

prop("C07", "Pointers and the heap: linked structures keep their contents",
     "For every history of new, dispose, pointer assignment and field access on linked structures, each live dynamic "
     "variable keeps the values last stored in it, distinct live variables never overlap, and pointer comparison, including "
     "with nil, is identity.",
     ["programs", "histories"], "all histories of heap operations that dereference only live variables",
     WHY + "histories are unbounded; the tests build a few lists and trees",
     ["expr.cpp", "builtin.cpp", "types.cpp", "runtime/alloc.c"],
     [("new/dispose", "builtin.cpp FunctionNew, FunctionDispose; runtime/alloc.c"),
      ("dereference", "expr.cpp PointerExprAST"), ("pointer types", "types.cpp PointerDecl")],
     MODEL.replace("generated Pascal", "generated heap histories as Pascal"), NOTE)

prop("C08", "Set operations match mathematical sets",
     "For every set type over a subrange of integer, char, boolean or an enumeration, constructors with members and ranges (an "
     "inverted range being empty), + - * ><, = <> <= >=, in, assignment and card give what mathematical sets give.",
     ["programs", "inputs"], "all set types up to the documented maximum size and all operand values",
     WHY + "member values, base ranges and operator nestings are unbounded",
     ["expr.cpp", "semantics.cpp", "runtime/set.c", "builtin.cpp", "types.cpp"],
     [("set operators", "expr.cpp BinaryExprAST::SetCodeGen, runtime/set.c"),
      ("constructors", "expr.cpp SetExprAST"), ("range alignment", "semantics.cpp BinarySetUpdate; expr.cpp TypeCastAST")],
     MODEL, NOTE)

prop("C09", "String operations match sequence semantics",
     "For every program over string[n], string, char and packed char arrays, assignment, concatenation, indexing, "
     "comparison, length, copy/substr, index/pos and trim give the results of byte-sequence semantics, as long as results fit "
     "their destination. Char arrays compare and assign as fixed-length sequences.",
     ["programs", "inputs"], "all well-typed string expressions whose values fit their destination",
     WHY + "contents, lengths and capacities are unbounded", 
     ["expr.cpp", "builtin.cpp", "runtime/string.c", "runtime/array.c", "semantics.cpp"],
     [("string code generation", "expr.cpp CallStrCat, CallStrFunc, AssignExprAST::CodeGen"),
      ("runtime", "runtime/string.c, runtime/array.c")],
     MODEL, NOTE + "overlong results are not generated")

prop("C10", "write/writeln format every value exactly as specified",
     "For every value and field width, write and writeln produce exactly the specified text: integers, longints, booleans, "
     "chars right-justified in at least the requested width and never truncated, char arrays, literals and enumeration names right-justified and cut "
     "to exactly a given width, string variables as they are, reals in fixed or exponent form with the requested precision, with no extra or missing characters, to "
     "standard output, to text files and to strings (writestr) alike.",
     ["inputs"], "all values, widths and precisions",
     WHY + "value, width and precision combinations are unbounded",
     ["runtime/write.c", "expr.cpp", "parser.cpp", "semantics.cpp"],
     [("formatting", "runtime/write.c"), ("argument passing", "expr.cpp WriteAST::CodeGen")],
     "generated write statements over generated values and widths; oracle: an independent formatter", NOTE)

prop("C11", "read/readln parse every well-formed input exactly",
     "For every text of integers, longints, reals, booleans, words and lines separated by blanks and line ends, read and readln store exactly the "
     "values denoted, in order, consume exactly the specified characters, and eof and eoln are true exactly at the end of "
     "file and of line.",
     ["inputs"], "all well-formed input texts and read sequences",
     WHY + "texts and read sequences are unbounded",
     ["runtime/read.c", "runtime/fileio.c", "expr.cpp"],
     [("parsing", "runtime/read.c"), ("end of file and line", "runtime/fileio.c")],
     "generated input texts and read sequences; oracle: an independent reader", NOTE)

prop("C12", "Text files read back exactly what was written",
     "For every history of assign, rewrite, append, write, writeln, reset, read, readln, get, put, eof, eoln and close on text files, "
     "the program reads exactly what the history wrote, and the files on disk hold exactly those bytes. Operations on one "
     "file never affect another.",
     ["histories"], "all well-formed histories over several files",
     WHY + "histories are unbounded", ["runtime/fileio.c", "runtime/read.c", "runtime/write.c", "runtime/assign.c"],
     [("file state", "runtime/fileio.c, runtime/assign.c"), ("text", "runtime/read.c, runtime/write.c")],
     "model-based generation of file histories compiled to programs; oracle: a file model, and the bytes on disk", NOTE)

prop("C13", "Typed files and direct access return the stored components",
     "For every history of rewrite, write, put, reset, read, get, seekread, seekwrite, seekupdate, position, "
     "lastposition and empty on a file of any component type, each component read equals the one last written at its "
     "position, and position, lastposition, empty and eof report the true state.",
     ["histories"], "all well-formed histories on typed files",
     WHY + "histories are unbounded; no test seeks", ["runtime/fileio.c", "runtime/seek.c", "builtin.cpp"],
     [("direct access", "runtime/seek.c, builtin.cpp FunctionSeek, FunctionPosition"), ("component I/O", "runtime/fileio.c")],
     "model-based generation of file histories compiled to programs; oracle: an array-with-cursor model", NOTE)

prop("C14", "writestr, readstr and val round-trip values",
     "For every list of integer, longint, real, boolean, char and string values, readstr reads back from a string exactly the values that writestr "
     "wrote to it, in order; from any text in a string, readstr stores the values the text denotes, as read does from a line of a file; val stores the "
     "value of the number its text denotes. The string that is read, and all other variables, keep their values.",
     ["inputs"], "all values, widths and texts",
     WHY + "values and texts are unbounded", ["runtime/write.c", "runtime/read.c", "runtime/val.c", "builtin.cpp"],
     [("string I/O", "runtime/write.c, runtime/read.c"), ("val", "runtime/val.c, builtin.cpp FunctionVal")],
     "generated values and texts written to and read from strings; oracle: a character-level model of the text", NOTE + "val is given decimal numbers without leading zeros")

prop("C15", "Constant expressions equal their run-time value",
     "For every constant expression accepted in a const section, type bound or case label (integers, reals, chars, booleans, "
     "enumeration values, strings, set and structured constants), its value equals that of the same expression evaluated at run time with variables.",
     ["programs"], "all well-formed constant expressions",
     WHY + "constant folding is a second evaluator whose operators and nestings are barely sampled",
     ["constants.cpp", "parser.cpp"],
     [("folding", "constants.cpp operator+, operator-, ErrDiv ..."), ("parsing", "parser.cpp ParseConstExpr, ParseConstRHS")],
     "generated constant expressions; oracle: the reference evaluator and the same expression at run time", NOTE)

prop("C16", "Optimisation, target and debug options never change behaviour",
     "For every well-formed program without undefined behaviour, the output, exit status and files are the same under -O0, "
     "-O1, -O2, -m32, -m64, -g, -no-memcpy, -Cr and their combinations.",
     ["programs", "configurations"], "all well-formed programs and combinations of those options",
     WHY + "tests run each of their fixed programs under some options, but say nothing about other programs",
     ["lacsap.cpp", "expr.cpp", "types.cpp", "runtime/Makefile"],
     [("options", "lacsap.cpp, options.h"), ("target-dependent code", "types.cpp sizes and layouts, expr.cpp MemCopy")],
     "metamorphic: generated programs over the whole language under many option sets; all must agree with each other and "
     "with the reference interpreter", NOTE)

prop("C17", "Range checks stop exactly the out-of-range accesses",
     "With -Cr, a program whose array indexes are all in range behaves as without it, and one that indexes outside the "
     "declared bounds (of any ordinal index type, any lower bound, any dimension, or a conformant array) stops at that "
     "access with the range-error message naming line, bounds and value, and a non-zero status, after all earlier output.",
     ["programs", "inputs"], "all array types and index values", WHY + "none of them makes an index error",
     ["expr.cpp", "semantics.cpp", "runtime/rangeerror.c"],
     [("check insertion", "semantics.cpp Check<ArrayExprAST>"), ("check", "expr.cpp RangeCheckAST::CodeGen, runtime/rangeerror.c")],
     "generated indexing programs with a planted in-range or out-of-range index; oracle: bounds model", NOTE)

prop("C18", "The compiler survives any input",
     "For every byte sequence given as source, the compiler terminates, and either compiles it or reports errors and exits with an "
     "error status and at least one diagnostic; it never crashes, fails an internal check, loops, or emits invalid code.",
     ["inputs"], "all byte sequences as source files",
     WHY + "the rejection tests are about fifty fixed files",
     ["lexer.cpp", "parser.cpp", "semantics.cpp", "expr.cpp", "types.cpp"],
     [("error returns", "parser.cpp Error(), lexer.cpp"), ("semantic checks", "semantics.cpp")],
     "grammar-based mutation of generated and repository programs; oracle: no crash, no internal error, no hang, valid status", NOTE)

prop("C19", "Ill-formed programs are rejected with a located error",
     "For every program that breaks a static rule the compiler enforces (undeclared names, type mismatches in assignments, operands, arguments, "
     "conditions and indexes, wrong argument counts, duplicate declarations, assignments to constants or protected values, malformed syntax), "
     "the compiler exits with an error status, produces no program, and names the line of the error.",
     ["programs"], "all programs with one planted static error",
     WHY + "each error kind is tested at one or two places", ["parser.cpp", "semantics.cpp"],
     [("type checks", "semantics.cpp TypeCheckVisitor"), ("syntax errors", "parser.cpp Error()")],
     "fault injection: one static error planted at a random place of a generated valid program; oracle: rejection, and the line reported", NOTE)

prop("C20", "Spelling and layout never change meaning",
     "Changing the case of identifiers and keywords, white space, line breaks, comments of any form, and alternative tokens "
     "((. .) for brackets, @ for ^, and the like) leaves every program's acceptance, output and exit status unchanged.",
     ["programs"], "all programs and all meaning-preserving re-spellings",
     WHY + "no test varies the layout of a program", ["lexer.cpp", "token.cpp", "source.cpp"],
     [("scanner", "lexer.cpp GetToken"), ("keyword lookup", "token.cpp")],
     "metamorphic: token-level re-spelling of generated programs; oracle: same behaviour as the reference", NOTE)

prop("C21", "Literals denote exactly the value written",
     "Every decimal, based and hexadecimal integer literal, real literal, char and string literal (with doubled quotes) "
     "denotes exactly the value written or is rejected; adjacent tokens such as 1..5 are split correctly.",
     ["inputs"], "all literals", WHY + "literals are unbounded", ["lexer.cpp", "parser.cpp"],
     [("numbers and strings", "lexer.cpp NumberToken, StringToken")],
     "generated literals; oracle: independent evaluation of the literal", NOTE)

prop("C22", "Objects: inheritance, overriding and virtual dispatch",
     "For every class hierarchy, a call through a variable of a base class runs the most derived override for virtual "
     "methods and the static type's method otherwise, inherited fields keep their values, and inherited calls run the parent's method.",
     ["programs"], "all class hierarchies and call sequences", WHY + "a handful of small hierarchies",
     ["types.cpp", "expr.cpp", "parser.cpp"],
     [("vtables", "types.cpp ClassDecl::VTableType, expr.cpp VTableAST, VirtFunctionAST")],
     "generated class hierarchies and calls; oracle: an object model", NOTE)

prop("C23", "Units: interface, implementation and initialisation",
     "For every set of units, a program sees exactly the interface declarations of the units it uses, calls reach the "
     "unit's implementation and share its variables, and initialisation parts run once each, before the program, in "
     "dependency order.",
     ["programs"], "all acyclic sets of units", WHY + "a few units", ["parser.cpp", "lacsap.cpp"],
     [("units", "parser.cpp ParseUses, ParseUnit; expr.cpp UnitAST")],
     "generated unit graphs; oracle: unit model", NOTE)

prop("C24", "Names resolve to the innermost declaration",
     "For every nesting of procedures, records opened by with, parameters and local declarations that reuse names, each use denotes the "
     "innermost visible declaration, and a name used outside its scope is rejected.",
     ["programs"], "all scope nestings with shadowing", WHY + "shadowing is sampled at a few places",
     ["stack.h", "parser.cpp", "namedobject.cpp"],
     [("name stack", "stack.h Stack::Find, parser.cpp nameStack levels")],
     "generated programs whose names are re-used as much as the scope rules allow; oracle: reference interpreter over the "
     "uniquely named program", NOTE)

prop("C25", "Compilation is deterministic",
     "Compiling the same source with the same options always yields the same result: identical generated code, diagnostics "
     "and status, whatever the environment, working directory, address-space layout or earlier compilations.",
     ["programs", "configurations"], "all programs, repeated under varied environments",
     WHY + "no test compiles twice", ["lacsap.cpp", "binary.cpp", "expr.cpp"],
     [("emission order", "parser.cpp, expr.cpp, callgraph.cpp (ordered containers)")],
     "generated programs compiled repeatedly; oracle: byte equality of the emitted LLVM IR and of diagnostics", NOTE)

prop("C26", "Conformant arrays see the actual bounds and elements",
     "For every conformant array parameter, the bound identifiers equal the actual array's bounds and each element access "
     "reads or writes the caller's element (or a copy, for value parameters), also when passed on to further procedures.",
     ["programs"], "all array types, bounds and call chains", WHY + "few fixed arrays", ["expr.cpp", "types.cpp", "parser.cpp"],
     [("dynamic arrays", "expr.cpp DynArrayExprAST; types.cpp DynArrayDecl")], MODEL, NOTE)

prop("C27", "Initial values are exactly those declared",
     "For every variable, type or component declared with an initial value or structured constant, the variable holds exactly "
     "that value on entry to its block, on every activation.",
     ["programs"], "all initialised declarations", WHY + "few declarations", ["parser.cpp", "expr.cpp", "types.cpp"],
     [("initialisers", "expr.cpp InitValueAST, InitArrayAST, InitRecordAST; parser.cpp ParseInitValue")],
     "generated initialised declarations; oracle: the declared value", NOTE)

prop("C28", "Program arguments, exit status and random numbers",
     "halt(n) ends the program at once with status n and flushed output; paramcount and paramstr return exactly the "
     "command line; after randomize(n) the random sequence is a function of n, random is in [0,1) and random(m) in 0..m-1.",
     ["inputs"], "all argument lists, statuses, seeds and limits", WHY + "none passes arguments", 
     ["runtime/params.c", "runtime/math.c", "builtin.cpp", "runtime/main.c"],
     [("arguments", "runtime/params.c"), ("random", "runtime/math.c"), ("halt", "builtin.cpp FunctionHalt")],
     "generated argument vectors, statuses and seeds; oracle: model, range and reproducibility invariants", NOTE)

prop("C29", "Complex arithmetic is correct",
     "For every complex expression over finite values, + - * /, unary minus, =, <>, re, im, abs, arg, cmplx, polar, sqr, sqrt, "
     "exp, ln, sin, cos, arctan, pow and ** agree with complex mathematics to the printed accuracy.",
     ["programs", "inputs"], "all complex expressions over finite values", WHY + "few fixed values",
     ["expr.cpp", "builtin.cpp", "runtime/cmath.c"],
     [("operators", "expr.cpp ComplexBinExpr"), ("functions", "builtin.cpp FunctionComplex, FunctionReIm; runtime")],
     "generated complex expressions; oracle: cmath", NOTE)

prop("C30", "The emitted LLVM IR is the compiled program",
     "For every program, the LLVM IR written with -emit=llvm is valid and, compiled by clang with the runtime, behaves exactly as the "
     "executable.",
     ["programs"], "all programs", WHY + "no test uses it", ["binary.cpp", "lacsap.cpp"],
     [("IR output", "binary.cpp")], "differential: executable against IR compiled by clang, and against the reference", NOTE)

prop("C31", "pack and unpack copy exactly the addressed elements",
     "For all array bounds and start indexes, pack(a, i, z) and unpack(z, a, i) copy exactly the elements of z's length "
     "from or to a starting at i, changing nothing else.",
     ["inputs"], "all element types, bounds and starts", WHY + "one fixed example", ["builtin.cpp"],
     [("pack/unpack", "builtin.cpp FunctionPack, FunctionUnpack")], MODEL, NOTE)


UNFINISHED = []


def main():
    checks, na = [], []
    for p, technique, note in P:
        for f in p["anchors"]["files"]:
            assert os.path.exists(os.path.join("/repo", f)), (p["id"], f)
        i = p["id"]
        if i not in UNFINISHED and os.path.exists(os.path.join(HERE, "lv", "checks", i.lower() + ".py")):
            checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="env VERIF_TIER=thorough python3 check.py " + i,
                               technique="property-based testing: " + technique, level="exploration", level_note=note))
        else:
            na.append(dict(property=i, reason="its check is not built yet"))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _, _ in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    json.dump(dict(version=1, setup_cmd="python3 -m lv.build", checks=checks, not_applicable=na),
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks;", "not claimed:", [x["property"] for x in na])


main()
