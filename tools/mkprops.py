#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one dict per property)."""
import json, os
S = "src/vxlisp/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": [S + f for f in files],
         "mechanism": [{"name": n, "where": S + w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Reading any text never crashes or hangs",
 "For every sequence of bytes given as source text, reading it finishes and yields a tree plus messages; it never crashes and never loops.",
 ["inputs"], "all byte strings, valid UTF-8 or not",
 "The parser tests read a handful of well-formed fixed texts; no test feeds malformed text.",
 ["textblock.go", "primative.go"],
 [("character state machine", "textblock.go TextblockParse"), ("text slicing by line and column", "textblock.go StringFromTextblockStartEnd")],
 ["result of parsing a text"])
prop("C02", "Unbalanced delimiters are reported, balanced text is not",
 "Source text whose brackets do not nest and match, or that ends inside an open bracket, quote, block quote or block comment, yields an error. Text with matching brackets, closed quotes and comments, whitespace around its items and no nested group that opens in the first column, yields no error.",
 ["inputs"], "all source texts",
 "No test checks that a delimiter error is reported; the tests only read valid text.",
 ["textblock.go"],
 [("open-block stack and mismatch messages", "textblock.go TextblockParse")],
 ["error flag of the parse messages"])
prop("C03", "Reading preserves every item, its kind, nesting and order",
 "The tree read from well-formed text holds exactly the words, quoted texts, comments and bracketed groups written in it, each with its own kind and text, in the written order and nesting. Nothing is dropped, merged, duplicated or invented.",
 ["programs"], "all trees of words, quotes, comments and (), [], {} groups",
 "One fixed text is compared; nesting and mixtures of item kinds are unbounded.",
 ["textblock.go"],
 [("word/quote/comment accumulation and block push/pop", "textblock.go TextblockParse"), ("block pop", "textblock.go TextblocksPop")],
 ["tree returned by parsing"])
prop("C04", "Layout, comments and newline style do not change a program",
 "Two texts that differ only in the amount and kind of whitespace between items, in comments between items, or in using CR, LF or CRLF line ends, declare the same things with the same meaning, as long as no nested group opens in the first column of a line.",
 ["programs"], "all programs and all re-layouts of them",
 "Tests use one layout per fixture; none compares two layouts of one program.",
 ["textblock.go", "value.go", "arg.go", "func.go", "type.go", "const.go", "package.go"],
 [("newline normalisation and whitespace handling", "textblock.go TextblockParse"), ("comment skipping in each declaration reader", "value.go ValueFromTextblock; arg.go ListArgFromTextblock; func.go FuncFromTextblock; type.go TypeFromTextblock")],
 ["declarations produced from the text"])
prop("C05", "Every item carries the line and column where it was written",
 "Each word, quote and bracketed group in the tree carries the 1-based line and column of its first character, counted in characters, whatever precedes it and whatever newline style is used.",
 ["inputs"], "all positions in all texts",
 "One fixed text's positions are compared; multi-byte characters, CR line ends and comments before the item are not.",
 ["textblock.go"],
 [("line/column counters", "textblock.go TextblockParse")],
 ["line and column of tree nodes"])
prop("C06", "Quoted text is read as exactly the text written",
 "A double-quoted or back-quoted text yields one item whose content is the written characters, continuation lines losing the indentation of the quote, with an escaped double quote standing for a double quote; brackets, comment markers, colons and spaces inside it have no syntactic effect.",
 ["inputs"], "all contents of quoted texts",
 "Fixtures contain a few simple literals.",
 ["textblock.go", "value.go", "primative.go"],
 [("quote states", "textblock.go TextblockParse"), ("quote replacement", "value.go ValueFromTextblock"), ("quote removal", "primative.go StringRemoveQuotes")],
 ["string value of the literal"])
prop("C07", "A bare word is classified as number, keyword or name by its spelling",
 "A bare word that is a signed decimal integer in 32-bit range is an integer literal, any other decimal numeral is a decimal literal, a word starting with a colon is a string literal, and every other word is a name. Quoted text is always a string whatever it contains.",
 ["inputs"], "all words",
 "Tests use a few literals; boundary values and odd spellings are not covered.",
 ["value.go", "primative.go"],
 [("word classification", "value.go ValueFromTextblock"), ("number tests", "primative.go BooleanIsIntFromString, BooleanIsNumberFromString")],
 ["kind and text of the literal value"])
prop("C08", "Declarations keep every property that was written",
 "A type, function, constant or package declaration read from text has exactly the name, kind, documentation, alias, flags, relations and body written for it, whatever order its keywords come in; an unknown keyword or stray item is reported as an error.",
 ["programs"], "all declarations and keyword orders",
 "Fixture declarations use one keyword order and few keyword combinations.",
 ["func.go", "type.go", "const.go", "package.go", "library.go"],
 [("keyword/value state machines", "func.go FuncFromTextblock; type.go TypeFromTextblock; const.go ConstFromTextblock; package.go PackageFromTextblock; library.go LibraryFromTextblock")],
 ["declarations of the package read"])
prop("C09", "Parameter and property lists keep names, types, defaults and order",
 "Reading a bracketed parameter or property list yields one entry per written name, in order, each with exactly the type, default value, variadic mark, generic mark and documentation written after that name and none of its neighbours'.",
 ["programs"], "all parameter lists",
 "Fixtures have short lists with uniform shape.",
 ["arg.go"],
 [("argument list state machine", "arg.go ListArgFromTextblock"), ("map of arguments", "arg.go MapArgFromListArg")],
 ["parameters of the declaration read"])
prop("C10", "Threaded calls mean the same as the nested call they abbreviate",
 "A first-position or last-position threading form means exactly the nested call obtained by inserting each step as the first or last argument of the next, for any number of steps and extra arguments.",
 ["programs"], "all threading chains",
 "A few fixed chains are used by library code; chain length, argument counts and nesting are unbounded.",
 ["value.go"],
 [("threading rewrite", "value.go ValueFromTextblock")],
 ["value tree read from the form"])
prop("C11", "Names resolve to the innermost, first-listed declaration",
 "A name used in an expression refers to the nearest enclosing parameter or local of that name, otherwise to the declaration of that kind in the current package, otherwise to that of the first listed library declaring it; a prefixed name refers only to the library of that alias. A name with no such declaration is an error.",
 ["programs", "configurations"], "all nestings of scopes and library lists",
 "Fixtures resolve unique names; collisions between scopes and libraries are not covered.",
 ["scope.go", "value.go", "package.go", "func.go"],
 [("scope list lookup", "scope.go ArgFromListScope, ConstFromListScope, TypeFromListScope, FuncFromListScope"), ("scope construction", "package.go ListScopeFromPackage"), ("linking", "value.go ValueLink")],
 ["declaration bound to the use"])
prop("C12", "A call picks the first overload whose parameters accept the arguments",
 "Among several functions with one name, a call is bound to the first declared one that accepts the number and types of its arguments; if none does the call is an error, and adding an overload that does not accept the arguments changes nothing.",
 ["programs"], "all overload sets and argument types",
 "Library tests call each overload with one argument pattern.",
 ["scope.go", "signature.go", "type.go"],
 [("overload search", "scope.go FuncFromListScope"), ("signature match", "signature.go IsSignatureMatch")],
 ["overload bound to the call"])
prop("C13", "Type compatibility follows the declared type relations",
 "A value of one type is accepted where another is expected exactly when they are the same type, the expected type is the any type, or the declared extension, trait, allowed-type (for a list or map: its element type) or generic relations permit it; an explicitly disallowed type is rejected even when an allowed one covers it.",
 ["programs", "configurations"], "all pairs of types and relations between them",
 "Only a few pairs are exercised by fixtures.",
 ["type.go", "signature.go", "value.go"],
 [("type match", "type.go BooleanMatchFromTypeType, BooleanAllowFromTypeType"), ("validation", "value.go ValueValidate")],
 ["error flag of validation"])
prop("C14", "A call with too few or too many arguments is an error",
 "A call is accepted only if it supplies every parameter, and supplies extra arguments only to a variadic last parameter; otherwise the compilation reports an error.",
 ["programs"], "all parameter lists and argument counts",
 "Fixtures only contain valid calls.",
 ["arg.go", "value.go"],
 [("argument merge", "arg.go ListArgMergeValues"), ("validation", "value.go ValueValidate")],
 ["error flag of validation"])
prop("C15", "Packages are ordered after their libraries; cycles and gaps are errors",
 "For every set of packages, ordering keeps each package exactly once and puts it after every package it lists as a library (the built-in test package apart, which may come anywhere); if a listed library does not exist or the libraries form a cycle, an error is reported and the compiler does not loop.",
 ["configurations"], "all dependency graphs and input orders",
 "The tests order one fixed acyclic list.",
 ["package.go"],
 [("fixpoint ordering", "package.go ListPackageSortDependencies"), ("library validation", "package.go ListPackageValidateLibraries")],
 ["package order and error flag"])
prop("C16", "An error found at any depth marks the whole compilation as failed",
 "If any part of reading, linking or validating reports an error, however deeply nested, the overall result is marked as an error and the printed report contains that message, and later messages or warnings never clear it.",
 ["programs", "histories"], "all positions of an error and all message histories",
 "No test plants errors inside nested declarations and checks the overall result.",
 ["msg.go", "package.go", "value.go", "func.go", "type.go", "const.go", "project.go"],
 [("message block merge", "msg.go MsgblockAddBlock, MsgblockAddError"), ("message report", "msg.go StringFromMsgblock")],
 ["overall error flag and report text"])
prop("C17", "The project file and command line select exactly the named commands",
 "Reading a project file yields each command with exactly the properties written for it; running with a list of command names selects those commands, in the order named, and an unknown name is an error.",
 ["inputs", "configurations"], "all project files and command lists",
 "One fixed project file is read.",
 ["project.go", "command.go"],
 [("project reader", "project.go ProjectFromTextblock"), ("command reader", "command.go CommandFromTextblock"), ("selection", "command.go ListCommandFromProject")],
 ["commands and project fields"])
prop("C18", "Output paths combine project, target and relative parts correctly",
 "The path a command reads or writes is the base path followed by the relative path with '.' and '..' steps resolved, and named path placeholders are replaced by the path declared under that name.",
 ["inputs", "configurations"], "all base and relative paths",
 "Fixtures use one layout.",
 ["file.go", "project.go"],
 [("relative path resolution", "file.go PathFromPathRelativePath"), ("command path", "project.go PathFromProjectPath, PathFromProjectCmd, StringPathFromProjectCmd")],
 ["computed path"])
prop("C19", "Written files hold exactly the generated text",
 "After writing a list of generated files, every listed file exists under its folder with exactly the given text, whatever was there before; a file that already holds that text is left untouched, and a failed write is reported as an error.",
 ["histories", "fault_sequences"], "all prior folder states, contents and failures",
 "Tests never write files twice or inject failures.",
 ["file.go"],
 [("compare then write", "file.go WriteListFile"), ("write", "file.go WriteFileFromFilenameText")],
 ["file contents and error flag"])
prop("C20", "A string literal denotes the same text in every generated language",
 "The literal emitted for a string value, read by the rules of the target language, denotes the same text that the source literal denotes, for every text of quotes, newlines, tabs and ordinary characters.",
 ["inputs"], "all string values and target languages",
 "Library tests contain few literals with special characters.",
 ["lang-native.go", "lang.go", "value.go", "lang-js.go"],
 [("escape", "lang-native.go LangNativeFromText"), ("literal emission", "lang.go LangFromValue; lang-js.go JsFromValue")],
 ["text of the emitted literal"])
prop("C21", "Generated identifiers are legal and stay distinct",
 "The identifier generated for any declared name of letters, digits, hyphens and operator characters contains only characters legal in target-language identifiers, the declaration and every use of it spell it alike, and different names give different identifiers unless one spells the other's operators or separators out in words.",
 ["inputs", "programs"], "all declarable names",
 "Fixtures use a fixed set of names.",
 ["lang-native.go", "lang.go"],
 [("name mangling", "lang-native.go LangFromName")],
 ["generated identifier"])
prop("C22", "Output does not depend on map iteration order",
 "Compiling the same project twice yields byte-identical packages order, generated code, documentation and messages, whatever order the runtime iterates its maps in.",
 ["schedules"], "all map iteration orders",
 "A test run sees one random order; a wrong order shows up only sometimes.",
 ["lang-js.go", "lang.go", "lang-native.go", "package.go", "doc.go", "primative.go"],
 [("sorted key lists", "primative.go ListStringKeysFromStringMap; func.go ListKeyFromMapFunc; type.go ListKeyFromMapType; const.go ListKeyFromMapConst")],
 ["generated text"])
prop("C23", "Documentation pages show source text without interpreting it as markup",
 "Every piece of program text placed in a documentation page appears in it with markup characters escaped, so that the page displays the text as written and its structure does not depend on it.",
 ["inputs"], "all documentation and source texts",
 "Tests do not generate documentation with markup characters.",
 ["doc.go"],
 [("HTML escape", "doc.go HtmlFromText and callers")],
 ["generated page"])
prop("C24", "Every declaration is generated exactly once",
 "For every package, the generated source of each target language contains one definition for every type, constant and function overload declared in it and none for anything else, and the documentation lists each of them once.",
 ["programs"], "all sets of declarations",
 "Fixture packages are fixed; omissions for other combinations go unseen.",
 ["lang-js.go", "lang.go", "lang-func.go", "lang-type.go", "lang-const.go", "doc.go"],
 [("package generation loops", "lang-js.go JsFromPackage; lang-native.go LangFromPackage; doc.go HtmlFromPackage")],
 ["generated text"])
prop("C25", "Generated calls pass the written arguments, in order, once each",
 "The code generated for a call names the bound function and passes each written argument exactly once, in the written order, at every nesting depth, and the text of literals never changes the shape of the generated function.",
 ["programs"], "all call trees and literals",
 "Fixtures contain few nesting shapes; literal contents are harmless.",
 ["lang-js.go", "lang.go", "lang-func.go", "lang-native.go"],
 [("value emission", "lang-js.go JsFromValue; lang.go LangFromValue"), ("body emission", "lang-js.go JsFromFunc")],
 ["generated text"])
prop("C26", "Documentation text cannot end a generated comment early",
 "Documentation and source text copied into a comment of generated code stays inside that comment: it never contains the comment's terminator, so that no documentation text changes the generated program.",
 ["inputs"], "all documentation texts",
 "Fixtures contain no comment terminators in documentation.",
 ["lang-native.go", "lang-func.go", "lang-js.go", "lang-type.go"],
 [("doc comment emission", "lang-native.go LangFuncDoc, LangConstDoc; lang-js.go JsFromType")],
 ["generated text"])
prop("C27", "Test coverage figures count exactly the tested declarations",
 "The coverage figures reported for a package count each declaration once, count every overload on its own and count it as covered exactly when it carries a test, and give percentages that agree with those counts, from 0 to 100. Every written test appears once in the generated tests.",
 ["programs"], "all packages",
 "Fixtures have one coverage pattern.",
 ["lang-test.go", "lang-testlib.go", "lang-js.go"],
 [("coverage count", "lang-testlib.go / lang-js.go test coverage functions")],
 ["generated coverage summary"])
prop("C28", "Text helpers obey their algebraic laws",
 "For every text and every number: substring clamps to the text and never fails, split then join restores the text, find and find-last return the first and last position or -1, and replace, repeat, case and trim helpers leave everything else unchanged.",
 ["inputs"], "all texts, delimiters and positions",
 "Tests use a few fixed arguments.",
 ["vx/core/core.go", "primative.go"],
 [("text helpers", "vx/core/core.go V_stringn_*; primative.go")],
 ["helper results"])
prop("C29", "Compiling any readable project never crashes",
 "Declaring, linking, validating and generating code for any set of packages whose text can be read finishes with either the output or reported errors, never with a crash or an endless loop, however incomplete or ill-formed the declarations and expressions are.",
 ["programs"], "all package texts",
 "Fixtures are well-formed programs.",
 ["package.go", "value.go", "func.go", "type.go", "arg.go", "scope.go", "signature.go", "const.go"],
 [("declaration readers and linker", "package.go PackageFromTextblock, ListPackageLink, ListPackageValidate")],
 ["absence of a crash"])
prop("C30", "The same program computes the same result in every target language",
 "A compiled expression evaluates to the same value whether run as JavaScript, Java, C++, C#, Kotlin or Swift.",
 ["programs", "inputs"], "all programs and arguments",
 "The generated suites run fixed calls.",
 ["lang.go", "lang-js.go", "lang-cpp.go"],
 [("per-language generators and native library code", "lang*.go; dist/vxlisp/vx/core.vxlisp")])
prop("C31", "Generated C++ releases every value it reserves, once",
 "A C++ program generated from any source program frees each allocated value exactly once and never uses it afterwards.",
 ["programs", "histories"], "all programs and call histories",
 "The leak check runs for fixed calls.",
 ["lang-cpp.go"],
 [("reserve/release emission", "lang-cpp.go")])
prop("C32", "The file watcher and web server serve only the chosen folder",
 "While the development server runs, it serves files below the configured folder only and keeps running while files change.",
 ["schedules"], "all request and file-change orders",
 "No test starts the server.",
 ["webserver.go", "file.go"],
 [("net/http file server and fsnotify watcher", "webserver.go WebServerStart; file.go ListenToPath")])
prop("C33", "Library lists and maps give back what was stored in them",
 "A list made from any values gives them back in order, by position from 1 on, and gives the empty value at every other position; a map gives the last value stored under each key, with the keys in the order of first use, and the empty value for any other key. Displaying a text, list or map shows every stored value, in that order.",
 ["inputs"], "all lists of texts, keys and positions",
 "Tests store a few fixed values and ask for positions that exist.",
 ["vx/core/core.go"],
 [("lists and maps", "vx/core/core.go V_*list_*, V_*map_*, V_listany_from_any, V_any_from_any_keyn"), ("display", "vx/core/core.go V_stringn_display_from_any")],
 ["values, lengths, keys and displayed text"])
prop("C34", "The written source is kept and shown unchanged, and errors are placed in it",
 "The source text shown for a declaration, test or package, in documentation pages, test descriptions and error reports, is the text as written, moved left by its own column; text inside quotes and comments is never altered or lost. An error report names the file, and gives the line and character at or around the mistake followed by the source from there.",
 ["inputs"], "all source texts",
 "Fixtures have a few simple layouts, and no test compares reports of mistakes at other places.",
 ["textblock.go", "doc.go", "msg.go"],
 [("source of a group", "textblock.go StringFromTextblockStartEnd"), ("source on pages", "doc.go"), ("error report", "msg.go NewMsgFromTextblock")],
 ["documentation pages", "error reports"])
prop("C35", "Properties and arguments keep their own names, types and order in generated code",
 "In generated code every property of a type and every parameter of a function appears with its own name and its own type, in the written order, and is treated like every other one: whatever is generated for one of them is generated for each of them. A value given for a property or parameter goes to that one.",
 ["programs"], "all types and functions with several members",
 "Fixtures have few members, mostly of one type, so that exchanged names or types go unnoticed.",
 ["lang-type.go", "lang-func.go", "lang-cpp.go", "lang-js.go", "lang-native.go"],
 [("struct code", "lang-type.go, lang-cpp.go, lang-js.go"), ("parameter code", "lang-func.go, lang-cpp.go, lang-js.go")],
 ["generated text"])
prop("C36", "Every written test is generated once, for its declaration, as written",
 "For every test of a type, constant or function the generated tests hold exactly one comparison of the written expected and actual value, in that order, described by the test's text as written, in the test case named after its declaration; tests keep their order, and no other tests are generated.",
 ["programs"], "all packages with tests",
 "Lost or exchanged tests make the generated test suite pass.",
 ["lang-test.go", "lang-js.go", "lang-cpp.go"],
 [("test cases", "lang-test.go LangTestCase; lang-js.go JsTestFromValue; lang-cpp.go CppTestCase"), ("descriptions", "lang-test.go LangTestFromValue")],
 ["generated test files"])
prop("C37", "Generated applications start the named functions and run all tests",
 "A generated application makes its context from the command line with the context function named by the command, or the library's, hands it and the arguments to the named main function, or the library's, waits for both where they are asynchronous, and outputs the result. A generated test application makes the context once and runs the tests of every package of the project alike; every variable is declared once before it is used, and every package used is imported once.",
 ["configurations"], "all choices of main and context functions, their packages and flags, and languages",
 "The tests compare one application per language; default functions and asynchronous contexts are in none.",
 ["lang.go", "lang-js.go", "lang-cpp.go", "lang-java.go", "lang-csharp.go", "lang-kotlin.go"],
 [("application", "lang.go LangApp; lang-js.go JsApp; lang-cpp.go CppApp"), ("test application", "lang-js.go JsAppTest; lang-cpp.go CppAppTest")],
 ["generated app and app test files"])
prop("C38", "Native code goes as written into the code of its own language only",
 "Native code given for a language, in a function, a type or a file next to a package, is in the code generated for that language exactly once and as written, apart from indentation and the quotes written for quotes; native code of other languages is in none of it, and code for all other languages only where the language has none of its own. The order of declarations asked for by the native file of C++ is kept, and names in it that the package does not have are errors.",
 ["programs"], "all native texts and choices of languages",
 "The tests have native code in few functions and never compare all languages.",
 ["lang-func.go", "lang-native.go", "lang-cpp.go", "lang-js.go", "project.go"],
 [("native values", "lang-func.go LangFuncValueNative; lang-cpp.go CppFromValue; lang-js.go JsFromValue"), ("native files", "project.go; lang-cpp.go CppFromPackage")],
 ["generated text"])

prop("C39", "A constant holds the value written for it, in every language",
 "In the code of every target language a constant is made and filled once, with exactly the value written for it, and with the empty value of its type if none is written: text, number, and every item of a list, entry of a map and property of a struct. It knows its own name, package and type, and its code uses only what it declares.",
 ["programs"], "all constants of the types text, int, boolean, float, decimal, list, map and struct, and their values",
 "The tests have text and struct constants only, and compare fixed output.",
 ["lang-const.go", "lang-cpp.go", "lang-js.go"],
 [("constants", "lang-const.go LangConst, LangConstVxConstdef; lang-cpp.go CppFromConst; lang-js.go JsFromConst")],
 ["generated text"])

prop("C40", "Generated files name the packages they use where those are",
 "Every generated source and test file is in the folder and name space of its package, and imports or includes each library of its package once, under a path that leads from the file to the file generated for that library, and no other packages of the project.",
 ["programs"], "all folders of packages and choices of libraries",
 "The tests generate few packages, none at the top of a project with libraries in folders.",
 ["lang-js.go", "lang-cpp.go", "lang-native.go"],
 [("imports", "lang-js.go JsFromPackage, JsTestFromPackage; lang-cpp.go CppImportsFromPackage; lang-native.go LangPackageImports, LangTestImport")],
 ["generated files"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
