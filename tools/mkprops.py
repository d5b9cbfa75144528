"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
I = "src/zope/tal/talinterpreter.py"
G = "src/zope/tal/talgenerator.py"
H = "src/zope/tal/htmltalparser.py"
T = "src/zope/tal/talparser.py"
X = "src/zope/tal/xmlparser.py"
D = "src/zope/tal/dummyengine.py"
F = "src/zope/tal/taldefs.py"
P = "src/zope/tal/talgettext.py"
V = "src/zope/tal/driver.py"
R = "src/zope/tal/runtest.py"
C = "src/zope/tal/translationcontext.py"
N = "src/zope/tal/interfaces.py"

def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {"files": files,
                        "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                        "mechanism": [dict(name=a, where=b) for a, b in mech],
                        "observe_at": list(observe), "hook_needed": hook}}

OBS_OUT = ["text received by the output stream given to TALInterpreter"]
OBS_ENG = ["calls received by the ITALExpressionEngine given to TALInterpreter"]

L = [
p("C01", "A contained failure replaces its element's output, all or nothing",
  "When any engine call fails while an element with tal:on-error is being rendered, that element contributes exactly its start tag with its static attributes, the on-error value and its end tag (just the value for elements in a TAL namespace), nothing of the failed body, and everything before and after it is rendered as though that were all the element ever was. When nothing fails in it, or the failure is contained by a nested on-error, the element contributes exactly its ordinary output, once. A failure of the on-error expression itself is contained by the next enclosing on-error in the same way.",
  ["fault_sequences", "programs"],
  "every template (any nesting of on-error, loops, conditions, attributes, omitted tags, structure inserts, translations, macros and slots, HTML or XML) and every choice of which engine calls fail, with which exception, on which occurrence",
  "the suite has three templates with on-error, each with one fixed failing expression and no other construct in flight when it fails; the fault position and the surrounding rendering state are unexplored",
  [I, G], [("buffered body, discarded on failure", I + ":do_onError_tal"), ("state snapshot and restore", I + ":saveState/restoreState/restoreOutputState"), ("handler program", G + ":emitOnError")],
  [("stream, stream stack, col", "where output goes", I + ":saveState")], OBS_OUT),
p("C02", "Variable scopes are exact, also after contained failures",
  "A variable set by tal:define, tal:repeat or on-error's `error` is visible from its definition to the end of the element that sets it and nowhere else, and global definitions stay visible from their definition on. This holds whatever fails in between and is contained: after the on-error element every name resolves as if the scopes opened inside it had been closed normally, and when rendering finishes every scope that was opened has been closed exactly once.",
  ["fault_sequences", "programs"],
  "every template and every set of failing engine calls that on-error elements contain, for the bundled engine and for any engine that implements the published interface",
  "tests look at variables in a few fixed templates without failures; the number of scopes open when a failure strikes is unexplored",
  [I, G, D], [("scope counter unwound on failure", I + ":restoreState"), ("begin/end scope instructions", G + ":emitStartElement/emitEndElement"), ("copy-on-write locals", D + ":DummyEngine.setLocal/beginScope/endScope")],
  [("scopeLevel", "scopes opened and not yet closed", I)], OBS_ENG),
p("C03", "Macro expansion state survives contained failures",
  "After a failure inside a macro or a slot is contained by on-error, later macro uses and slots behave exactly as if the failed macro use had never started: slots are filled from the macro uses that are really in progress, and the nesting limit counts only those. The same holds when the failure and its handler lie in different templates.",
  ["fault_sequences", "programs", "histories"],
  "every set of templates with macros, extended macros, slots and fillers, every failing call inside them, and every sequence of later macro uses in the same rendering",
  "no test combines METAL with on-error",
  [I, G], [("macro stack push/pop", I + ":pushMacro/popMacro/do_useMacro"), ("stack chopped while a filler renders", I + ":do_defineSlot")],
  [("macroStack", "macro uses in progress", I), ("inUseDirective", "inside a use-macro", I)], OBS_OUT + OBS_ENG),
p("C04", "Translation state survives contained failures",
  "After a failure inside a translation unit (including one raised by the translation service itself) is contained by on-error, every later translation request in the rendering carries the domain, message id and name-to-value mapping it would have carried had the failed part never started. In particular names given inside an enclosing unit after the failure still reach that unit's message.",
  ["fault_sequences", "programs"],
  "every nesting of i18n:domain, i18n:translate, i18n:name, i18n:attributes, i18n:data and on-error, and every failing evaluation or translation call",
  "no test combines i18n with on-error",
  [I, C], [("translation unit stack", I + ":do_insertTranslation/do_i18nVariable"), ("domain context saved and restored", I + ":saveState/restoreState")],
  [("i18nStack", "units being collected", I), ("i18nContext", "domain in force", I)], ["ITALExpressionEngine.translate arguments"]),
p("C05", "Failures are reported at the template location of what failed",
  "Whenever the engine is asked to evaluate an expression, advance a repeat, look up a macro, run code or translate, the source file and position last announced to it are those of the element that carries the directive. After a failure that escapes, they still are those of the failing directive; the error info made for an on-error handler carries the failing directive's position; and after a contained failure later reports are right again. This holds across macros and slots from other files, loops, translation units, and content inserted as structure.",
  ["fault_sequences", "programs"],
  "every template set compiled with source file names, every failing call, and every evaluation before and after it",
  "three tests check fixed positions in a linear macro/slot rendering; loops, contained failures, translation units and structure inserts are not looked at",
  [I, G, D], [("setPosition/setSourceFile instructions", G + ":emitStartElement/emitEndElement"), ("restored on contained failure", I + ":restoreState"), ("restored after macro use", I + ":do_useMacro")],
  [("position, sourceFile", "location announced to the engine", I)], ["ITALExpressionEngine.setPosition, setSourceFile, createErrorInfo"]),
p("C06", "A compiled template renders the same however often it was rendered",
  "A compiled program and its macros may be rendered any number of times, each time with a new engine, and every rendering yields what a freshly compiled copy would yield for the same engine answers. Earlier renderings have no influence, whether they succeeded, failed at any engine or stream call, were aborted at any instant, or used other data or other interpreter options.",
  ["histories", "fault_sequences", "crash_points"],
  "every history of renderings of the same compiled templates with differing data, options and outcomes, including ones aborted at an arbitrary line",
  "tests render each compiled program once",
  [I, G], [("programs are read-only for the interpreter", I), ("attribute replacement for inserted structure", I + ":AltTALGenerator.replaceAttrs")],
  [("program, macros", "compiled template shared by renderings", "TALGenerator.getCode()")], OBS_OUT + OBS_ENG),
p("C07", "Concurrent renderings of shared templates do not interfere",
  "Any number of threads may render the same compiled templates at once, each with its own interpreter, engine and stream, and every rendering yields exactly the output, evaluations and failures it would yield alone. This holds for every interleaving of their steps and whichever of them fail.",
  ["schedules", "fault_sequences"],
  "every interleaving (down to single source lines and bytecodes of the package) of two or more renderings over shared programs, with any of them failing",
  "no test starts a second thread; Zope renders cached page templates from many threads",
  [I, G], [("all rendering state lives on the interpreter instance", I + ":TALInterpreter.__init__"), ("class-level dispatch tables are never modified", I)],
  [("program, macros", "shared by threads", "TALGenerator.getCode()")], OBS_OUT + OBS_ENG),
p("C08", "Compilations are independent of each other",
  "Compiling a template yields a program with the same behaviour whatever else has been, or is being, compiled or rendered in the process: other compilations in other threads at any interleaving, and earlier ones that failed or were aborted at any instant (malformed template, failing expression compiler, failing reads). A compilation error always belongs to the template being compiled.",
  ["schedules", "histories", "crash_points"],
  "every interleaving of compilations and every history of failed and aborted ones, HTML and XML, with any expression compiler",
  "tests compile one template at a time and stop after an expected error",
  [G, H, T, X], [("all compilation state lives on the parser and generator instances", G + ":TALGenerator.__init__, " + H + ":HTMLTALParser.__init__, " + T + ":TALParser.__init__")],
  [("program, stacks, slots, macros", "compilation in progress", G)], ["getCode() result, by rendering it", "exception raised by parseString/parseStream"]),
p("C09", "XML compilation does not depend on how the input stream is chunked",
  "Compiling an XML template from a stream yields a program with the same behaviour as compiling the complete text at once, for every way the stream divides its bytes into reads, in every supported encoding. A read that fails surfaces as that same failure, input that ends before the document is complete raises an error, and in neither case can a program for a part of the document be obtained without an error.",
  ["inputs", "fault_sequences", "crash_points"],
  "every XML document, every division into reads of any size, every offset at which the stream fails or ends",
  "tests parse small files whole, in one read",
  [X, T, G], [("incremental expat parsing", X + ":XMLParser.parseStream/parseFragment"), ("adjacent text joined", G + ":TALGenerator.optimize"), ("whitespace before repeat", G + ":unEmitNewlineWhitespace"), ("unfinished program refused", G + ":getCode")],
  [], ["getCode() result, by rendering it", "exception raised by parseStream"]),
p("C10", "Output stream failures surface at once and are never swallowed",
  "Everything the renderer writes goes to the stream it was given, and at every instant what the stream has accepted is a prefix of the complete output. If a write to that stream fails, that failure reaches the caller as it is, no on-error handler sees it, and nothing further is written or evaluated.",
  ["fault_sequences", "programs"],
  "every template, every kind of stream object with a write method, and every write that may fail, including short and torn writes and failures inside nested on-error elements",
  "tests write to a StringIO that never fails",
  [I], [("real stream written only outside on-error bodies", I + ":do_onError_tal"), ("stream chosen at construction", I + ":TALInterpreter.__init__")],
  [("stream", "destination", I)], OBS_OUT),
p("C11", "Expressions are evaluated in TAL order, exactly as often as control flow says",
  "On each element expressions are evaluated in the order define, condition, repeat and then, per iteration, omit-tag, attributes and content or replace, each exactly once; nothing inside an element whose condition is false, whose repeat is empty, or whose content is replaced is evaluated. A repeat's sequence is obtained once and its body rendered once per advance, and a failing evaluation is never retried and ends the evaluations of the innermost on-error element, whose handler expression is then evaluated exactly once.",
  ["programs", "fault_sequences"],
  "every template, every sequence of engine answers, and every set of failing evaluations",
  "tests compare output only; an expression evaluated twice, out of order, or in a branch not taken is invisible to them",
  [I, G], [("instruction order", G + ":emitStartElement/emitEndElement"), ("handlers", I + ":do_*_tal")],
  [], OBS_ENG),
p("C12", "An uncontained failure reaches the caller unchanged, after a prefix",
  "A failure of an engine call that no on-error element contains, of whatever exception type, reaches the caller of the renderer as the very same exception object; no later expression is evaluated, and what has been written is a prefix of the output the rendering would have had without that failure. Conversely a rendering in which no engine or stream call fails does not fail, unless a macro is unusable or an inserted structure is malformed.",
  ["fault_sequences", "programs"],
  "every template that compiles, every failing call and exception type including BaseException subclasses",
  "tests check two uncontained failures, by exception type only",
  [I], [("no intermediate catching", I + ":interpret"), ("temporary streams popped", I + ":do_insertTranslation/do_i18nVariable/do_evaluateCode")],
  [], OBS_OUT + ["exception raised by TALInterpreter.__call__"]),
p("C13", "Recursive macro expansion is bounded by the nesting limit",
  "Rendering templates whose macros use each other recursively, directly, mutually, through slots or through extension, always ends: at most the configured number of macro uses is ever in progress at once, and the first use beyond it raises a METAL error at that point. Expansions that stay within the limit are never refused, whatever failed and was contained before.",
  ["programs", "configurations", "fault_sequences"],
  "every graph of macro uses, every stack limit, and every answer of the engine that starts or stops the recursion, with contained failures on the way",
  "the limit is not tested at all",
  [I], [("limit check", I + ":pushMacro")],
  [("macroStack", "macro uses in progress", I)], ["exception, output, evaluateMacro calls"]),
p("C14", "Compilation and rendering are deterministic",
  "The same template text and the same engine answers give byte-identical output and the same sequence of evaluations in every process, whatever the hash randomisation seed, the time, or the order in which modules and templates were loaded. Attributes added by tal:attributes and i18n:attributes appear in alphabetical order.",
  ["configurations", "programs", "histories"],
  "every template, every hash seed and process",
  "tests run under one fixed hash seed",
  [G, I, H, T], [("sorted attribute replacement", G + ":replaceAttrs"), ("ordered attributes from expat", T + ":TALParser")],
  [], OBS_OUT + OBS_ENG),
p("C15", "Message extraction collects every message of every template",
  "Extracting messages from any sequence of templates into one catalog records, per domain, every translatable message of every template processed, with one reference (file, position of the element) per occurrence and the first default text seen; conflicting defaults yield a warning and nothing else. Templates that fail to parse or to be interpreted lose only their own remaining messages, and the set of messages and references found does not depend on the order of the templates.",
  ["histories", "fault_sequences", "programs"],
  "every sequence of templates in every order, with failing ones in between",
  "tests extract from one template, and test the conflict warning for one pair of defaults",
  [P, I], [("catalog accumulation", P + ":POEngine.translate"), ("extraction interpreter", P + ":POTALInterpreter.translate")],
  [("catalog", "messages by domain", P + ":POEngine")], ["POEngine.catalog, warnings"]),
p("C16", "Structure insertion is all-or-nothing and inert",
  "Markup delivered by an expression and inserted as structure with checking on is either inserted completely or, if it is malformed (damaged, truncated, wrongly nested), rejected with an error before any part of it is written. TAL, METAL and i18n directives inside it are never executed, it does not change how the rest of the template is processed, and attributes given alongside are applied to its first element every time.",
  ["inputs", "fault_sequences", "programs"],
  "every fragment, well-formed or corrupted at any position, HTML or XML, inside loops, translation units, on-error and repeated renderings",
  "tests insert a handful of well-formed fragments",
  [I, H, T], [("parsed completely before interpretation", I + ":insertHTMLStructure/insertXMLStructure"), ("directives blanked", I + ":AltTALGenerator.emitStartElement")],
  [], OBS_OUT + OBS_ENG),
p("C17", "Input files and URLs are released on every path",
  "Compiling from a file or URL closes what it opened before it returns or raises, whatever fails and wherever (open, any read, decoding, the parser, the expression compiler), and the original failure reaches the caller; template errors in HTML files name the file. A later compilation of the same, now readable, file succeeds.",
  ["fault_sequences", "crash_points", "inputs"],
  "every template file and every point of its processing at which something fails",
  "tests only read existing, well-formed files",
  [X, H, V], [("context managers", X + ":parseFile/parseURL, " + H + ":parseFile"), ("file name added", H + ":parseFile")],
  [], ["open/close calls", "exception raised by parseFile, parseURL, compilefile"]),
p("C18", "Each translation unit makes exactly one complete translation request",
  "Every i18n:translate unit, translatable attribute and message object reached by rendering makes exactly one request to the translation service, with the domain in force at that point of the template, the explicit message id or the whitespace-normalised content with names as placeholders, the mapping of all its names and data, and the untranslated text as default; its answer replaces the text once. Units in branches not taken, or abandoned by a failure, make no request.",
  ["programs", "fault_sequences"],
  "every nesting of units, names, domains and data, every sequence of answers, and failures at any point inside a unit",
  "tests check fixed small units without failures",
  [I, G, C], [("unit interpretation", I + ":do_insertTranslation/do_i18nVariable"), ("domain contexts", I + ":do_beginI18nContext, " + C)],
  [("i18nStack", "units being collected", I)], ["ITALExpressionEngine.translate calls", "output"]),
p("C19", "Macros are bound at each use, checked, and filled with the right slots",
  "Each rendering of a use-macro looks its macro up exactly once, at that moment, and renders what that lookup returns, so a macro replaced between two uses takes effect at the second; a macro of the wrong version or mode raises a METAL error before any of it is rendered. Each slot renders the filler given by the use in progress (an extending macro's own filler before that of its user), otherwise its default, and content of a use-macro element outside fillers is neither rendered nor evaluated.",
  ["programs", "histories", "fault_sequences"],
  "every set of templates, every sequence of macro lookups' answers (different versions of a macro, default, incompatible, failing) and every slot structure",
  "tests bind each macro name once; extension has one example",
  [I, G], [("macro lookup and checks", I + ":do_useMacro"), ("slot resolution", I + ":do_defineSlot"), ("slots collected", G + ":emitFillSlot/emitUseMacro")],
  [("macroStack", "macro uses in progress", I)], OBS_OUT + OBS_ENG),
p("C20", "Process-wide state is left as found",
  "Compiling, rendering, running server-side script code with the bundled engine, and the command-line drivers leave sys.stdout, sys.stderr, sys.argv and the interpreter-wide settings exactly as they found them, however they end. Output captured from script code is exactly what that code printed, and appears in the rendering once.",
  ["fault_sequences", "crash_points", "programs"],
  "every template and script, every point at which script code, an expression, the output stream or the file system fails",
  "tests never let script code or a driver run fail",
  [D, R, V], [("stdout swapped in try/finally", D + ":DummyEngine.evaluateCode, " + R + ":main")],
  [("sys.stdout, sys.argv", "redirected while code runs", D + ", " + R)], ["sys.stdout, sys.argv before and after"]),
p("C21", "Source annotations never change what is rendered",
  "With source annotations switched on, deleting the annotation comments from the output gives exactly the output with annotations off, whatever fails and is contained, and no annotation precedes an XML declaration. Every annotation names the template that the text following it, up to the next annotation, comes from.",
  ["programs", "fault_sequences", "configurations"],
  "every set of templates without translation units, every failing call contained by on-error",
  "seven fixed files, none with a failure",
  [I, G], [("pending annotation written before next text", I + ":_annotated_stream_write"), ("setSourceFile instructions", G)],
  [("_pending_source_annotation", "annotation owed to the output", I)], OBS_OUT),
p("C22", "Dynamic text and attribute values cannot break out of their context",
  "For every value, text inserted by tal:content/replace and attribute values set by tal:attributes are escaped so that parsing the output gives back exactly that value.",
  ["inputs"], "every string value",
  "tests use a handful of strings",
  [I, F], [("text escaping", I + ":_writeText"), ("attribute quoting", F + ":quote, attrEscape")]),
p("C23", "Static HTML and XML pass through unchanged in meaning",
  "A template without directives renders to markup that parses to the same document (elements, attributes, text, comments), with HTML's implied end tags made explicit before trailing whitespace.",
  ["inputs"], "every HTML and XML document",
  "tests use about seventy documents",
  [H, T, G], [("event to instruction translation", H + ", " + T), ("text joining", G + ":optimize")]),
p("C24", "Malformed directives are rejected when compiling, with their position",
  "Every unknown, duplicate, empty or conflicting TAL, METAL or i18n directive and every syntax error in define, repeat, attributes and substitution arguments is rejected at compile time with an error giving line and column; doubled semicolons stand for one.",
  ["inputs"], "every template text",
  "tests use a list of wrong templates",
  [G, F, H], [("checks", G + ":emitStartElement"), ("argument grammar", F + ":splitParts/parseAttributeReplacements/parseSubstitution")]),
p("C25", "The regression driver judges every file on its own",
  "Given any sequence of files, the regression driver reports each of them once and in order: OK exactly if what the driver renders for it equals the expected file, not OK if it differs or the expected file cannot be opened, failed if the file cannot be read, compiled or rendered. A failing file does not change what is reported for the others, and the exit status is that of failure exactly if some file was not OK; only script code that exits ends the sequence early.",
  ["histories", "fault_sequences"],
  "every sequence of files, with unreadable, damaged, failing and differing ones in any place",
  "tests give the driver one file at a time, all of them OK",
  [R, V, D], [("per-file try/except with stdout captured", R + ":main")],
  [("errors", "whether any file was not OK", R)], ["output stream and exit status of zope.tal.runtest.main"]),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in L:
        f.write(json.dumps(x) + "\n")
print(len(L))
