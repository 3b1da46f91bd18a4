"""The properties: what must hold, where it is anchored, and how it is decided (or why not)."""


def q(text, *over): return {"over": list(over) or ["inputs"], "text": text}
def a(files, mech, **kw):
    d = {"files": ["src/" + f for f in files], "mechanism": [{"name": n, "where": "src/" + w} for n, w in mech]}
    if "state" in kw: d["state"] = [{"name": n, "meaning": m, "where": "src/" + w} for n, m, w in kw["state"]]
    if "observe" in kw: d["observe_at"] = kw["observe"]
    return d


LIB = "libsrcml/"
PROPS = []
def P(**kw): PROPS.append(kw)


P(id="C01", title="NULL handles and NULL required arguments are rejected, not dereferenced",
  statement="Every public libsrcml function called with NULL for a handle, or for any other pointer argument it requires, does not dereference it and returns its documented failure "
            "value (an error status, NULL, or the documented neutral value of the query). Where NULL is documented as meaningful (clearing a setting, the default prefix, no close "
            "callback) it is never dereferenced either.",
  quantifier=q("every public function x every pointer parameter NULL, whatever the other arguments and the state of the handles", "inputs", "histories"),
  why_tests_cant="The unit tests pass NULL for a sample of arguments in one state of the archive; the guarantee is for each argument in every state and on every path through the callees.",
  anchors=a([LIB + "srcml.h", LIB + "srcml_archive.cpp", LIB + "srcml_unit.cpp", LIB + "srcml.cpp", LIB + "srcml_write.cpp", LIB + "srcml_transform.cpp"],
            [("argument checks at the head of each public function", LIB + "srcml_archive.cpp"), ("argument checks of the unit functions", LIB + "srcml_unit.cpp")],
            observe=["return value of the call", "absence of a NULL dereference"]),
  technique="interprocedural abstract interpretation (null-state and return-value analysis) of every public function",
  note="Path-enumerating abstract interpretation over the clang CFG with inlining up to five calls deep; assumes unmodelled libxml2/libc functions tolerate NULL as documented.")

P(id="C02", title="Positional accessors never reach outside their collection",
  statement="For every position argument, negative and maximal values included, the accessors of an archive's namespaces and macros and of a transformation result's units never read outside "
            "the collection: a position outside 0..size-1 yields the failure value, and a position inside it yields exactly the entry registered at that position. Lookups by prefix, URI or "
            "token and the size queries agree with what the positional accessors report.",
  quantifier=q("all int/size_t positions, all sizes of the collections, all registration histories", "inputs", "histories"),
  why_tests_cant="Tests use a few small positions on small collections; boundary and sign/width conversions range over 2^64 values.",
  anchors=a([LIB + "srcml_archive.cpp", LIB + "srcml_transform.cpp"],
            [("srcml_archive_get_namespace_* / get_macro_*", LIB + "srcml_archive.cpp"), ("srcml_transform_get_unit", LIB + "srcml_transform.cpp")],
            observe=["return value of the accessor"]),
  technique="abstract interpretation with symbolic ranges: each access must be dominated by a proof 0 <= pos < size",
  note="Integer conversions are modelled with their widths; sizes are unknown non-negative values.")

P(id="C03", title="Settings read back exactly as set and do not disturb each other",
  statement="After a successful srcml_archive_set_*, srcml_unit_set_*, enable, disable or register call, the corresponding query returns exactly the value given (NULL after NULL), and every other setting "
            "of the same object still returns what it returned before. A call that reports failure changes nothing.",
  quantifier=q("all argument values, in every prior state of the archive or unit", "inputs", "histories"),
  why_tests_cant="The unit tests set one value and read that one back; the independence of all other settings, in every prior state, is never examined.",
  anchors=a([LIB + "srcml_archive.cpp", LIB + "srcml_unit.cpp"],
            [("setters and getters of archives", LIB + "srcml_archive.cpp"), ("setters and getters of units", LIB + "srcml_unit.cpp")],
            observe=["return values of the getters after a setter"]),
  technique="abstract interpretation of each setter followed by each getter on the resulting symbolic state (sibling cross-check)",
  note="Each setter x each getter on an unknown object; std:: containers are modelled by summaries.")

P(id="C04", title="Convenience functions act exactly as the archive functions on one archive",
  statement="Each global convenience function (srcml_set_*, srcml_get_*, srcml_register_*, srcml_check_*, srcml_append_transform_* and so on) has on the global setup exactly the effect and result that the function of the same name "
            "has on an archive handle. The one-call translation function srcml() applies every global setting made this way to the archive and unit it works with.",
  quantifier=q("every convenience function, all arguments, any prior global setup", "inputs", "histories", "configurations"),
  why_tests_cant="Tests call a handful of convenience functions once each; equivalence with the handle-based sibling must hold for all arguments and prior setups.",
  anchors=a([LIB + "srcml.cpp", LIB + "srcml_archive.cpp"],
            [("convenience functions on the global archive", LIB + "srcml.cpp")], observe=["results of the global getters", "output of srcml()"]),
  technique="abstract interpretation: sibling equivalence of the outcome sets of convenience and handle functions",
  note="The outcome sets (result and effect per path) of the two siblings are compared after renaming the global object to the handle.")

P(id="C05", title="Option functions change exactly the option bits they name",
  statement="srcml_archive_enable_option, disable_option, set_options and the enable/disable pairs for hash and solitary unit set or clear exactly the named option flags, for every combination of flags already "
            "set; srcml_archive_get_options, has_hash and is_solitary_unit report them. Flags maintained internally are never changed by a caller's option mask nor reported to the caller.",
  quantifier=q("all 2^64 prior option words x all option arguments", "inputs", "configurations"),
  why_tests_cant="Tests toggle single flags from the default option word.",
  anchors=a([LIB + "srcml_archive.cpp", LIB + "srcml.h"], [("option functions", LIB + "srcml_archive.cpp")], observe=["srcml_archive_get_options"]),
  technique="abstract interpretation with per-bit symbolic evaluation of the option word",
  note="Each resulting bit is compared as a boolean function of the previous bit and the argument bit, so the result holds for all words.")

P(id="C06", title="Clones carry the whole setup and stay independent of the original",
  statement="srcml_archive_clone and srcml_unit_clone return an object on which every query answers as on the original, including registered namespaces, macros, extensions, attributes and transformations; no session, "
            "content or error state is carried over. The original is not changed, and afterwards a change to either object is never visible through the other.",
  quantifier=q("every setup an archive or unit can have at the time of cloning", "histories", "inputs"),
  why_tests_cant="Tests clone one small setup and compare some fields; a forgotten field or a shared buffer shows only for setups and later calls they do not make.",
  anchors=a([LIB + "srcml_archive.cpp", LIB + "srcml_unit.cpp", LIB + "srcml_types.hpp"],
            [("srcml_archive_clone", LIB + "srcml_archive.cpp"), ("srcml_unit_clone", LIB + "srcml_unit.cpp")], observe=["getters on the clone and the original"]),
  technique="abstract interpretation of the clone functions with a field-exhaustive comparison and alias analysis",
  note="Every field of the record is classified; aliasing is decided from the field types (raw and shared pointers) and the values copied.")

P(id="C07", title="Archive operations are refused outside the state they are meant for",
  statement="srcml_archive_write_unit and srcml_archive_write_string succeed only on an archive that is open for writing, srcml_archive_read_unit and srcml_archive_skip_unit only on one that is open for reading. "
            "Before an open, in the other mode, and after a close they report failure (error status, NULL, 0), use no stream and leave the archive as it was. An open that fails reports an error and leaves the "
            "archive as it was, so that it is still not open.",
  quantifier=q("every sequence of opens (all ten ways), reads, writes and closes on an archive, with any outcome of the underlying I/O", "histories", "inputs"),
  why_tests_cant="Tests try a few wrong-mode calls right after creation; the refusal must hold in every state any call sequence can reach, including after failures and reopening.",
  anchors=a([LIB + "srcml_archive.cpp", LIB + "srcml_types.hpp"],
            [("mode checks on srcml_archive::type", LIB + "srcml_archive.cpp"), ("srcml_archive_read_open_internal", LIB + "srcml_archive.cpp")],
            state=[("type", "whether the archive is open for reading, for writing, or not", LIB + "srcml_types.hpp")], observe=["return value", "streams used by the call"]),
  technique="typestate analysis: reachable abstract states of the handle under all call sequences, by abstract interpretation",
  note="Finite abstraction of the archive (mode, stream and parser pointers, flags); callees below the stream interface are effect summaries.")

P(id="C08", title="Every archive resource is released exactly once; archives can be reopened",
  statement="Whatever is called in whatever order on an archive (open in any of the ten ways, write_unit, write_string, read_unit, skip_unit, close, open again, free), every stream, buffer, text writer and reader it "
            "opens is released exactly once and never used afterwards; close leaves no output open and free leaves nothing behind. After srcml_archive_write_open_memory exactly the next close stores the buffer "
            "and its size through the caller's pointers. A closed archive that is opened again behaves as a new one.",
  quantifier=q("every sequence of archive calls, with any outcome of the underlying I/O", "histories", "inputs"),
  why_tests_cant="Tests open, use and close once; double closes, reopening, mixed raw and unit writes, freeing without close and failed opens are sequences they do not sample.",
  anchors=a([LIB + "srcml_archive.cpp", LIB + "srcml_translator.cpp", "parser/srcMLOutput.cpp"],
            [("srcml_archive_close / srcml_archive_free", LIB + "srcml_archive.cpp"), ("srcMLOutput::close", "parser/srcMLOutput.cpp")],
            state=[("translator, reader, output_buffer, xbuffer", "what the open archive holds", LIB + "srcml_types.hpp")], observe=["callbacks and buffers of the caller", "memory errors and leaks"]),
  technique="typestate and ownership analysis over all call sequences (abstract interpretation of the API functions, bisimulation for reopening)",
  note="Ownership contracts of libxml2 are a table; OOM in operator new is out of scope; an archive is assumed to be closed before it is opened again.")

P(id="C24", title="Element-wise writing stays balanced and is refused outside a started unit",
  statement="srcml_write_start_element, _end_element, _namespace, _attribute, _string and _end_unit report failure and write nothing on a unit that was not started, was ended, or whose end failed, whatever was called before. "
            "Within a started unit each of them can succeed; srcml_write_end_element is refused when no element is open, an element named unit is refused, and srcml_write_end_unit closes exactly the elements that are "
            "open and then the unit. Text writer and buffers of a unit exist only while it is started (or its end failed), are released exactly once, and srcml_unit_free leaves nothing behind. A unit without content "
            "yields NULL from the content queries and an error from unparse.",
  quantifier=q("every sequence of unit calls (start, elements, end, queries, unparse, free), any nesting depth, any outcome of the writes", "histories", "inputs"),
  why_tests_cant="Tests write a few well-formed sequences; the guarantees are about every other sequence: too many ends, writes after the end, restarted units, freeing midway, any depth.",
  anchors=a([LIB + "srcml_unit.cpp", LIB + "srcml_translator.cpp"],
            [("srcml_write_start_unit / srcml_write_end_unit", LIB + "srcml_unit.cpp"), ("srcml_translator::add_*", LIB + "srcml_translator.cpp")],
            state=[("unit_translator, output_buffer", "the writer of a started unit", LIB + "srcml_types.hpp"), ("output_unit_depth", "elements open inside the unit", LIB + "srcml_translator.hpp")], observe=["return value", "the unit's srcML"]),
  technique="typestate analysis: reachable abstract states of a unit under all call sequences, with an element counter, by abstract interpretation",
  note="The number of open elements is tracked exactly for 0 and 1 and as 'more' beyond; libxml2's in-memory creators are assumed not to fail.")

P(id="C25", title="What is derived from a unit never outlives its content or its revision",
  statement="When a unit is parsed again or written again, everything derived from its earlier content (the cached full, outer and inner texts, their per-revision versions, and the source text) is dropped or recomputed, and the "
            "recorded positions describe the new content. Text cached for one srcDiff revision is never returned while another revision is selected. The body of a unit is read from the archive only once.",
  quantifier=q("every interleaving of parses, element writes, content queries, unparses and revision changes on a unit", "histories"),
  why_tests_cant="Tests query a unit once after one parse; staleness needs a query, then new content or another revision, then the same query, in combinations tests do not enumerate.",
  anchors=a([LIB + "srcml_unit.cpp", LIB + "srcml_transform.cpp", LIB + "srcml_reader_handler.hpp"],
            [("srcml_write_end_unit stores the content", LIB + "srcml_unit.cpp"), ("srcml_unit_get_srcml / _outer / _inner caches", LIB + "srcml_unit.cpp")],
            state=[("srcml_revision, srcml_fragment(_revision), srcml_raw(_revision), src", "derived texts", LIB + "srcml_types.hpp")], observe=["srcml_unit_get_srcml*", "srcml_unit_unparse_*"]),
  technique="interprocedural must-write dataflow on the CFG (derived fields discovered from the code), abstract interpretation of the queries",
  note="Fields, not object identity: a function that resets the caches of another unit would be accepted. Units created in the function itself are exempt.")

P(id="C26", title="No source text is lost, doubled or moved between lexer and written markup",
  statement="For every source text, each byte the lexer receives becomes part of exactly one token (no character stops the lexer), and each token's text is written to the markup exactly once, in the order of the source, as text "
            "(control characters as an escape element). Guessing ahead, replaying lookahead, pausing the output, skipped and preprocessor branches, and errors leave no token behind, write none twice and none ahead of an earlier one; "
            "inserting or retyping start and end tags never removes or changes source text.",
  quantifier=q("every source text in every language, and every order of guesses, preprocessor lines, pauses and errors", "inputs", "histories"),
  why_tests_cant="Tests compare the markup of chosen well-formed sources. Lost or reordered text needs garbage or unfinished constructs, preprocessor lines inside of a guess, or an error in the middle of a lookahead.",
  anchors=a(["parser/StreamMLParser.hpp", "parser/srcMLOutput.cpp", "parser/KeywordLexer.g", "parser/CommentTextLexer.g", "parser/srcMLParser.g"],
            [("token queues, nextToken, consume, pushSToken", "parser/StreamMLParser.hpp"), ("processToken, processText", "parser/srcMLOutput.cpp"), ("characters every rule accepts", "parser/OperatorLexer.g")],
            state=[("tb, pretb, skiptb, pouttb, inskip", "queues of tokens on their way to the output", "parser/StreamMLParser.hpp")], observe=["srcml_unit_parse_*", "srcml_unit_unparse_*"]),
  technique="abstract interpretation of the generated lexers on sets of characters; typestate of the token queues over every function and choice of queue; guess balance on the CFG with exceptions; effect analysis of the writer",
  note="The antlr runtime is trusted, and the grammar is assumed to reach the end of the input (termination is not decided). Characters before the lexer belong to C16, bytes after the writer to C01.")

P(id="C15", title="Every character is written so that it reads back as itself",
  statement="Whatever characters a source text or its metadata contain, the written markup is well-formed and reads back as the same characters: <, > and & become entities exactly once, control characters XML cannot hold become an "
            "escape element whose code every reader turns back into the same byte, all other characters are written unchanged. Metadata (filename, url, version, macros, attributes) is escaped when written and decoded when read; "
            "content that is markup already is never escaped again, and nothing else is written as markup.",
  quantifier=q("every character at every place of a source text, and every value of the metadata", "inputs"),
  why_tests_cant="Tests contain few special characters in few places: a character missed in one branch, one lexer rule or one attribute shows only for that combination.",
  anchors=a(["parser/srcMLOutput.cpp", "parser/StreamMLParser.hpp", "parser/CommentTextLexer.g", LIB + "srcml_translator.cpp", LIB + "unit_utilities.cpp", LIB + "sax2_srcsax_handler.cpp"],
            [("processText escapes", "parser/srcMLOutput.cpp"), ("escape element for control characters", "parser/StreamMLParser.hpp"), ("reading escape elements", LIB + "unit_utilities.cpp"), ("attribute values", LIB + "unit_utilities.cpp")],
            observe=["srcml_unit_get_srcml*", "srcml_unit_unparse_*", "srcml_unit_get_filename etc. after reading"]),
  technique="abstract interpretation of the text writer per character over symbolic texts; character-set analysis of the lexers; origin (taint) analysis of all data written as markup; decoding rule for parser attributes",
  note="libxml2's own escaping is trusted. U+FFFE/U+FFFF, namespace prefixes and srcml_archive_write_string() (given markup) are not covered.")

P(id="C18", title="Reading gives exactly the markup and text of each unit of the input",
  statement="Reading srcML gives for each unit exactly the markup between the start and end of that unit in the input, byte for byte, with no gap, overlap or text of another unit, wherever the parser's buffer is moved meanwhile; the "
            "namespaces of the archive are added to its start tag once, at the recorded place. The source of the unit is its text, CDATA sections and escaped characters exactly once each; comments and processing instructions are not "
            "part of it; lines are counted per unit. Each unit, the root and each macro list is announced once, in order, with its own name, namespaces and attributes; a solitary unit, an archive and an empty unit are told apart. "
            "What may be missing in an element (prefix, namespace URI, data) is never used unchecked.",
  quantifier=q("every srcML document: every order of elements, text, comments, CDATA, processing instructions, every position at which the parser's buffer moves", "inputs", "histories"),
  why_tests_cant="The markup is cut out of libxml2's moving buffer by position: an error shows only for one neighbourhood of two events, or where a buffer boundary falls.",
  anchors=a([LIB + "sax2_srcsax_handler.cpp", LIB + "srcml_reader_handler.hpp", LIB + "unit_utilities.cpp"],
            [("update_ctx", LIB + "sax2_srcsax_handler.cpp"), ("SAX callbacks", LIB + "sax2_srcsax_handler.cpp"), ("startUnit / endUnit", LIB + "srcml_reader_handler.hpp")],
            state=[("base, prevbase, prevconsumed", "position in the parser's buffer up to which the markup was taken over", LIB + "sax2_srcsax_handler.hpp")],
            observe=["srcml_unit_get_srcml, _inner, _outer", "srcml_unit_unparse_*", "srcml_unit_get_loc"]),
  technique="abstract interpretation of the SAX callbacks over symbolic buffer positions compared as linear forms (tiling of the input); typestate of the registered callbacks; nullness of what libxml2 passes",
  note="What libxml2 guarantees about its callbacks (cur at the end of the event, text given from the buffer itself only where cur is its start) is assumed; the values of attributes are C13 and C15, the hand-over between the threads is C17.")

P(id="C13", title="Metadata is written once, under its own name, and read back into its own field",
  statement="The start tag of a unit or of the root carries each piece of metadata that is set (revision, language, url, filename, version, timestamp, hash) exactly once, under its own name, with exactly its value, also "
            "where others are not set or a value is empty; the source encoding is there exactly when it is to be stored, once, also for a unit that was read with one; the size of tabs exactly with positions; the options that "
            "change the markup at the root; all other attributes of the unit or archive follow in order. Reading puts each of these back into the field it was written from and into no other, each option name into its bit "
            "without losing others, other attributes in order and without doubling them, each macro list entry as token and type.",
  quantifier=q("every combination of metadata set and not set, of options and of other attributes, for units and archives, written whole or element by element", "inputs", "configurations"),
  why_tests_cant="Fourteen places pass a dozen strings of the same type on by position; tests set a few combinations, and a swap or a lost attribute shows only for the pair or the combination it concerns.",
  anchors=a(["parser/srcMLOutput.cpp", LIB + "srcml_translator.cpp", LIB + "unit_utilities.cpp", LIB + "srcml_reader_handler.hpp", LIB + "srcml_archive.cpp", LIB + "srcml_unit.cpp"],
            [("srcMLOutput::startUnit, outputMacroList", "parser/srcMLOutput.cpp"), ("unit_update_attributes", LIB + "unit_utilities.cpp"), ("startRoot, metaTag", LIB + "srcml_reader_handler.hpp"), ("add_unit, add_start_unit, prepareOutput", LIB + "srcml_translator.cpp")],
            observe=["attributes of unit elements", "srcml_unit_get_*", "srcml_archive_get_*"]),
  technique="abstract interpretation of the writer with symbolic metadata and of the readers for every attribute name the writer uses; comparison of the two tables; dataflow from fields to parameters at every call",
  note="Escaping of the values is C15; namespaces are not part of this. What srcml_unit_set_* and get_* do is C03.")

P(id="C14", title="Every element that is opened is closed exactly once, as itself",
  statement="Whatever the source, also one that is incomplete or wrong, every element the parser opens is closed exactly once, innermost first, and under the name it was opened with, also when the name is decided only later: a mode "
            "never ends while its elements are open, a comment ends where its own end is found, also inside of a preprocessor line, and at the end of the input open comments, then all modes, then the unit are closed. "
            "Each end takes the end position of its own element. The writer turns each into exactly one start and one end, an empty element into both, with each attribute under its own name.",
  quantifier=q("every source text in every language, complete or not, every sequence of tokens", "inputs", "histories"),
  why_tests_cant="The ten thousand examples of the test suite are sources in which the elements close well; what closes elements is spread over modes, tokens and the writer, and an omission shows only for the construct it concerns.",
  anchors=a(["parser/StreamMLParser.hpp", "parser/ModeStack.hpp", "parser/srcMLParser.g", "parser/srcMLOutput.cpp", "parser/Mode.cpp"],
            [("startElement, endElement, consumeSkippedToken, completeSkip", "parser/StreamMLParser.hpp"), ("popMode", "parser/ModeStack.hpp"), ("endAllModes", "parser/srcMLParser.g"), ("processToken", "parser/srcMLOutput.cpp")],
            state=[("openelements", "elements opened in a mode and not yet closed", "parser/srcMLState.hpp"), ("open_comments, ends", "comments and elements whose end is still to come", "parser/StreamMLParser.hpp")],
            observe=["the XML that is written", "end positions"]),
  technique="abstract interpretation of the parser's operations on elements: queued tags, stacks of open elements and of end positions are compared on every path; obligations at every place a mode ends",
  note="Which elements the grammar opens for a construct is not part of this (see C31), nor is the balance of the modes themselves, which endAllModes ends at the latest.")

P(id="C27", title="Positions are those of the source",
  statement="With positions, each element starts at the line and column of its first token and ends at those of the last token consumed before its end, whatever is skipped between: white space, comments, preprocessor lines and macro "
            "calls leave the end of the code before them unchanged, and a comment takes the end of its own text. Each line end of the source counts as one line, in code, in comments and in strings; tabs have the size asked for "
            "everywhere; line and column of start and end are written in this order.",
  quantifier=q("every source text, every mixture of code, comments, preprocessor lines, macros, tabs and strings, every size of tabs", "inputs", "configurations"),
  why_tests_cant="The test suite runs almost entirely without positions; they are put together from a dozen variables in the parser and two lexers, and an error shows only for the neighbourhood of two constructs.",
  anchors=a(["parser/StreamMLParser.hpp", "parser/srcMLOutput.cpp", "parser/TextLexer.g", "parser/CommentTextLexer.g", LIB + "srcml_translator.cpp"],
            [("consume, consumeSkippedToken, pushSToken, pushEToken, pushESkipToken", "parser/StreamMLParser.hpp"), ("addPosition", "parser/srcMLOutput.cpp"), ("EOL, COMMENT_TEXT", "parser/CommentTextLexer.g"), ("translate", LIB + "srcml_translator.cpp")],
            state=[("lastline, lastcolumn", "end of what was consumed last", "parser/StreamMLParser.hpp")],
            observe=["pos:start and pos:end"]),
  technique="abstract interpretation with positions as terms over the token they are read from; typestate of line ends in the lexers; dataflow of the size of tabs",
  note="Columns within a token are those of ANTLR's scanner. That an element is opened at its first token is not part of this; the start of an element opened before a preprocessor line lies behind it.")

P(id="C12", title="The language of a source is chosen by name, then archive, then extension",
  statement="A unit is parsed in the language set for it; if it has none, in that of the archive; if there is none (or none that is known), in the one registered for what follows the last dot of the file name (a .gz aside), where the last "
            "registration of an extension counts, and C becomes C++ only where this was asked for. Without any of these the parse is refused. Each language has one name and one number, every name of the list of languages is found, and the standard "
            "extensions mean the same at first and when registered again.",
  quantifier=q("every name of a language, every file name, every sequence of registrations of extensions, every combination of unit and archive language", "inputs", "histories", "configurations"),
  why_tests_cant="Tests look up the standard extensions once; the order of registrations, names that are no languages and combinations of unit, archive and file name are open.",
  anchors=a([LIB + "language_extension_registry.cpp", "parser/Language.cpp", "parser/Language.hpp", LIB + "srcml_unit.cpp", LIB + "libsrcml.cpp"],
            [("get_language_from_filename, register_user_ext", LIB + "language_extension_registry.cpp"), ("getLanguage", "parser/Language.hpp"), ("srcml_unit_parse_internal", LIB + "srcml_unit.cpp")],
            state=[("registered_languages", "extensions with their languages", LIB + "language_extension_registry.hpp")],
            observe=["the language attribute of units", "SRCML_STATUS_UNSET_LANGUAGE"]),
  technique="abstract interpretation of the lookups over symbolic tables, with facts on what was compared; comparison of the tables as they stand in the program",
  note="What each extension ought to mean is not part of this beyond the agreement of the two tables. Tables of extensions are followed with three entries.")

P(id="C22", title="Every resource is released exactly once, and the caller's streams are left alone",
  statement="Whatever a library function obtains (source inputs, encoding converters, output and memory buffers, parser contexts, documents, nodes, namespaces and text of transformations, stylesheets, schemas, loaded libraries, "
            "units) is released exactly once and not used afterwards, on every path, also when an open, a parse, a write or a transformation fails midway or throws. A source input closes the file it opened itself; a FILE or "
            "descriptor the caller provides stays open; the caller's close callback is called exactly once, with its context. What is handed to the caller is not released by the library.",
  quantifier=q("every path of every function, including failures at any call, and every way to provide a source", "inputs", "faults"),
  why_tests_cant="Leaks and double releases on error paths need a failure at a particular call and show in no return value; tests run the successful paths without a leak checker.",
  anchors=a(["parser/UTF8CharBuffer.cpp", LIB + "srcml_transform.cpp", LIB + "xpathTransformation.cpp", LIB + "xsltTransformation.cpp", LIB + "srcml_unit.cpp", LIB + "srcsax_controller.cpp"],
            [("UTF8CharBuffer constructors and destructor", "parser/UTF8CharBuffer.cpp"), ("smart pointers and their deleters", LIB + "libxml2_utilities.hpp"), ("srcsax_create_context_inner / srcsax_free_context", LIB + "srcsax_controller.cpp")],
            observe=["memory errors and leaks", "close callbacks", "the caller's streams"]),
  technique="ownership analysis: abstract interpretation of every function that obtains or releases a resource, with contracts of the libraries and computed summaries; constructor-destructor pairing of members",
  note="Archive and unit handles across calls are C08 and C24. Containers of resources filled in loops are tracked as one element; srcml_unit_apply_transforms is decided structurally (what is created flows into an owner).")

P(id="C21", title="Transformations apply in order to every result and answer with the right type",
  statement="Appending a transformation adds exactly one, at the end, with its arguments in their own roles; a parameter belongs to the transformation appended last, a string parameter as a quoted literal of its value. "
            "Applying them runs each on every node that the one before selected, in order, and keeps every node it selects; a transformation that cannot be evaluated makes the call fail. The result has the type of the "
            "last answer (none, units, boolean, number, string) with exactly that value, each selected node one unit, in order, with its text escaped; without a place for the result a single unit replaces the unit. "
            "An accessor of the result for another type gives its neutral value.",
  quantifier=q("every list of transformations and parameters, every type of result of each, every kind and number of selected nodes", "inputs", "histories"),
  why_tests_cant="Tests apply one or two transformations that each select elements; lists where one selects several nodes of which some give nothing, attributes, text, or fails, multiply beyond what examples cover.",
  anchors=a([LIB + "srcml_transform.cpp", LIB + "xpathTransformation.cpp", LIB + "xsltTransformation.cpp", LIB + "relaxngTransformation.cpp"],
            [("srcml_unit_apply_transforms", LIB + "srcml_transform.cpp"), ("what an expression answers", LIB + "xpathTransformation.cpp"), ("what a stylesheet answers", LIB + "xsltTransformation.cpp")],
            state=[("archive->transformations", "the transformations in order", LIB + "srcml_types.hpp")], observe=["srcml_transform_get_*", "srcml_unit_apply_transforms"]),
  technique="abstract interpretation: typestate monitor over the loops of srcml_unit_apply_transforms, and evaluation of each kind of transformation for each type of native answer",
  note="What libxml2 and libxslt compute (which nodes an expression selects, what a stylesheet produces) is not decided.")

P(id="C09", title="A step that fails makes the call fail",
  statement="A libsrcml function never reports success when a step it depends on has failed: output that cannot be opened or written, an input that cannot be opened, read to its end or decoded (including input that ends "
            "inside of a multibyte character or an encoding without a converter), srcML that cannot be parsed, a translation that stops early, a schema or stylesheet that cannot be loaded. It returns an error status, or "
            "NULL where it returns a pointer, and never SRCML_STATUS_OK with an output that is silently shorter.",
  quantifier=q("every public function answering with a status or a pointer, every step in it or below it that can fail, and every path from that step to a return", "inputs", "faults"),
  why_tests_cant="The failures are those of disks, devices, callbacks and converters in the middle of an operation; the tests run with input and output in memory or in small files, where no write, read or conversion fails.",
  anchors=a([LIB + "srcml_archive.cpp", LIB + "srcml_unit.cpp", LIB + "srcml_translator.cpp", LIB + "srcml_transform.cpp", LIB + "libsrcml.cpp", "parser/UTF8CharBuffer.cpp"],
            [("result of the translation", LIB + "srcml_unit.cpp"), ("result of the writer", LIB + "srcml_translator.cpp"), ("error of the input", "parser/UTF8CharBuffer.cpp")], observe=["return value of the call"]),
  technique="interprocedural path-sensitive abstract interpretation: typestate of every fallible result, which must be known good at each successful return",
  note="Only running out of memory is excluded. Errors that libxml2 keeps in a writer or an input are taken to be reported by the last call on it. Diagnostics on stderr are not decided.")

P(id="C10", title="No exception leaves the library or ends the process",
  statement="Whatever the input - a file that does not exist, an unknown encoding, srcML that is not well formed, a stylesheet or schema that is not valid - no C++ exception raised by srcML reaches the C caller of a "
            "libsrcml function, passes through libxml2 from a callback, or leaves the reader thread, and none is raised where it would terminate the process (from a destructor, or by a rethrow with nothing to rethrow): "
            "the function returns its failure value instead.",
  quantifier=q("every public function, every callback given to libxml2 and every thread function; every exception any function they reach may raise, on every path", "inputs", "histories"),
  why_tests_cant="The tests reach two or three of the throw expressions; a handler that catches one type too few, or a rethrow outside of a handler, shows only on the input that raises that exception.",
  anchors=a([LIB + "srcml_unit.cpp", LIB + "srcml_archive.cpp", LIB + "srcml_translator.cpp", LIB + "srcml_sax2_reader.cpp", LIB + "srcml_transform.cpp", "parser/UTF8CharBuffer.cpp"],
            [("handler around opening the source", LIB + "srcml_unit.cpp"), ("handlers around the translation", LIB + "srcml_translator.cpp"), ("handler of the reader thread", LIB + "srcml_sax2_reader.cpp"),
             ("handler around a new transformation", LIB + "srcml_transform.cpp")], observe=["return value of the call", "the process goes on"]),
  technique="interprocedural exception-flow analysis: least fixpoint of the exception types leaving each function over the call graph",
  note="Out-of-memory and thread creation failures, positions within std::string, and the balance of the grammar's mode stack are assumed.")

P(id="C11", title="Archives, units and parses share no hidden mutable state",
  statement="What happens to one archive, unit, parse or transformation never depends on what other archives did before it or are doing at the same time, in the same thread or another: apart from the default archive "
            "and unit of the convenience functions (srcml(), srcml_set_*, srcml_get_*), which only those use, nothing with static or thread storage duration is modified after its initialisation or computed once from the "
            "first archive that comes along, and no process-wide state of another library is changed.",
  quantifier=q("every interleaving of operations on any number of archives, units and threads", "histories", "schedules"),
  why_tests_cant="Each test program works on one archive at a time, mostly one per process; interference needs two archives with different settings, interleaved or in sequence on one thread.",
  anchors=a([LIB + "sax2_srcsax_handler.cpp", "parser/srcMLOutput.cpp", "parser/Language.cpp", "parser/UTF8CharBuffer.cpp", LIB + "libsrcml.cpp"],
            [("per-archive state of the SAX handlers", LIB + "sax2_srcsax_handler.hpp"), ("lookup tables", "parser/Language.cpp")],
            state=[("global_archive, global_unit", "the defaults of the convenience functions", LIB + "libsrcml.cpp")], observe=["output of a second archive", "progress of two interleaved readers"]),
  technique="whole-program effect analysis of every variable with static or thread storage duration (writes through references, pointers and iterators, call-graph reachability)",
  note="Handles are followed inside a function; a pointer to a static stored in an object and written elsewhere is not. Global state inside libxml2/libxslt is covered by a list of its functions.")

P(id="C16", title="Source input reaches the lexer complete, in order and decoded",
  statement="For every way of giving source code to a parse (file name, memory, FILE*, descriptor, read callback) and however a read callback splits it, every byte of the source is converted to UTF-8 exactly once and in order "
            "- a character split between two reads is put together, not dropped or converted in halves - and every resulting byte is handed to the lexer exactly once, except that CR and CR LF arrive as one LF. "
            "Decoding uses the encoding set for the unit, else that of the archive, else what the byte order mark shows, else ISO-8859-1; a UTF-8 byte order mark is not part of the text. "
            "The end of the input is reported only when a read delivers nothing; a failed read or conversion is flagged as an error. (An incomplete character at the very end of the input is not covered.)",
  quantifier=q("every source text, every encoding and every sequence of chunk sizes and results of the read callback", "inputs", "fault sequences"),
  why_tests_cant="Tests give whole small texts whose characters never fall on the boundary of a 4096-byte buffer or of a short read, and never fail in the middle.",
  anchors=a(["parser/UTF8CharBuffer.cpp", LIB + "srcml_unit.cpp"],
            [("reading and converting", "parser/UTF8CharBuffer.cpp"), ("line ends and delivery", "parser/UTF8CharBuffer.cpp"), ("choice of the encoding", LIB + "srcml_unit.cpp")],
            state=[("raw, inbytesleft", "bytes read, and how many of them belong to an incomplete character", "parser/UTF8CharBuffer.hpp"), ("cooked, pos, lastcr", "converted text and what of it was handed on", "parser/UTF8CharBuffer.hpp")],
            observe=["text of the unit", "srcml_unit_get_src_encoding", "status of the parse"]),
  technique="abstract interpretation with buffer positions as linear forms over symbols, per entry state of the buffer",
  note="iconv itself is trusted: it consumes a prefix and reports what is left over of input and output.")

P(id="C17", title="Reading never hangs: reader and parser thread take strict turns",
  statement="Reading from an archive always returns: whatever the srcML contains - a root that is not a unit, a unit cut off in the middle, text after the end, nothing at all - and however the threads are scheduled, opening, "
            "reading, skipping and closing an archive end with a unit, NULL or a status. The reader and its parser thread take strict turns: the reader goes on only when the parser has paused or ended, the parser only when it is "
            "resumed or told to end; no wake-up is lost or taken without a reason. Freeing an archive at any point of its reading ends the parser thread before anything that it uses is gone.",
  quantifier=q("every schedule of the two threads, every point at which the parsing can end, and every point at which the archive is freed", "schedules", "inputs", "histories"),
  why_tests_cant="A lost or spurious wake-up needs one particular interleaving of two threads in a few instructions, and the ways in which a document can end early are as many as the documents; the tests read well-formed archives to their end.",
  anchors=a([LIB + "srcml_reader_handler.hpp", LIB + "srcml_sax2_reader.cpp", LIB + "srcml_sax2_reader.hpp"],
            [("waits and notifications", LIB + "srcml_reader_handler.hpp"), ("thread function", LIB + "srcml_sax2_reader.cpp")],
            state=[("is_done, terminate, turn", "guarded by the mutex of the handler", LIB + "srcml_reader_handler.hpp")], observe=["the call returns", "the process ends"]),
  technique="typestate of mutex, condition variable and shared flags over every path of both threads; the wait predicates are tabulated and checked against every hand-over",
  note="Mutex and condition variable are taken to behave as the standard says. That libxml2 itself comes to an end on every input is not decided.")

P(id="C19", title="The generated hash is the SHA-1 of exactly the source bytes",
  statement="When the hash option is on and the unit has no hash set by the user, a parse leaves in the unit the SHA-1 of exactly the bytes of the source as they were read - each byte once, in order, before decoding, "
            "including a byte order mark, however the input was split into reads - as 40 lower-case hexadecimal digits; parsing again replaces a generated hash. A hash set by the user is never replaced, and without the "
            "option nothing is computed.",
  quantifier=q("every source text and every sequence of chunk sizes of the read callback, every sequence of parses and settings", "inputs", "histories"),
  why_tests_cant="Tests hash a few short one-chunk ASCII texts; the bytes carried over from one read to the next, and re-parses, do not occur in them.",
  anchors=a(["parser/UTF8CharBuffer.cpp", "parser/sha1utilities.hpp", LIB + "srcml_unit.cpp"],
            [("hashing of what was read", "parser/UTF8CharBuffer.cpp"), ("hexadecimal digits", "parser/sha1utilities.hpp"), ("whether a hash is wanted", LIB + "srcml_unit.cpp")],
            state=[("hash, hash_generated", "the hash and whether a parse made it", LIB + "srcml_types.hpp")], observe=["srcml_unit_get_hash"]),
  technique="abstract interpretation with buffer positions as linear forms over symbols, per entry state of the buffer and per setting of the unit and archive",
  note="SHA1_Update and friends are trusted. srcml_unit_set_hash is covered by C02.")
P(id="C30", title="Parsing and unparsing give back the source",
  statement="For every source text in every language, the text of the srcML produced from it, unparsed, is the source again, byte for byte in the source's encoding and with its line ends.",
  quantifier=q("every source text, language, encoding and line end", "inputs"),
  why_tests_cant="It ranges over all source texts; tests use some ten thousand.",
  anchors=a(["parser/srcMLParser.g", "parser/StreamMLParser.hpp"], [("every rule of the grammar that consumes tokens", "parser/srcMLParser.g")], observe=["srcml_unit_unparse_*"]),
  technique="none",
  na="As a whole it needs the composition of lexers, a guessing recursive-descent parser, writer and reader over unbounded texts, which no sound static argument in reach covers; its static parts are decided elsewhere (text is kept "
     "between lexer and writer, escaping, conversion of encodings, line ends: C05, C06, C07, C15, C16, C17)")

P(id="C31", title="The markup describes the syntax of the source",
  statement="For every source text that is correct in its language, the elements srcML inserts name the syntactic constructs of that language and enclose exactly their text.",
  quantifier=q("every program of every supported language", "inputs"),
  why_tests_cant="Languages are infinite; the test suite holds examples of each construct.",
  anchors=a(["parser/srcMLParser.g"], [("start, statements, pattern_check", "parser/srcMLParser.g")], observe=["element names and nesting"]),
  technique="none",
  na="There is no definition of the languages to compare with: srcML's grammar is the only one here, island-style, with guessing; correctness of markup is a relation to a language definition outside of the code")

P(id="C32", title="Parsing ends for every source text",
  statement="For every source text, also incomplete or wrong, parsing comes to an end, with memory proportional to the text.",
  quantifier=q("every source text", "inputs"),
  why_tests_cant="A loop of the parser that consumes nothing shows only for one sequence of tokens.",
  anchors=a(["parser/srcMLParser.g"], [("start and the loops of the rules", "parser/srcMLParser.g")], observe=["the call returns"]),
  technique="none",
  na="The rules loop on modes and lookahead without consuming a token on every turn (modes are ended or started instead); a ranking function over the mode stack for some 600 rules with semantic predicates is out of reach of a "
     "static analysis, and a weaker rule would raise false alarms. What is decidable (recursion, errors, pausing) is part of C26")

P(id="C33", title="The client handles each input once and in order",
  statement="srcml applied to any list of files, directories, archives and remote sources writes one unit per source, in the order of the input, whatever the number of threads, and its exit status tells whether all were handled.",
  quantifier=q("every list of inputs and number of threads", "inputs", "schedules"),
  why_tests_cant="Schedules of the worker threads and combinations of sources are beyond what tests sample.",
  anchors=a(["client/ParseQueue.cpp", "client/WriteQueue.cpp"], [("ParseQueue, WriteQueue", "client/WriteQueue.cpp")], observe=["the archive written", "exit status"]),
  technique="none",
  na="The client is not built in this sandbox (curl is absent): most of its sources cannot be type-checked, so what flows into and out of the two queues is not there to be analysed, and no change to it could be confirmed")
