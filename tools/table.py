prop(
    "C01", "Looking at a spec file through any view changes nothing",
    "Opening and leaving any view of a spec file (lines, macro definitions, sections, tags, changelog, prep, sources, patches), alone or nested, and reading any property without modifying anything leaves the content exactly as it was, line by line and byte by byte, with and without autosave. Parsing lines into any of the mid-level objects and writing them back reproduces the same lines, including odd white space, comments, conditional expansions, multi-line values, unusual characters and unparseable leftovers.",
    ["inputs", "configurations"], "for all spec file contents (LF line ends, splittable section headers) and all views, options and nestings of them",
    "The tests round-trip a few dozen hand-picked snippets and the spec files in tests/data; the guarantee is about every combination of line shapes, which is where the historic whitespace, quoting and continuation bugs were.",
    ["specfile/specfile.py", "specfile/sections.py", "specfile/tags.py", "specfile/macro_definitions.py", "specfile/prep.py", "specfile/changelog.py", "specfile/sourcelist.py"],
    [("parse() / get_raw_*() pairs", "all view classes"), ("view generators writing back in finally", "specfile/specfile.py")],
    "bounded-exhaustive enumeration of line sequences and character strings on the real parsers, round-trip oracle",
    "Exhaustive for all sequences of up to 3-4 lines per view alphabet, all strings of up to 4 metacharacters in 20 line templates and all combinations of up to 4 of 15 content blocks as RPM-valid files. Says nothing about longer interactions; CR is excluded.",
)
prop(
    "C02", "Memory and disk stay in step through load, edit, save, reload and autosave",
    "Loading a file gives exactly its bytes (undecodable bytes included) and its trailing newline or the lack of it; saving writes exactly the content in memory to the current path and nothing else; an edit of one line leaves all other bytes alone. With autosave every view exit saves, without it nothing is written until save() or the exit of the specfile used as a context manager; exceptions inside a view or context propagate, keep the changes made before them, and still save where a normal exit would. Failed saves and reloads leave memory and the existing file untouched, and reload() discards memory in favour of the file.",
    ["histories", "inputs", "fault_sequences"], "for all histories of edits, saves, reloads, autosave toggles, path changes, foreign writes, exceptions and failing saves, and all file contents with LF line ends",
    "Tests check single save/reload calls; orders of operations, exceptions inside views, missing trailing newlines and undecodable bytes multiply to thousands of histories.",
    ["specfile/specfile.py", "specfile/context_management.py"],
    [("_read_lines / __str__ / save / reload", "specfile/specfile.py"), ("lines() generator with finally", "specfile/specfile.py"), ("__exit__ saves", "specfile/specfile.py")],
    "exhaustive operation-sequence exploration of the real object against a reference state machine (memory + files)",
    "All histories of up to 3 (thorough: 4) of 14 operations from 4 initial files with and without autosave; all byte values and all sequences of up to 3 byte units in two places. CR/CRLF conversion is a recorded known finding.",
)
prop(
    "C03", "Edits of tags change exactly what was asked for",
    "Tags are exactly the tag lines of a section in order, each with its name, value, position and the comment lines directly above it. Changing a value, name or comment changes only those characters; deleting a tag (by index, negative index, slice or name) removes only its lines and its comments and at most compresses the empty lines at the joint; inserting places the new tag between its neighbours, after the end of a condition block that ends there, and every other line of the spec file stays as it was.",
    ["inputs", "histories"], "for all section contents mixing tags of every shape with comments, blank lines, macro definitions and conditions, all tags in them and all edit sequences",
    "Tests edit a handful of fixed sections; which neighbouring lines survive depends on every combination of what surrounds the tag.",
    ["specfile/tags.py", "specfile/specfile.py"],
    [("Tags.insert / __delitem__ / find / get_raw_section_data", "specfile/tags.py"), ("Comments and preceding lines", "specfile/tags.py"), ("Tag.get_position", "specfile/tags.py")],
    "exhaustive document x edit-sequence exploration against an independent line model",
    "All preambles of up to 3 of 12 unit shapes (4 of 6 shapes) x 24 edits of each tag, all edit pairs on shorter preambles, and the edits through Specfile.tags() in main and sub packages.",
)
prop(
    "C04", "Sections begin and end where RPM says, and edits stay inside them",
    "A spec file is split exactly at the literal section header lines RPM recognises (any case, trailing white space, options), not at look-alikes inside macro bodies, comments or longer words; every line belongs to exactly one section, and sections are found by name (case-insensitive) and options (case-sensitive). Replacing, extending, deleting, inserting, renaming, swapping or copying sections or their lines, or changing their options, changes exactly those lines; content that begins on a header line stays valid when replaced. parsed_sections presents the text RPM obtained by expanding macros and resolving conditions, split in the same way, only at newlines.",
    ["inputs", "histories"], "for all sequences of section headers and body lines and all edits of all sections",
    "Tests cover a few fixed documents; headers with options, case variants, macro bodies and continuation lines combine freely.",
    ["specfile/sections.py"],
    [("Sections.parse with excluded macro bodies", "specfile/sections.py"), ("Sections.find / Section.id", "specfile/sections.py"), ("Section.get_raw_data", "specfile/sections.py")],
    "exhaustive document x edit exploration against a reference splitter, cross-checked with RPM's own parser",
    "All documents of up to 3 of 15 units x 14 edits of each section; all script layouts of up to 4 of 12 units compared with librpm 4.18; all documents of up to 3 of 16 units for parsed_sections; 17 headers x all sequences of up to 2 edits of options and positional arguments against getopt; section headers produced by macro expansion (or %%) are outside.",
)
prop(
    "C05", "Validity agrees with RPM's evaluation of conditions",
    "A tag, macro definition, source or patch is reported valid if and only if no enclosing %if, %elif, %else, %ifarch, %ifnarch, %ifos or %ifnos branch is false, for any nesting of conditions, as RPM itself evaluates them in the macro context of the spec file. Expressions in branches that are not taken have no influence, and unbalanced or unparseable conditions never break reading.",
    ["inputs", "configurations"], "for all nestings of conditional blocks, all supported expression forms and macro values",
    "Tests mock expression results for a few nestings; the property is over all well-formed (and ill-formed) nestings and all expressions RPM accepts.",
    ["specfile/conditions.py", "specfile/tags.py", "specfile/macro_definitions.py", "specfile/sourcelist.py"],
    [("process_conditions", "specfile/conditions.py"), ("resolve_expression", "specfile/conditions.py")],
    "exhaustive enumeration of condition programs against an independent interpreter and against librpm",
    "All line sequences over a condition alphabet up to the stated length, all small expressions, and all small spec files compared with librpm. Four deviations are recorded as known findings.",
)
prop(
    "C06", "Macro definitions are found, reported and edited exactly",
    "Every %global and %define line, including indented, parametric, multi-line (backslash or braces) and commented-out ones (%dnl, #%global, in a comment), is reported once, in order, with its name, body, kind, validity and position, and nothing else is. Changing body, name, kind or white space, commenting out or in, inserting, deleting, copying and replacing definitions changes exactly that definition and no other line; a definition that is commented out is no longer defined by RPM, one that is commented in is. Finding and getting by name prefers valid definitions.",
    ["inputs", "histories"], "for all sequences of definitions, comments, conditions and other lines and all edits of all of them",
    "Tests edit a few definitions in one fixed list; which lines survive depends on the combination of neighbouring shapes and the style used to comment out.",
    ["specfile/macro_definitions.py"],
    [("MacroDefinitions._parse / get_raw_data", "specfile/macro_definitions.py"), ("MacroDefinitions.insert / __delitem__ / find / get", "specfile/macro_definitions.py"), ("CommentOutStyle", "specfile/macro_definitions.py")],
    "exhaustive document x edit exploration against an independent line model, cross-checked with librpm",
    "All documents of up to 3 of 14 units x all edits of each definition; the effect of commenting out/in compared with librpm. Commenting out a multi-line definition is a recorded known finding.",
)
prop(
    "C07", "Nested, re-entered and interrupted views compose",
    "Views of the same content opened while another one is open show each other's modifications, and when they are left, in reverse order, normally or by an exception, all modifications made through any of them are in the spec file exactly once: none is lost, none is applied twice. Re-entering a view gives the current content. Views of one Specfile never affect another Specfile, a copy, or a later instance that reuses its identity.",
    ["histories", "schedules"], "for all well-nested histories of entering, modifying, raising in and leaving views over one or several instances",
    "Tests nest two views once; the guarantee concerns all nestings and orders of modification, including re-entrance, exceptions and garbage collection.",
    ["specfile/context_management.py", "specfile/specfile.py"],
    [("ContextManager reuse of generators", "specfile/context_management.py"), ("nested with-blocks of view generators", "specfile/specfile.py")],
    "exhaustive enumeration of well-nested enter/modify/raise/leave histories against a reference model",
    "All histories up to the stated number of steps over 9 views, one and two instances. Line-level edits under an open section-level view are excluded; two cases with differing arguments are recorded known findings.",
)
prop(
    "C08", "Sources and patches are numbered as RPM does and edits keep them consistent",
    "The sources (patches) of a spec file, from Source tags and %sourcelist sections (Patch tags and %patchlist), are presented in order as one sequence with the number and validity RPM gives each of them, whether numbered explicitly, implicitly or mixed, also around conditions. The sequence behaves like a list of locations under append, insert (any index), extend, assignment, deletion, pop and slices; inserting by number gives exactly that number; duplicates are refused unless allowed, count(), in and remove() mean all sources with that literal location. After every edit RPM accepts the spec file with exactly the expected sources, no two with the same number, new tags are written in the style of the others, only tags whose numbers collide are renamed, and all other lines stay.",
    ["inputs", "histories"], "for all mixtures of implicit, numbered, padded and conditional source tags and source lists and all edits of them",
    "Tests insert into a few fixed lists; numbering depends on everything that precedes a source, and collisions only show for particular mixtures.",
    ["specfile/sources.py", "specfile/sourcelist.py", "specfile/specfile.py"],
    [("Sources._get_items / _get_tags numbering", "specfile/sources.py"), ("Sources.insert / insert_numbered / _deduplicate_tag_names", "specfile/sources.py"), ("Sourcelist.parse", "specfile/sourcelist.py"), ("Specfile.add_patch", "specfile/specfile.py")],
    "exhaustive document x edit exploration against a list model, with librpm as the oracle for numbers and acceptance",
    "All preambles of up to 2-3 of 12 units and lists of up to 2 of 7 units; all sequences of up to 3 repeated locations; all single edits, pairs of edits and add_patch() arguments. Sources of subpackages are outside.",
)
prop(
    "C09", "Changelogs are read as RPM reads them, and new entries are complete and on top",
    "A changelog is presented oldest entry first; every entry has the header, content lines, EVR, timestamp kind (date or date and time, also with a zero-padded day) and day padding that its text says, and an e-mail address in angle brackets is never taken for an EVR. Editing the sequence (append, insert, delete, replace, slices) keeps all other entries and lines as they are. filter() returns exactly the entries between the bounds by RPM's version comparison (from the first one not older than the lower bound to the last one not newer than the upper bound, if the entries are not in order; no EVR counts as version 0). add_changelog_entry() puts one entry with the requested or default author, e-mail, date, day padding, timestamp kind and expanded EVR (without dist) on top of every %changelog that does not use %autochangelog and changes nothing else (a default date is the day in UTC, a time without zone is in UTC, whatever the local time zone); RPM reads it as requested. The default author follows the documented order: $RPM_PACKAGER, %packager, git, user.",
    ["inputs", "configurations", "histories"], "for all changelog texts, edits, bounds, dates and combinations of arguments and changelog layouts",
    "Tests parse one fixed changelog and add entries to two; dates, paddings, EVR notations and section layouts combine into thousands of cases.",
    ["specfile/changelog.py", "specfile/specfile.py"],
    [("Changelog.parse / get_raw_section_data / __delitem__ / filter", "specfile/changelog.py"), ("ChangelogEntry.evr / extended_timestamp / day_of_month_padding / assemble", "specfile/changelog.py"), ("add_changelog_entry / contains_autochangelog", "specfile/specfile.py"), ("guess_packager", "specfile/changelog.py")],
    "exhaustive enumeration of changelog texts, edit sequences, dates and argument combinations against a reference model and librpm",
    "All changelogs of up to 4 of 20 line shapes (7 of 6), all edits (and pairs) of up to 4 entries, all bounds over non-decreasing changelogs of up to 4 entries, every day of 2 years in all formats, all argument combinations x 15 changelog layouts x 4 version schemes; RPM reads the results. Non-chronological changelogs are outside for RPM and filter().",
)
prop(
    "C10", "%prep macros are found, numbered and edited as RPM applies them",
    "Every %setup, %autosetup, %patch, %patchN and %autopatch line in %prep, also indented, after other commands or inside a conditional macro expansion, is reported in order with its kind, name, patch number (from the name, -P or the positional argument, otherwise 0), options with their defaults and positional arguments; look-alikes and escaped macros are not, and lookups of absent macros fail. Changing a number or option, deleting macros (by index, slice, name, pop, remove, clear, patch number) changes or removes exactly that line. add_patch_macro() adds exactly one line with the requested number, style and options next to the closest number, in ascending order. RPM applies exactly the patches the numbers say.",
    ["inputs", "histories"], "for all %prep sections mixing macros of every notation with other lines, all macros in them, all edits and all add_patch_macro() arguments",
    "Tests parse two fixed sections and make a few edits; which lines survive and where a new macro goes depends on every combination of neighbours and notations.",
    ["specfile/prep.py", "specfile/utils.py"],
    [("Prep.parse / get_raw_section_data", "specfile/prep.py"), ("PatchMacro.number", "specfile/prep.py"), ("Prep.add_patch_macro / remove_patch_macro", "specfile/prep.py"), ("PrepMacros.__delitem__ / find", "specfile/prep.py")],
    "exhaustive document x edit exploration against a line model, with librpm as the oracle for the applied patches",
    "All sections of up to 3 of 33 line shapes (5 of 8), all edits of sections of up to 3 of 12 shapes, all add_patch_macro() calls on sections of up to 3 of 9 shapes, every option of every macro read, set and removed, RPM's own %prep for up to 2 macros. Non-literal patch numbers and macros mentioned in comments are outside.",
)
prop(
    "C11", "Expansions reflect the current content of their own instance",
    "Whatever happened before, every expansion (expand(), expanded_* properties, expanded values of tags and sources, rpm_spec, get_active_macros(), tainted, validity in views) gives what RPM gives for the current content, macros list, sourcedir and extra macros of exactly that instance: edits in any view, changes of the macros list (also in place), reloads, failed parses, expansions with extra macros, opening views, copying, deleting or using other instances never leave a stale or foreign macro behind.",
    ["histories", "inputs"], "for all histories of edits, expansions, parameter changes, failures, copies and deletions over two instances, and all contents that define, redefine, undefine and use macros",
    "RPM has one global macro context and the library caches the last parse; a stale cache only shows after a particular history over several instances, which unit tests do not enumerate.",
    ["specfile/spec_parser.py", "specfile/specfile.py", "specfile/macros.py", "specfile/conditions.py"],
    [("SpecParser.parse with a hash of the last parse", "specfile/spec_parser.py"), ("Specfile.expand / rpm_spec / get_active_macros", "specfile/specfile.py"), ("process_conditions expanding lines", "specfile/conditions.py")],
    "exhaustive operation-sequence exploration of two real instances sharing librpm's macro context, against a model of each; librpm oracle for contents",
    "All histories of up to 2 of 20 operations x 6 readers, 2 of 25 operations on two instances, 3 of 11 operations (thorough: one deeper); all contents of up to 3 of 13 macro lines. Files read at parse time that change on disk, macros that define macros from their bodies and direct use of rpm or Macros are outside.",
)
prop(
    "C12", "Parsing leaves no trace, whatever is missing or fails",
    "Loading, expanding and editing never create, change or remove files: sources that exist (as files, links, dangling links, directories) stay untouched and missing ones are faked only temporarily, so that RPM reads the same %prep as with real ones. Environment variables, the standard error descriptor, open descriptors, the working directory and the temporary directory are as before, also when RPM rejects the content, a file cannot be created or removed, RPM fails, the process runs out of descriptors or is interrupted; afterwards the same operation works. Content RPM rejects raises RPMException with RPM's message and leaves memory alone. With force_parse, files needed by %include, %{load:} or shell expansions that are missing from sourcedir are faked and the result is tainted, otherwise it is not.",
    ["fault_sequences", "inputs", "configurations"], "for all states of the source files, all documents, all operations and all points at which opening or removing a file, a call of RPM or a resource limit can fail",
    "Tests check that dummy sources disappear after one successful parse; failures at a particular point and odd files in sourcedir are never exercised.",
    ["specfile/spec_parser.py", "specfile/context_management.py", "specfile/exceptions.py"],
    [("SpecParser._make_dummy_sources / _sanitize_environment / _do_parse", "specfile/spec_parser.py"), ("capture_stderr", "specfile/context_management.py")],
    "exhaustive fault-point enumeration on the real code (audit hook, failing librpm, resource limits) and enumeration of source states, full before/after comparison",
    "Every open for writing, removal and rpm.spec call of 6 documents x 5 operations is made to fail in turn; 14 name shapes x 9 file states; all pairs of 16 constructs needing files. A file whose removal itself fails may stay. Asynchronous interrupts between two statements are outside.",
)
prop(
    "C13", "update_tag and update_version set exactly the requested value",
    "After update_tag(), update_value() or update_version() RPM reads exactly the requested value from the tag, whatever macros, conditional expansions, commented-out definitions or other tags it was composed of, also when called repeatedly; only macro definitions and that tag change. A requested value may itself refer to macros and tags: it means what it meant before the update. When the new value has the same shape, the substitutions stay and exactly the macros and tags they refer to are updated; protected entities keep their values. update_version() puts a tilde before a detected pre-release suffix, and enables the pre-release macro exactly for pre-releases, leaving its definition alone when it already is as required; an invalid pattern raises SpecfileException and changes nothing.",
    ["inputs", "histories"], "for all compositions of a tag from macros, all definitions of those macros, all requested values and all sequences of two requests",
    "Tests update a handful of versions; which substitution absorbs which part of the value depends on every combination of definitions, notations and requested values.",
    ["specfile/specfile.py", "specfile/value_parser.py"],
    [("Specfile.update_value / update_tag / update_version", "specfile/specfile.py"), ("ValueParser.construct_regex", "specfile/value_parser.py")],
    "exhaustive enumeration of definitions x notations x requests on the real code, librpm as the oracle for the resulting value",
    "24 Version notations x 5 x 6 definitions x 4 requests (thorough: 8 x 8 x 13), all pairs of requests, 9 other tags x 12 values, 8 x 10 x 3 pre-release combinations. Requested values containing macros (other than dist) and macros redefined after the tag are outside.",
)
prop(
    "C14", "Release: dist, minor bump and bump_release() follow the packaging rules",
    "release is the Release tag without a trailing dist macro (%{?dist}, %{dist}, %dist) and minor bump; assigning it or calling set_version_and_release() keeps dist, drops the minor bump and changes no other character of the spec file; expanded_release is expanded with an empty dist and expanded_raw_release is what RPM reads. bump_release() bumps the first release or baserelease macro definition in effect, otherwise the Release tag, exactly like rpmdev-bumpspec: N and 0.N are incremented unless a pre-release follows N, otherwise a trailing .N is incremented or .1 appended; exactly one line changes, the result is newer for RPM, and with %autorelease nothing changes.",
    ["inputs", "histories"], "for all Release strings over the alphabet of numbers, separators, pre-release words and macros, all definitions of release macros and repeated bumps",
    "Tests bump about ten strings; the rule is a case analysis over prefixes and suffixes that combine freely.",
    ["specfile/specfile.py"],
    [("_split_raw_release / _get_updated_release", "specfile/specfile.py"), ("bump_release / _bump_release_string", "specfile/specfile.py"), ("has_autorelease", "specfile/specfile.py")],
    "exhaustive enumeration of Release strings and documents against a reference implementation, librpm's version comparison as the oracle for growth",
    "All strings of up to 3 atoms over two alphabets (thorough: 5) x three bumps; 17 sets of definitions x 19 Release notations; 6 x 10 expansions.",
)
prop(
    "C15", "EVR, NEVR and NEVRA are read, written and ordered as RPM does",
    "Comparing two EVRs, NEVRs or NEVRAs gives RPM's order (epoch, version, release; leading zeros, tildes, carets, letters and separators included) consistently in all six operators; equal values have equal hashes; values with different names or architectures are unequal and cannot be ordered, values of different types never equal. from_string() splits every string as RPM's notation prescribes or raises SpecfileException, str() writes it back without a zero epoch, and unknown architectures are rejected.",
    ["inputs"], "for all pairs of versions and all strings over the alphabet of the notation",
    "Tests compare a dozen pairs; an order is a statement about all pairs and their consistency.",
    ["specfile/utils.py"],
    [("EVR._cmp / __eq__ / __hash__ / from_string", "specfile/utils.py"), ("NEVR / NEVRA", "specfile/utils.py")],
    "exhaustive enumeration of pairs and strings on the real classes against a reference implementation and librpm",
    "All pairs of 339 versions, all pairs of 140 (epoch, version, release), all strings of up to 6 tokens.",
)
prop(
    "C16", "Macro syntax in values is parsed losslessly and as RPM reads it",
    "Parsing any string into nodes either raises the dedicated unterminated-macro exception or yields nodes whose concatenation is the original string; literal text, %%, substitutions with all flag forms, conditional expansions, shell expansions, expressions and built-ins are recognised with the right name, flags and body, nested to any depth, as RPM expands them.",
    ["inputs"], "for all strings over the macro metacharacters and all nested constructs",
    "Tests list some thirty strings; the grammar is recursive and its corner cases (escapes, empty bodies, adjacent percent signs) only show in combination.",
    ["specfile/value_parser.py"],
    [("ValueParser.parse / flatten / node __str__", "specfile/value_parser.py")],
    "exhaustive enumeration of all strings up to a length over the metacharacter alphabet, plus all nested constructs, on the real parser",
    "All strings up to the bound and all constructs up to a nesting depth; semantic agreement with RPM checked on expandable constructs.",
)
prop(
    "C17", "Option strings: lossless, well-typed and exact under edits",
    "An option string (as on %setup, %patch or section headers) is read back exactly as written, quotes, escapes, white space and macros included. Options and positional arguments report their values as a POSIX-like getopt would; setting, adding or deleting an option or positional argument changes only that element, can be read back with the value set whatever characters it contains, and misuse raises the documented exceptions without changing anything.",
    ["inputs", "histories"], "for all option strings over the token alphabet, all edit sequences and all values",
    "Tests cover a few option strings; quoting, escaping and spacing interact with every edit position.",
    ["specfile/options.py"],
    [("Options.tokenize / get_token / __setattr__ / __delattr__", "specfile/options.py"), ("Positionals", "specfile/options.py")],
    "exhaustive enumeration of option strings and edit sequences against a reference list model",
    "All strings up to the bound over the option metacharacters and all edits from all small token sequences.",
)
prop(
    "C18", "Lookups by name find exactly the right item, tag properties exactly their tag",
    "Looking up a tag, macro definition, %prep macro or comment by name (in, find(), get(), attribute access, assignment or deletion by name, with and without a position) means the first valid item of exactly that name (the first one if none is valid), compared case-insensitively for tags only, whatever similar names surround it; a name that does not occur raises ValueError or AttributeError and changes nothing. Lists of comments accept texts and objects alike and otherwise behave like a list. The properties name, version, raw_release, summary, license, epoch and url read the literal value of the effective tag of the main package (None if there is none), their expanded_ counterparts what RPM reads, and assigning one changes exactly that value.",
    ["inputs", "histories"], "for all sequences of items with equal, similar or method-like names, valid, invalid or commented out, all queries and all ways to write a tag",
    "Tests look up a few names in one fixed list; which of several equally or similarly named items is meant depends on their order, case and validity.",
    ["specfile/tags.py", "specfile/macro_definitions.py", "specfile/prep.py", "specfile/specfile.py"],
    [("Tags / MacroDefinitions find, get, __contains__, __getattr__, __setattr__, __delattr__", "specfile/tags.py, specfile/macro_definitions.py"), ("PrepMacros.find / __contains__", "specfile/prep.py"), ("_tag / _expanded_tag properties", "specfile/specfile.py")],
    "exhaustive enumeration of item sequences x queries on the real objects against a list model; librpm as the oracle for expanded values",
    "All sequences of up to 2 of 9 units (3 of 4; thorough: 3 of 9) x 18 queries, %prep sequences of up to 3 of 9 units, all edits of up to 3 comments, 7 properties x 9 notations x 3 places.",
)
prop(
    "C19", "Copies are equal and independent; equality and representation tell the truth",
    "A deep copy of a Specfile, of any view or of any of their items equals the original and writes the same text; changing either of the two in any way leaves the other (and the file) as it was, and two objects are equal exactly if their items are, and items (of one class) exactly if they are written alike (and, for sources, have the same number), so that index() and remove() find the right one. A shallow copy, a slice (with the items a list would give) and an object built from a list have a list of their own. repr() of every view, item, node and value evaluates to an equal object that writes the same text; format_expression() never changes the value of an expression or a <...> placeholder, breaks lines longer than the threshold and raises only SyntaxError or SpecfileException.",
    ["inputs", "histories"], "for all small objects of every class, all changes of them, and all expression trees up to the bound",
    "Tests copy one object per class and change one attribute; independence has to hold for every part of the object and every way to change it.",
    ["specfile/tags.py", "specfile/sections.py", "specfile/macro_definitions.py", "specfile/changelog.py", "specfile/prep.py", "specfile/options.py", "specfile/sources.py", "specfile/sourcelist.py", "specfile/specfile.py", "specfile/spec_parser.py", "specfile/formatter.py", "specfile/value_parser.py"],
    [("__deepcopy__ / copy / __eq__ / __repr__", "all view classes"), ("format_expression", "specfile/formatter.py")],
    "exhaustive enumeration of objects x changes, original and copy compared with an untouched twin after every change; enumeration of expression trees against Python's own parser",
    "All objects of up to 2-3 units per class x 7-15 changes of the copy and of the original, all slices of lists of up to 4 items, 14 x 14 pairs of changes of a Specfile, 343 values, 2445 expression trees. Lines that belong to no item are not part of the equality of a list.",
)
prop(
    "C20", "The global macro context is defined, removed, dumped and reset exactly",
    "Macros.define() leaves exactly one definition of a macro, remove() none, however many definitions (ordinary, empty, failing, parametric, multi-line, self-referring) were stacked before, and no other macro is affected; expand() returns what RPM expands or raises RPMException with RPM's message; dump() lists every macro with its options, exact body (but for an empty first line and escaped line breaks) and level; reinit() leaves exactly the macros up to the given level, as freshly loaded.",
    ["histories", "inputs"], "for all sequences of definitions, removals and resets over two macros and nine kinds of bodies",
    "Tests remove one macro defined three times; interactions of stacked definitions with their expansion are not covered.",
    ["specfile/macros.py", "specfile/context_management.py"],
    [("Macros.remove / define / dump / reinit / expand", "specfile/macros.py")],
    "exhaustive operation-sequence exploration of the real global context against a stack model",
    "All sequences of up to 2 of 28 operations, 3 of 13 (thorough: 3 of 28, 4 of 13); 12 odd names x up to 25 definitions; 9 levels x 4 disturbances.",
)
prop(
    "C21", "File names and remoteness of sources are RPM's",
    "The expanded file name of a source or patch is the file RPM reads in sourcedir (the part of the location after the last slash and, there, after the last equals sign; the whole location without a slash), the literal file name is the same part of the literal location, and a source is remote if and only if its expanded location has a scheme and a host. This holds for tags and for entries of %sourcelist and %patchlist. Open brackets of a macro body are counted, and conditional expansions are split, as RPM does.",
    ["inputs"], "for all locations over the alphabet of path, URL and macro tokens",
    "Tests check five locations; fragments, queries, equals signs, missing hosts and macros expanding to URLs combine freely.",
    ["specfile/utils.py", "specfile/sources.py"],
    [("get_filename_from_location / count_brackets / split_conditional_macro_expansion", "specfile/utils.py"), ("Source.remote / filename / expanded_filename", "specfile/sources.py")],
    "exhaustive enumeration of locations on the real classes against a reference and librpm's %{SOURCEn}",
    "All locations of up to 4 (5) of 9 tokens and 30 extra ones; all strings of up to 5 (6) bracket tokens.",
)
prop(
    "C22", "The attributes of a Specfile are the tags RPM uses",
    "name, version, raw_release, summary, license, epoch and url of a Specfile give the literal value of the main package's tag that is in effect (or, if none is in effect, of one that is there, else None), and their expanded_ variants give what RPM has in the package header. Assigning to one of them replaces the value of exactly that tag (all lines of a multi-line one, keeping white space and a surrounding conditional expansion) and changes nothing else, neither tags of the same name in other branches of a condition, in comments or in other packages nor any other attribute; assigning to one whose tag is not there raises AttributeError and changes nothing.",
    ["inputs", "histories"], "for all combinations of forms of the tags, and all attributes in turn",
    "Tests read and set a few attributes in one or two fixed preambles; which tag is meant depends on the conditions, comments, macros and multi-line values around it.",
    ["specfile/specfile.py", "specfile/tags.py"],
    [("Specfile._tag / _expanded_tag descriptors", "specfile/specfile.py"), ("Tags.__getattr__ / __setattr__ / get, Tag.value / expanded_value", "specfile/tags.py")],
    "exhaustive enumeration of tag forms and pairs of them, the attributes read against a line model and the RPM header, every attribute assigned in turn",
    "All single forms and pairs of 13 forms of 7 tags (quick: every second pair). Subpackages with a Version tag of their own (which redefines %{version}) are outside.",
)
