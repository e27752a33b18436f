INP, CFG, HIST, FLT, PRG = "inputs", "configurations", "histories", "fault_sequences", "programs"
P = []
NA = []


def p(id, title, statement, over, q, why, files, mech, tech, note, **k):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, tech=tech, note=note, **k))


def n(id, title, statement, over, q, why, files, mech, na, **k):
    NA.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, na=na, **k))


p("C09", "Option tables, help text and manual describe the same options",
  "Every command line option the program accepts (short and long form, with or without argument) is the one its help text and manual describe: short and long form of an option mean the same thing, "
  "take an argument in the same way, and no option is accepted but undocumented or documented but not accepted.",
  [INP], "all options, short and long spellings",
  "Tests invoke only a handful of the spellings; a long option mapped to the wrong letter or with the wrong argument kind stays unnoticed.",
  ["src/cmdline.c", "doc/boxes.1.in"], [("option tables and getopt string", "src/cmdline.c process_commandline"), ("usage_long", "src/cmdline.c")],
  "agreement query over option tables in the IR, the option switch, the help text literals and the manual page",
  "Structural: tables, switch cases, help literals and manual are extracted from the current source and compared pairwise.")

p("C10", "Each documented option argument yields exactly the documented setting",
  "For every option, each documented argument value (in any documented spelling or letter case) leads to exactly the documented setting and nothing else, each undocumented value is refused with a failure, and settings whose option "
  "is absent have their documented default.",
  [INP], "all documented option words, their spellings, and the rejected neighbours of each",
  "Tests run a few option values end to end; a wrong letter, limit or missing reset in one arm of the argument parsers shows only for that word.",
  ["src/cmdline.c", "src/cmdline.h"], [("argument parsers", "src/cmdline.c"), ("opt_t", "src/boxes.in.h")],
  "path-sensitive abstract interpretation of the option parser; decision table of every option extracted from path guards",
  "Per option the complete set of abstract paths of the command line parser is computed with the argument opaque; the guard of every path is evaluated at each documented word. Numbers through strtol are modelled.")

SIM = "path-sensitive abstract interpretation of the program's LLVM IR (phases stubbed with every outcome)"

p("C01", "Input, files and settings which turn out unusable are noticed, not used",
  "Where a file or directory cannot be opened, an environment variable is not set, a pattern or a replacement is not valid, a character encoding does not apply, or a text from outside contains characters which are not permitted, the function concerned has no "
  "result; this is noticed before the result is used or kept for use elsewhere, and never leads to a crash. Texts from outside are never taken for valid without the success of their conversion being looked at.",
  [INP, CFG, FLT], "all texts and files, and every operation that fails because of them",
  "Tests do not contain files which vanish, several broken parents, or control characters in each kind of string of the configuration; a missing check is invisible as long as the operation succeeds.",
  ["src/input.c", "src/lexer.l", "src/parsecode.c", "src/discovery.c", "src/parsing.c", "src/cmdline.c", "src/regulex.c", "src/unicode.c", "src/bxstring.c"],
  [("bxs_from_unicode", "src/bxstring.c"), ("bx_fopens", "src/tools.c"), ("discover_config_file", "src/discovery.c"), ("u32_compile_pattern", "src/regulex.c")],
  "interprocedural null pointer dataflow: from each call of an operation which can fail, the paths on which it did are followed; functions which pass the missing result on are judged at their calls in turn",
  "Failures of memory allocation and missing results caused by arguments which only the program itself makes up are not judged. A result kept in a structure counts as noticed if the function, its direct caller or a function called with it compares it with null.")

p("C02", "Memory is used only while it is valid",
  "After memory, a file, a directory or a pattern has been released, it is neither read, written, handed to another function, released again nor returned, and no global variable or result of the function keeps referring to it; the same goes for the old block "
  "once realloc() has supplied a new one, and for what depended on the released object. Only memory allocated for the purpose is released: no literals, shared strings, parts of other strings or local variables. Addresses of local variables are not returned, and variables have values when they are read.",
  [INP, CFG], "all releases, reallocations and returns, on all paths through the functions they are in",
  "A released block usually keeps its contents for a while, so tests pass; the paths concerned often are error paths, debug output, or combinations of settings such as justification and tab expansion.",
  ["src/bxstring.c", "src/generate.c", "src/input.c", "src/parsecode.c", "src/remove.c", "src/detect.c", "src/query.c", "src/regulex.c"],
  [("bxs_free", "src/bxstring.c"), ("u32_regex_replace", "src/regulex.c"), ("output_box", "src/generate.c"), ("analyze_input", "src/input.c")],
  "typestate analysis of every release in the IR: the released value and its other names are followed through variables, fields and conditions to their next use; interprocedural summaries of functions which release or hand back their arguments; definite warnings of clang",
  "Values are followed within the function which releases them and into the places which still refer to them when it ends, not through structures shared by several functions. Memory which is never released is not a violation. Two releases in the generated parser have too many paths and are listed as unresolved.")

p("C03", "Messages are complete: formats and argument lists agree",
  "Every conversion in the format of a message, debug line or listing gets an argument of the type it prints, every argument has its conversion, and no text from outside (arguments, names in the configuration, input) is used as a format, so that a "
  "percent sign in it is shown as it is. No message is lost because of a conversion which fails in some locales. Where the number of texts to be joined, or of shapes to be compared, is stated along with them, it is their number, and they are of the stated type.",
  [INP, CFG], "all messages, whichever condition makes them appear",
  "Most messages concern rare conditions and debug areas which no test triggers, and their arguments are not checked by the compiler because they pass through functions of the program.",
  ["src/tools.c", "src/logging.c", "src/bxstring.c", "src/detect.c", "src/parsecode.c"], [("log_debug", "src/logging.c"), ("bx_fprintf_original", "src/tools.c"), ("bxs_concat", "src/bxstring.c")],
  "tracing of every format to its literals through parameters, results and buffers in the IR; comparison with number and size of the arguments; the type checker of clang with prototypes which state the formats",
  "Formats assembled at run time from the program's own literals are listed as unresolved. Arguments of the right type in the wrong order are not detected.")

p("C04", "A failed run ends with a nonzero exit status, a successful one with zero",
  "When any phase of a run fails (command line, configuration discovery or parsing, reading, analysing, box generation, output, removal, substitution, listing), the program does not carry on with a later phase and exits with a nonzero "
  "status; when nothing fails it exits with status 0. No function drops the failure code of a function it calls.",
  [FLT], "every invocation mode with every phase failing, and every call of a failure-reporting function anywhere in the program",
  "Most failures (no memory, unreadable files, failing conversions) cannot be provoked by the functional tests; each call site would need its own fault.",
  ["src/boxes.c", "src/generate.c", "src/remove.c", "src/input.c", "src/parsecode.c"], [("main and handle_* phases", "src/boxes.c"), ("int / NULL failure convention", "all of src")],
  SIM + "; error-code flow analysis over the call graph",
  "Modes x failing phase are enumerated on the abstract interpretation of main(); failure convention of each function is derived from the IR, and every call site is checked for propagation.")

p("C05", "Read errors on the input and write errors on the output make the run fail",
  "A read error on the input file and a write error on the output file (a full disk, say) are noticed before the run ends, and the run then ends with a nonzero status instead of silently delivering truncated output.",
  [FLT], "read errors at any point of the input and write errors at any point of the output, all modes which write to the output",
  "No functional test has a failing device; missing the check has no visible effect in any test.",
  ["src/input.c", "src/boxes.c", "src/generate.c", "src/remove.c"], [("read_all_input", "src/input.c"), ("flush_output", "src/boxes.c")],
  SIM + "; must-check (ferror/fflush/fclose) typestate on both streams",
  "On every failure-free abstract path of main that writes output, the output stream must be flushed and its error state consulted with effect on the exit status; same for ferror on the input stream in the reader.")

p("C15", "The configuration file is the first one found in the documented order",
  "The configuration comes from the -f option if given, else from the BOXES variable, else from the first existing file in the documented order of user and system locations. A location given explicitly is never silently replaced by another: "
  "if it is unusable, the run fails with a message. Directories are searched for the documented file names.",
  [CFG], "all combinations of -f, BOXES, HOME, XDG_CONFIG_HOME set or unset and of existing, unreadable or directory candidates",
  "Depends on the environment and on the file system; tests always pass an explicit file.",
  ["src/discovery.c", "doc/boxes.1.in"], [("discover_config_file", "src/discovery.c")],
  "abstract interpretation of the search with concrete path strings and opaque existence predicates; decision table of the search order",
  "All existence/readability outcomes and settings of the environment are branched over; the sequence of probed path strings is compared with the documented order.")

p("C16", "Only the modes which need a configuration touch one",
  "Runs with -v or with -c never fail because of a missing or broken configuration file; -h only names it. All other modes discover and parse the configuration before they do anything else, and fail when there is none.",
  [CFG], "all invocation modes with configuration discovery and parsing failing",
  "The test suite always has a valid configuration at hand.",
  ["src/boxes.c"], [("main, handle_config_parsing", "src/boxes.c")], SIM,
  "All modes x failing configuration phases on the abstract interpretation of main().")

p("C26", "Mending is removal followed by a redraw of the result, printed once",
  "Mending reads the input once, removes the box without printing anything, cleans the result, analyses it anew and draws the box around that result; size, padding and indentation settings adjusted for the removal phase are back to "
  "what design and command line say when the box is redrawn, also for a design which was detected by the removal.",
  [INP, CFG], "all designs, sizes and paddings; all runs with -m",
  "Leaks of state from the first phase into the second show only for particular sizes or paddings and only for boxes which need mending.",
  ["src/boxes.c", "src/remove.c"], [("main, handle_generate_box, handle_remove_box", "src/boxes.c"), ("output_input", "src/remove.c")],
  SIM + "; effect analysis of output_input()",
  "Order and flags of the phases on all abstract paths of the mend mode, comparison of the symbolic contents of the design's size, padding and indentation between both phases, and absence of output effects in the trim-only mode.")

p("C27", "Every run comes to an end",
  "No loop goes on without end and no function calls itself endlessly: every loop has a way out; something in it changes what its ways out depend on; counters and pointers move towards the bound they are compared with; there is no way through a loop which leaves everything "
  "unchanged that decides whether it is taken again; and a function which is called again from within itself is given something else, or finds a different state, than before.",
  [INP, CFG], "all loops and all recursive calls of the program",
  "Whether an iteration makes no progress depends on a particular character, an empty element, or a failing match in an unusual place; a test only samples inputs for which the loop happens to end.",
  ["src/tools.c", "src/unicode.c", "src/remove.c", "src/generate.c", "src/parsecode.c", "src/cmdline.c", "src/query.c", "src/input.c", "src/parsing.c"],
  [("u32_strnrstr", "src/unicode.c"), ("hmm", "src/remove.c"), ("trimdup", "src/tools.c"), ("expand_tabs_into", "src/tools.c")],
  "natural loops of the IR: dependence of exit conditions on what changes in the loop, direction of counters, cyclic paths whose conditions are all unaffected by the path; side effect summaries of functions; argument maps of recursive calls",
  "Iterations which do change something, but never lead to the end, are not detected, nor are loops in the generated scanner and parser. Three loops have too many paths; for them only the other rules were decided.")

p("C23", "Buffers are large enough for what is stored in and read from them",
  "No access lies before the beginning or beyond the end of an array, a variable, or allocated memory: allocations have room for all elements and for the terminator of what is copied into them, loops over arrays stop at the last element, "
  "growing buffers grow before they are full, elements are not accessed as larger ones than room was made for, and functions which fill a buffer are told its size in the units they expect.",
  [INP, CFG], "all accesses whose place and whose object's size are sums of constants, parameters, fields, lengths of texts and loop counters",
  "One element too few is hidden by the rounding of the allocator; only certain lengths, line counts or rarely used messages make it show.",
  ["src/bxstring.c", "src/unicode.c", "src/tools.c", "src/generate.c", "src/parsecode.c", "src/remove.c", "src/input.c", "src/regulex.c", "src/shape.c", "src/query.c", "src/parsing.c"],
  [("bxs_append_spaces", "src/bxstring.c"), ("read_all_input", "src/input.c"), ("genshape", "src/shape.c"), ("regex_replace", "src/regulex.c"), ("action_add_shape_line", "src/parsecode.c")],
  "linear forms of allocation sizes, offsets and lengths over memory-SSA versions of fields and parameters, extreme values of loop counters from dominating conditions, summaries of functions which allocate or access through parameters",
  "Only definite violations are reported; accesses whose place or size is not such a sum (positions found by searching, products of two quantities, buffers filled by appending) are listed as unresolved. Buffers of fixed size which are "
  "filled with data of unknown length are not decided, nor are null pointers (C01) and released memory (C02).")

p("C24", "Nothing is used before it has been set",
  "Local variables, the members of local structures, and the bytes of memory from malloc and realloc are set before they are used, on every path: structures which are returned or passed on have all members set which the recipients read, "
  "buffers which become texts get their terminator, elements which are added to growing lists are set completely, and argument lists are started before they are used.",
  [INP, CFG, FLT], "all paths from the point where a variable or block comes into being to its uses which contradict no condition",
  "Fresh memory is often zero by luck; leftovers of earlier use show up only after other allocations, on error paths, or with another allocator or compiler.",
  ["src/boxes.c", "src/input.c", "src/cmdline.c", "src/parsecode.c", "src/parsing.c", "src/bxstring.c", "src/unicode.c", "src/tools.c", "src/generate.c", "src/remove.c", "src/query.c", "src/list.c", "src/shape.c", "src/detect.c", "src/regulex.c"],
  [("read_all_input", "src/input.c"), ("process_commandline", "src/cmdline.c"), ("action_start_parsing_design", "src/parsecode.c"), ("bxs_from_unicode", "src/bxstring.c"), ("generate_box", "src/generate.c")],
  "byte-wise definite-assignment analysis of allocas and heap blocks on LLVM IR with path feasibility from contradicting conditions, summaries of what functions set and read through their arguments, undef operands of phi nodes",
  "Only definite omissions are reported: calls which may set what they are given a pointer to count as setting it, as do writes at unknown offsets. The generated scanner and parser are left out, as is memory which gets out of sight before it is used.")

p("C35", "The sides of a box to be removed are found where they are",
  "Before a box is removed, its top and bottom side are taken to be exactly the consecutive lines at the beginning and end of the input which match some line of that side; each line is compared with the corresponding line of all shapes of the side, "
  "between the corners found. On each other line, the left and the right side are what matches most characters of any line of the shapes of that side, whole or shortened by blanks, no further in than the indentation or the trailing blanks allow. "
  "Only the kinds of comparison which suit the colors of input and design are used, and results of one kind are not mixed with those of another.",
  [INP, CFG], "sides of 1 to 3 lines, all outcomes of the comparison of each line, given positions of shapes on the lines, all combinations of sides and shapes missing, kinds of comparison",
  "Tests remove undamaged boxes of a few designs; wrong limits, shapes or leftovers of an earlier comparison show only for damaged, colored or irregular boxes.",
  ["src/remove.c", "src/detect.c", "src/shape.c"],
  [("remove_box", "src/remove.c"), ("shorten", "src/remove.c"), ("match_outer_shape", "src/remove.c"), ("hmm", "src/remove.c"), ("comp_type_is_viable", "src/detect.c"), ("prepare_comp_shape", "src/detect.c")],
  "abstract interpretation of the search functions, text comparison replaced by all of its outcomes or by given positions; results compared with the sides which are there",
  "How single texts are compared (hmm and match_outer_shape, which search in the characters) is not decided; nor are the search functions if they are renamed or merged.")

p("C36", "The design of a box to be removed is the one found most often in the input",
  "When a box is to be removed and no design was given, every configured design is tried with the kind of comparison which suits its colors and the colors of the input; the first design with the most hits is taken, none if there are no hits, "
  "and further kinds of comparison are tried only while no design has more than two hits. Hits are: lines of a corner at the beginning (left) or end (right) of one of the first or last lines of the input, as many as the corner is high; lines of a shape of the top or bottom side "
  "anywhere in these lines, twice in a row if the shape is elastic; lines of the input between top and bottom side which begin with a shape of the left side; lines of shapes of the right side at the end of one of these lines. "
  "Blanks at the ends of the input lines and at the outer ends of the shapes do not count, blank lines of shapes and missing sides give no hits, and colors are left out of the comparison exactly where its kind says so.",
  [INP, CFG], "tables of hits for up to 3 designs; every shape found in all, one or none of the lines, with sides missing, blank lines of shapes, elastic shapes; texts with blanks at both ends and invisible characters",
  "Tests autodetect a few designs of the standard configuration in undamaged boxes, where miscounted hits rarely change the winner.",
  ["src/detect.c", "src/shape.c"],
  [("autodetect_design", "src/detect.c"), ("match_design", "src/detect.c"), ("prepare_comp_shape", "src/detect.c"), ("prepare_comp_input", "src/detect.c"), ("input_is_mono", "src/detect.c"), ("design_is_mono", "src/detect.c")],
  "abstract interpretation of the choice for tables of hits, of the counting with comparisons replaced by where the shapes are, and of the functions which say what is compared; results compared with the documented way of counting",
  "That the right design always wins depends on the contents of all designs and is not decided; nor is input shorter than the side looked for, or a colored shape trimmed at both ends.")

p("C37", "Size asked for, padding and text determine the box; -c and colors as documented",
  "When a box is drawn, its minimum width and height are those of the design or, if larger, the ones asked for (plus the corners of sides which are left open); padding given on the command line replaces that of the design. Text and padding enlarge the box "
  "unless a size was asked for in that direction: then padding is given up in turns, beginning at the top or on the left, and each side gives way to the other one when it has none left, until the size fits or no padding remains. A design made from -c has the given text as its left side, with blanks of fitting size elsewhere, "
  "elastic except for the corners, and a left padding of 1. Output is colored with --color, never with --no-color, and otherwise only if the terminal is known to have at least 8 colors.",
  [INP, CFG], "sizes, paddings, corners and texts of given dimensions, with open sides; all kinds of color settings and terminals",
  "Tests combine only a few sizes and paddings; which side gives way shows in few of them, and terminals are not part of the tests.",
  ["src/boxes.c"],
  [("adjust_size_and_padding", "src/boxes.c"), ("apply_expected_size", "src/boxes.c"), ("build_design", "src/boxes.c"), ("check_color_support", "src/boxes.c"), ("main", "src/boxes.c")],
  "abstract interpretation of main() with sizes, paddings and texts of given dimensions; the design's size and padding when the box is generated are compared with the documented ones",
  "How the box is generated from these sizes is the subject of other properties. Sizes beyond the range of the types are not decided.")

p("C38", "Texts are measured, cut, trimmed and joined by their visible characters",
  "A text takes as many columns as its visible characters do; terminal escape sequences take none, and an escape sequence which sets a color stays with the character behind it when the text is cut. The positions recorded for the visible characters are where these are, and leading and trailing blanks are counted as such. "
  "Trimming, cutting off the front, taking a part, adding blanks and joining yield exactly the characters asked for, in order, without changing the text they were taken from. Without color, exactly the visible characters are written. The words for yes and no are recognised as a whole only.",
  [INP, CFG], "short texts made up of all combinations of blanks, tabs, escape sequences and characters of no, one and two columns, and longer texts of the same elements",
  "Tests use a few strings; an index which is off by one shows only next to an escape sequence, a wide character or the end of the text.",
  ["src/bxstring.c", "src/tools.c", "src/unicode.c"],
  [("bxs_from_unicode", "src/bxstring.c"), ("bxs_trimdup", "src/bxstring.c"), ("bxs_append_spaces", "src/bxstring.c"), ("count_invisible_chars", "src/tools.c"), ("advance_next32", "src/unicode.c")],
  "abstract interpretation of the text functions on texts whose elements are known; the characters and the figures recorded in the result are compared with those which follow from the elements",
  "Several escape sequences in a row, malformed ones, and leading blanks of more than one column are not decided.")

p("C28", "Command line settings override those of the design, setting by setting",
  "Where -i, -p, -s, -k and the like are given, they replace the value of the design, each setting and each side of the padding on its own; settings not given on the command line keep the value of the design.",
  [CFG], "all combinations of set and unset options",
  "Tests use one or two option combinations; mixing up two sides or testing the wrong sentinel shows only for others.",
  ["src/boxes.c", "src/generate.c", "src/input.c"], [("apply_expansions, adjust_size", "src/boxes.c"), ("design_t, opt_t", "src/boxes.in.h")], SIM,
  "Values of the design's fields at box generation on every path of main() are compared symbolically with option and design fields, for each setting set and unset.")

p("C29", "Each invocation mode performs exactly its own phases, in order",
  "Drawing, removing, mending, listing, querying, help and version each perform exactly their own phases in the documented order and nothing else: listing and querying do not read the input, removal draws nothing, help and version do nothing "
  "else, whatever other options there are.",
  [CFG], "all invocation modes and combinations of mode options",
  "Tests cover the usual single options but not their combinations and side effects.",
  ["src/boxes.c"], [("main", "src/boxes.c")], SIM,
  "Phase traces on all abstract paths of main() per mode are compared with the accepted sequences.")

p("C30", "File operands select input and output; nothing else is opened",
  "At most two file operands are accepted; the first is the input, the second the output, '-' or absence stands for the standard streams; the input is opened for reading only, the output is truncated only after the input was opened, a third "
  "operand is refused before anything is opened, and a file which cannot be opened makes the run fail.",
  [INP], "all operand lists: absent, '-', other names (also such beginning with '-'), up to three",
  "Opening the wrong operand or truncating a file on a run which is refused destroys data, and tests do not look at files left untouched.",
  ["src/cmdline.c"], [("process_commandline", "src/cmdline.c")],
  "abstract interpretation of the command line parser with concrete operand strings and branching open results; effect trace of fopen",
  "All operand shapes x open outcomes; the trace of fopen calls, final streams, and results is compared with the documented meaning.")

PARS = "abstract interpretation of the semantic actions of the grammar (rules taken from bison's own description of parser.y, actions from the IR of the generated parser), typestate over rule sequences"

p("C12", "Designs in a configuration do not influence each other",
  "Whatever one design contains, and whether it was accepted, refused because of an error, or skipped, the next design in the configuration is parsed exactly as if it were the first: no shape, rule, alias, padding, size, mandatory-block "
  "or counter state carries over. Designs accepted earlier stay as they were.",
  [CFG], "every sequence of designs, every point at which a design can fail",
  "A field which is not reset shows only when a particular broken or special design precedes a design which relies on the default of just that field.",
  ["src/parsecode.c", "src/parser.y", "src/parsing.c"], [("action_init_parser, action_parsing_done, recover, design_needed", "src/parsecode.c"), ("pass_to_bison", "src/parsing.h")], PARS,
  "Every field of the design record and of the parser context is made dirty, the actions which end a design (acceptance, error recovery, skipping) are run on it abstractly, and the resulting state is compared cell by cell with that of a fresh parser.")

p("C13", "A design is accepted if and only if it is complete and consistent",
  "A design is accepted only if BOX and END name match, the mandatory blocks (SAMPLE, SHAPES, ELASTIC) are all there and none is given twice, shapes of one side agree in size as the box geometry demands, each side has a usable set of "
  "elastic shapes with corners and not more neighbours elastic than allowed, and no alias occurs twice; a design for which all that is true is accepted. Failures of a rule's checks are always reported, never dropped.",
  [CFG], "all block sequences, all shape sizes, all combinations of elastic flags",
  "Tests hold one broken design per message; combinations (one block twice and another one missing, sizes which differ only at one particular corner) are not sampled.",
  ["src/parsecode.c", "src/parser.y", "src/shape.c"], [("action_add_design, action_finalize_shapes, perform_se_check, action_sample_block", "src/parsecode.c"), ("grammar", "src/parser.y")], PARS,
  "Return codes of all rule actions; mandatory-block typestate over all block sequences up to length 4; decision tables for names, duplicates, sizes per side (sizes opaque) and elasticity (all combinations of a side).")

p("C08", "Shapes which a design leaves out are made up of blanks so that they fit",
  "At the end of its SHAPES block a design has all four corners and at least one other shape on each side: what was not given is made up of blanks, corners as wide and as high as the sides they belong to and not elastic, and one elastic shape of size 1 in the "
  "middle of a side without any. Shapes which were given stay as they are, in content, size and elasticity. A design whose given shapes agree in size is never refused because of the shapes made up, and the minimum size of its boxes and the height of its highest shape follow from all shapes.",
  [CFG], "every choice of shapes given, with consistent sizes",
  "The suite's designs mostly define all of their corners, or only a few well-known choices of sides; the shapes made up depend on the choice and on the first shape found.",
  ["src/parsecode.c", "src/shape.c"], [("action_finalize_shapes", "src/parsecode.c"), ("findshape, genshape, isempty", "src/shape.c")], PARS,
  "404 choices: all single shapes and pairs, all combinations of corners and middles, further shapes per side; one size per side. Larger sizes follow the same paths, which is not proved.")

p("C14", "Parent configurations are each read once, and the child takes precedence",
  "A parent reference is recorded if and only if it names an existing configuration (or ':global:' one) which is not on the list yet, and is refused with a message otherwise. Each recorded parent is read exactly once, so configurations "
  "referring to each other come to an end; a design of a parent is used only if no design of that name (in any letter case) has been read before.",
  [CFG], "all graphs of parent references (bounded to 4 files), with unreadable and broken files",
  "Cyclic and diamond-shaped references with designs of the same name at several levels are not in the test suite.",
  ["src/parsing.c", "src/parsecode.c"], [("parse_config_files", "src/parsing.c"), ("action_parent_config", "src/parsecode.c")],
  "path-sensitive abstract interpretation of the configuration loader with stubbed file parses; decision table of the parent reference action",
  "Scenarios of files (not found, broken, 0..2 parents, 0..2 designs) with every outcome of the questions 'already listed' and 'same name'.")

p("C31", "Words of the configuration language mean what they are documented to mean",
  "In a design, each padding area (also abbreviated, in any letter case) sets exactly its sides to the given value; author, designer and indent entries set exactly the corresponding property of the design, each element of a tags entry is recorded as a tag; indentation modes are "
  "recognised in any letter case. Unknown words and negative paddings are reported and change nothing.",
  [CFG], "all padding areas, abbreviations, keywords and indentation modes in any letter case, and undocumented neighbours of them",
  "Tests use only a few full words in lower case.",
  ["src/parsecode.c", "src/parser.y"], [("action_padding_entry, action_record_keyword", "src/parsecode.c")],
  "path-sensitive abstract interpretation of the semantic actions with an opaque word; decision table extracted from the path guards",
  "The guards of all paths are evaluated at each documented word and its neighbours; stores on the matching path are compared with the documented meaning.")

p("C25", "A tag query selects the designs which match all of its elements",
  "A tag query prints exactly the designs which have every tag marked '+', none of the tags marked '-', and, unless '+' elements or (all) are in the query, at least one of the plain tags; a query of exclusions only starts out from all "
  "designs. Tags are compared regardless of letter case. Each selected design is printed once, followed by its aliases marked '(alias)'. Empty queries, invalid tags and duplicates (regardless of prefix and case) are refused with a message.",
  [CFG], "all sequences of up to three query elements, all designs and tags",
  "The order of positive and negative elements matters to the implementation, and the suite has only a few mixed queries.",
  ["src/query.c", "src/tools.c"], [("query_by_tag, parse_query", "src/query.c")],
  "path-sensitive abstract interpretation on opaque query elements and tags; each path's answer is compared with the documented predicate for every completion of the comparisons not made",
  "Both outcomes of every tag comparison are explored; parse_query() with every outcome of empty / valid / duplicate / prefix.")

p("C33", "The scanner recognises exactly the documented words",
  "In each part of a configuration file (top level, design, SHAPES, ELASTIC, SAMPLE, delimiter and parent entries) keywords and shape names are recognised in any letter case and nothing else is taken for one; names, numbers, strings, "
  "punctuation and comments (up to the end of the line, also on the last one) are told apart as documented; a sample ends only with a line consisting of ENDS; string delimiters are reset by BOX and END; unknown characters reach the parser "
  "as such. No input makes the scanner fail.",
  [CFG], "every text, in every mode of the scanner",
  "The language of words is infinite and its parts interact (longest match, order of rules, modes); tests contain well-formed configurations only.",
  ["src/lexer.l"], [("scanner rules", "src/lexer.l")],
  "product construction of the generated scanner's automaton with a reference automaton (language equivalence per token), abstract interpretation of the rule actions",
  "All reachable pairs of states in all modes at and off the beginning of a line; token, value and mode change of each rule met.")

p("C17", "Replacement and reversion rules are recorded and applied as documented",
  "Each REPLACE or REVERSE entry adds exactly one rule (its search expression, its replacement, and its flag, GLOBAL if not given) at the end of the list of its own kind. Before a box is drawn, exactly the replacement rules of the design "
  "are applied, and after a box has been removed, exactly the reversion rules: each rule once per line, in order, each on the result of the previous one. ONCE replaces the first match only, GLOBAL all of them. An expression which does not "
  "compile, or a substitution which fails, makes the run fail. Results may have any length; the recorded width of the text follows the replacement.",
  [CFG, INP], "all rules, lines and results of substitutions",
  "Tests contain one or two rules per design; interactions of several rules, both lists at once, flags, and lines which a rule has made empty or longer are not sampled.",
  ["src/parsecode.c", "src/parser.y", "src/input.c", "src/regulex.c"], [("action_add_regex_rule", "src/parsecode.c"), ("apply_substitutions, analyze_input", "src/input.c"), ("u32_compile_pattern, u32_regex_replace", "src/regulex.c")],
  "path-sensitive abstract interpretation with opaque rules and texts; the sequence of substitutions on each path is compared with the documented one",
  "Lists of up to 2 rules and 2 lines with every outcome of compiling, substituting and converting; lists of up to 3 existing rules when recording; PCRE2 itself is trusted.")

p("C32", "The design which is used is the one asked for",
  "With -d, a design of a configuration is used if and only if its name or one of its aliases is the name asked for, in any letter case. Without -d, all designs of the configuration are read for -l, -q, -r and -m, else just the first one "
  "which is complete. All designs read (and only completed ones) are handed on in order; listing, querying, removing and drawing work on what was found, drawing on the first one. A configuration with neither a design nor parents is refused "
  "with a message unless -d is given.",
  [INP, CFG], "all names, aliases and numbers of designs, in each mode of operation",
  "Tests use the global configuration with a few designs; combinations of aliases, letter case and mode are not sampled.",
  ["src/parsecode.c", "src/parser.y", "src/boxes.c"], [("action_start_parsing_design, action_add_design", "src/parsecode.c"), ("config_file", "src/parser.y"), ("main", "src/boxes.c")],
  PARS + "; states of the design list at each use in main()",
  "All combinations of -d, -r, -l, -q; up to 2 completed designs and 2 aliases; both outcomes of every comparison of names.")

p("C22", "Debug logging does not change what the program does",
  "Debug messages are printed on the standard error stream only, only when debug logging of their area was asked for (it is off by default), and may have any length. Code which is executed only when logging is on, or only when it is off, "
  "changes no data of the program, releases nothing, prints nothing on the output, and neither returns nor ends the program.",
  [PRG, INP], "all places where debug messages are made, all combinations with the rest of the program",
  "The suite compares the output with debugging off; the debug mode is exercised by a handful of cases only.",
  ["src/logging.c", "src/generate.c", "src/input.c", "src/remove.c"], [("log_debug, log_debug_cont, is_debug_logging, activate_debug_logging", "src/logging.c")],
  "effect analysis of all regions control-dependent on a logging query (post-dominators, transitive effect summaries, values flowing out)",
  "Every guarded region in the program; content reached through pointers of unknown origin is not tracked.")

p("C18", "A drawn box holds every input line once, in order, between its sides",
  "The output of drawing consists of all lines of the box in order, except those of a top or bottom side which the design leaves empty. Each line is the indentation, the left side (unless empty), then the top side, the bottom side, "
  "blanks, or exactly one line of the text, then the right side. All input lines appear exactly once and in order; no other text appears. Between the sides there are exactly as many columns as the box is wide. "
  "Every line ends with the configured line break, the last one if and only if the input did.",
  [INP, CFG], "all texts, widths, paddings and indentations",
  "Tests compare some sixty complete boxes; combinations of empty sides, vertical padding, indentation mode and missing final line break are not sampled.",
  ["src/generate.c"], [("output_box", "src/generate.c")],
  "abstract interpretation of output_box over pieces of text (sides, input lines, blanks) with lengths as linear forms over opaque widths; composition of each printed line compared with the documented one",
  "Line counts up to 9 in 21 arrangements (alignment, padding, empty sides, indentation and tab modes, justification); widths, texts and horizontal padding unbounded.")

p("C34", "Text is positioned in the box as alignment and justification ask for",
  "With -a (or by default left and top), the block of text starts after the top padding, in the middle, or right above the bottom padding; and after the left padding, centered within the remaining columns, or right before the "
  "right padding. With justification each line starts at the first column of the block, is centered in it, or ends at its last column; with the indentation inside of the box, left justified lines start at the indentation, and centered "
  "lines are centered right of it.",
  [INP, CFG], "all texts, widths, paddings and indentations",
  "The few alignment tests use one width each; rounding, asymmetric padding and indentation modes interact.",
  ["src/generate.c"], [("output_box, justify_line", "src/generate.c")],
  "abstract interpretation of output_box with opaque widths; position of the text as a linear form (with floor division by two) compared with the documented position",
  "All alignments, justifications and indentation modes; where a half is no integer both neighbours are accepted, and boxes one column wider than the text are exempt horizontally.")

p("C06", "Results go to the output, messages to the standard error stream",
  "What the program produces (boxes, text, the lists of designs and tags) is written to the output only: to the output file given, else the standard output. Error messages, warnings and debug messages are never written there, and while the "
  "configuration and the input are read and the box is made nothing at all is. Results are not written to the standard error stream. The streams are not re-directed after the command line was evaluated.",
  [PRG, FLT], "all places where anything is written, on all paths",
  "Tests look at the streams of some runs; most messages are never triggered, and output and error stream are compared together.",
  ["src/boxes.c", "src/generate.c", "src/remove.c", "src/list.c", "src/query.c", "src/tools.c", "src/cmdline.c"], [("output_box", "src/generate.c"), ("output_input", "src/remove.c"), ("list_designs", "src/list.c"), ("bx_fprintf", "src/tools.c")],
  "provenance of the stream argument of each write in the program, classified by phase of the run (call graph) and kind of text",
  "Every call which writes (through printf family, puts, fwrite, putc, perror and wrappers) with every stream which can reach it.")

p("C11", "The sides of a generated box are made of the design's shapes and fit together",
  "Each side of a new box begins and ends with its corners and consists of the shapes the design has for it, in their order and complete: shapes which are not elastic occur once, elastic ones as often as needed (two of them evenly), and each line "
  "of a side shows the corresponding line of its shapes, for the characters and for their plain version alike. Top and bottom side are equally wide and hold the longest line, left and right side are equally high and hold all lines, and both respect "
  "the minimum size of the design, without being larger than needed where single columns and lines can be added. If the sizes of the shapes do not permit equal sides, this is reported as an error. No buffer or table used for this is exceeded, even where lines contain invisible characters.",
  [CFG], "designs with every arrangement of elastic and other shapes on their sides; shapes of sizes up to 3",
  "The suite draws the designs of the configuration; arrangements, sizes and text sizes combine freely, and the sides are made equal by alternation.",
  ["src/generate.c", "src/shape.c"], [("generate_box", "src/generate.c")],
  "constant propagation of sizes through the generation, with opaque characters; the lines made are compared with the arrangement of the shapes",
  "13 arrangements per side in 30 combinations, sizes up to 3 and texts up to 20 columns. Larger sizes follow the same loops, which is not proved.")

p("C19", "The listings show every design, each with its own data",
  "The listing of all designs shows their number, the configuration files read, and each design exactly once, sorted by name regardless of letter case: its name with all of its aliases, its designer and (if that is someone else) its author, "
  "and its sample; then every tag once with the number of times it is given. The details of one design show its own aliases, author, designer, file, indentation mode, replacement and reversion rules (numbered, glob or once), minimum size, "
  "paddings which are not zero, default for blank lines, tags, elastic shapes, and the lines of all of its shapes which are not blank, in order, with quotes and backslashes escaped. No buffer used for this is exceeded.",
  [CFG], "all names, texts, numbers and paddings, up to the numbers of items given",
  "Tests list a few designs; aliases, missing authors, rules in either direction, tags and blank shapes combine freely.",
  ["src/list.c", "src/parsing.c", "src/shape.c"], [("list_designs", "src/list.c"), ("print_design_list_header", "src/parsing.c")],
  "abstract interpretation of the listings over opaque strings, texts and numbers; the output of each path is compared item by item with the design's own data",
  "19 variations of one design, 5 sets of up to 3 designs. Sorting itself is the C library's; its comparison is followed separately.")

p("C20", "Removing a box takes its sides and padding away and keeps the text in order",
  "When a box is removed, exactly the lines of its top and bottom side go, and with them all blank lines next to these sides (with blank lines to be removed) or at most the padding of the design (when mending). "
  "Every other line remains once and in order. Where the left side was found, it and everything before it goes, and at most the left padding, of blanks only, after it; where the right side was found, it and everything after it goes; "
  "what is between stays and keeps the indentation of the box in front of it, unless -i says otherwise. A line without a left side loses nothing but that indentation. Of a design without a left side, lines lose at most the "
  "left padding, and never more than their common indentation. Columns are counted in the visible characters of the line where it was compared that way. Sides which overlap, or share a line, do no harm. "
  "The width and indentation of the result are those of its lines, and nothing is used after its release.",
  [INP], "all texts, positions of the sides found, designs with any sides missing, up to the numbers of lines given",
  "Tests remove a few complete boxes; partly broken ones, missing sides, blank lines and invisible characters combine freely.",
  ["src/remove.c"], [("remove_box", "src/remove.c")],
  "abstract interpretation of the removal over opaque lines with every result of the searches for sides (order constraints of each path)",
  "48 scenarios of up to 6 lines: sides found or not, on each line, blank lines, modes. The searches for the sides themselves are replaced by all of their possible results; operations on strings are trusted.")

p("C21", "The input is recorded line by line, and its indentation removed as asked for",
  "All lines of the input are recorded in order, any number of them, without their line break, with trailing white space removed unless a box is to be removed; whether the last line ended with a line break is recorded. Tabs become blanks up to "
  "the next tab stop, and with tab mode k their columns are recorded. The indentation of the text is the smallest one of its lines which are not blank; unless it belongs into the box or a box is removed, exactly that much is cut "
  "off every line. The width of the text is that of its longest line, less the indentation removed. Replacement rules are applied once, after that.",
  [INP], "all texts up to the interpretation of their characters, numbers of lines",
  "Tests contain a few texts; line break conventions, blank lines, tabs among other characters, and a missing line break at the end combine freely.",
  ["src/input.c", "src/tools.c"], [("read_all_input, analyze_input", "src/input.c"), ("expand_tabs_into", "src/tools.c")],
  "abstract interpretation of the reader over lines of given shape with opaque characters, and of the analysis over opaque widths and indentations (order constraints of each path)",
  "Shapes of up to 3 lines with tabs, blanks and both line breaks; 203 lines for the growth of memory; up to 3 lines in all modes for the analysis. The maximum line length and the file system are trusted.")

p("C07", "Lines end with the line break asked for; text without a box is printed once",
  "Nothing the program prints on the output contains a line break of its own: all lines end with the one asked for (-e), which only the command line sets (samples and texts of a configuration keep theirs). When a box was removed, every remaining "
  "line is printed exactly once, in order, without trailing white space (a line of nothing else may keep it); the last one ends with a line break if and only if the input did. Its indentation is printed in exactly the width which is taken off the text: as blanks, in tabs and "
  "blanks, or with the tabs the line had. When the box is mended, nothing is printed before, and blank lines are empty. The buffers used hold these blanks.",
  [INP], "all texts, indentations and tab stops, and all places which print",
  "Tests compare output with line feeds and a few indentations; other line breaks with other modes, several tabs in a row, and lines which were removed are not sampled.",
  ["src/remove.c", "src/tools.c", "src/list.c", "src/cmdline.c"], [("output_input", "src/remove.c"), ("tabbify_indent", "src/tools.c"), ("print_design_details", "src/list.c")],
  "search of all fixed texts which can reach the output; abstract interpretation of output_input with opaque texts and indentations (linear forms), and of tabbify_indent for layouts of tabs",
  "All tab modes, up to 3 lines, with removed lines; 37 layouts of tabs and blanks at tab stops every 4 columns for tabbify_indent.")
