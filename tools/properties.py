import json
F="src/formatter.rs"; DM="src/data_model.rs"; EN="src/enum_def.rs"; AC="src/accessor.rs"; UT="src/utility.rs"; CX="src/context.rs"; DOC="src/doc.rs"; DB="src/doc_builder.rs"; MA="src/main.rs"; AR="src/args.rs"
def st(n,m,w): return dict(name=n,meaning=m,where=w)
def me(n,w): return dict(name=n,where=w)
P=[]
def prop(id,title,statement,over,qtext,why,files,state,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=dict(files=files,state=state,mechanism=mech,observe_at=observe,hook_needed=hook)))
lib="Formatter::format_one and format() called as a library"
cli="the afmt process: exit status, stdout, stderr, files"
S_src=st("THREAD_SOURCE_CODE","the text every token is cut from",UT)
S_com=st("THREAD_COMMENT_MAP","the comments of the file by the node they belong to, and which were printed",UT+", "+CX)
S_doc=st("document tree","what the printer lays out",DB+", "+DOC)
M_build=me("node constructors and DocBuild::build_inner",DM+", "+EN)
M_print=me("pretty_print / propagate_breaks / fits",DOC)
M_com=me("handle_pre_comments / handle_post_comments / collect_comments / assert_no_missing_comments",UT)

prop("C01","Formatting never changes the code tokens",
 "Leaving whitespace and comments aside, the formatted text consists of the same tokens in the same order as the source: every identifier, literal, operator, modifier, annotation, query clause and bracket is there once and spelled as written, keywords up to letter case. The only differences allowed are redundant parentheses around query conditions and data categories, the empty parentheses of an annotation, stray semicolons, an optional AS before a FROM alias, and the place of an annotation written after a modifier. This holds at every line width and indent size, with or without comments, for every program the formatter accepts.",
 ["programs","inputs","configurations"],"every valid Apex program the formatter accepts, with comments anywhere, every max_width and indent_size",
 "The tests compare a few hundred fixed texts at width 80; the constructs of the grammar combine freely, and a token dropped only in one optional position, nesting or width is in none of them.",
 [DM,EN,AC,DB,UT],[S_src,S_doc],[M_build,me("DocBuilder concat/txt/softline helpers",DB)],[lib])
prop("C02","Every comment is printed exactly once, text unchanged",
 "Every comment of a formatted file appears in the output exactly as many times as in the source, with its text unchanged apart from the indentation of its lines; none is lost, duplicated or invented. Comments between declarations, members and statements also keep their order.",
 ["programs","inputs","configurations"],"every accepted program with comments of any text (line, block, doc, multi-line, non-ASCII) at any token boundary, every width and indent size",
 "Comments attach to tree nodes by position, so each pair of node kind and comment position is a case of its own; the tests hold a fixed list of positions.",
 [UT,CX,DM,EN],[S_com],[M_com,me("Comment / CommentBucket",CX)],[lib])
prop("C03","Comments between statements and members stay where they were",
 "A comment written between declarations, members or statements, or behind the last one of a body, comes out between the same two code tokens as in the source. A comment that trails code on its line still trails that code, and a comment on lines of its own still has lines of its own, except right after an opening brace or a list's comma, where it may move to its own line. A comment that leads code on its line still leads it there.",
 ["programs","inputs","configurations"],"every accepted program whose comments stand between or behind declarations, members and statements, every width and indent size",
 "Which side a comment lands on depends on row numbers of its neighbours, on blank lines and on other comments nearby: combinations no fixed list of examples holds.",
 [UT,CX],[S_com,st("comment metadata","newlines above and below, trailing or not",CX)],[M_com],[lib])
prop("C04","The output parses to the same syntax tree",
 "For every accepted program the output is again a valid program, and its syntax tree is the tree of the source, node by node and leaf by leaf, up to the documented normalisations (redundant query parentheses, stray semicolons, keyword case). So precedence, nesting, the branch an else belongs to and the binding of query clauses are unchanged.",
 ["programs","inputs","configurations"],"every accepted program, every width and indent size",
 "Equal-looking tokens can regroup (signs, casts, dangling else, generic brackets, queries) only for particular neighbours, which fixed examples do not enumerate.",
 [DM,EN,AC,DB],[S_src,S_doc],[M_build],[lib])
prop("C05","Formatting formatted text changes nothing",
 "Formatting the output of a run again with the same settings succeeds and gives back exactly the same text, for every accepted program that has no comments or has them between declarations, members and statements.",
 ["programs","inputs","configurations"],"every accepted program in that domain, every width and indent size",
 "Idempotence relates two runs on unbounded inputs; the repository itself lists idempotence as unresolved and tests it on chosen files at one width.",
 [DM,UT,DOC],[S_doc,S_com],[M_build,M_print,M_com],[lib])
prop("C06","The layout depends on the code, not on the whitespace of the source",
 "Two comment-free sources that differ only in blanks, tabs and single line breaks between the same tokens (no blank lines) format to the same text at the same settings. Stray semicolons are outside of this.",
 ["inputs","programs","configurations"],"every pair of whitespace variants of every accepted comment-free program, every width and indent size",
 "It relates pairs of inputs; the space of whitespace variants of one program is exponential and the tests contain one variant of each.",
 [DM,UT,EN],[S_src],[M_build,me("row and column comparisons on nodes",UT)],[lib])
prop("C07","SOQL and SOSL queries keep every clause and its order",
 "Every SOQL or SOSL query of an accepted program comes out with the same fields, objects, aliases, scopes, conditions with their grouping, groupings, orderings, limits, offsets, nested subqueries, bind expressions, RETURNING lists, WITH and USING clauses and FOR/UPDATE options, each clause once, in order, with its operands unchanged; a parenthesis is dropped only where it does not affect how AND, OR and NOT group.",
 ["programs","inputs","configurations"],"every query the grammar admits in every expression position, every width and indent size",
 "Most clauses are optional and combine freely; the tests have a few dozen queries.",
 [DM,EN],[S_src],[me("QueryExpression, SoqlQueryBody, SoslQueryBody and their clauses",DM),me("clause and condition enums",EN)],[lib])
prop("C08","-w writes the whole formatted text or leaves the file as it was",
 "After afmt -w on a file it can format, the file holds exactly the formatted text and nothing else in the file system has changed; the exit status is 0. If the source cannot be formatted, or reading the file or the configuration fails, the exit status is not 0 and the file keeps its bytes. When a system call of the write itself fails, the exit status is not 0 and the file holds the old text, the new text or a prefix of the new text - never anything else.",
 ["fault_sequences","crash_points","inputs","configurations"],"every file content, and every failure, short write and kill at every file-system call of the process",
 "The tests never run the program with -w, and none injects faults.",
 [MA,F],[st("target file","bytes, mode and links of the file named on the command line",MA)],[me("run(): fs::write",MA),me("Formatter::format: fs::read_to_string",F)],[cli])
prop("C09","--check tells the truth and changes nothing",
 "afmt --check exits with 0 exactly when the file's bytes equal what afmt -w would leave there with the same configuration, and with another status when they differ by even one byte or when the file cannot be read or formatted. It never writes to the file or anywhere else.",
 ["inputs","configurations"],"every file, formatted, nearly formatted, unformatted or invalid, with every configuration",
 "It is an equivalence between two modes over all inputs; no test runs --check.",
 [MA,AR],[],[me("run(): --check branch",MA)],[cli])
prop("C10","A dry run prints the formatted text and changes nothing",
 "Without -w, afmt prints the formatted text of the file to standard output, followed by one newline, exits with 0, and leaves every file as it was; what it prints is the text -w would write and, apart from the time line that -t adds, is the same on every run.",
 ["inputs","configurations","histories"],"every file and configuration, every sequence of runs, with and without -t, from any working directory",
 "The tests call the library, never the program.",
 [MA,AR,F],[],[me("run()",MA)],[cli])
prop("C11","Several files: one result per file, in the order given",
 "Formatting a list of files in one call gives exactly one result per file, in the order of the list, each equal to formatting that file alone. A file that is missing or invalid yields an error in its own place and does not affect the others, whatever the order in which the files become readable or the work on them ends, and calling again gives the same results.",
 ["schedules","inputs","histories"],"every list of files (valid, invalid, missing, repeated) and every order in which work on them completes",
 "The tests pass one file per call, and the completion order of threads is up to the scheduler.",
 [F],[st("mpsc channel","results travelling from worker threads",F),S_src,S_com],[me("Formatter::format",F)],["format() with named pipes as files, so that the completion order is the monitor's choice"])
prop("C12","Formatting is a deterministic function of text and settings",
 "The same text and settings give the same output, or are refused, every time: again in the same process, in another thread, and while other threads format other files with other settings; and in another process, whatever its environment variables, working directory and home directory. No state carries over from one file to another.",
 ["schedules","histories","inputs"],"every accepted or refused input, every interleaving with other formatting calls",
 "A leak of state between runs or threads shows only in particular histories.",
 [F,UT],[S_src,S_com],[me("thread-local setters",UT)],[lib])
prop("C13","Invalid programs are refused, never repaired or rewritten",
 "A source that is not a valid program - including one the parser could repair by inserting a single missing token - is refused with an error, and no formatted text is produced for it.",
 ["inputs","programs"],"every text that is not a valid program: deletions, insertions, repetitions, swaps and truncations of tokens of every valid one",
 "The space of invalid texts around each program is unbounded; a few malformed examples cannot show that no hole is left.",
 [F,UT],[],[me("parse and has_error test",F)],[lib,cli])
prop("C14","max_width is honoured: break only when needed, and always then",
 "For comment-free programs: if the output at some width fits in a narrower one, the output at the narrower width is the same text. A line is wider than the limit only where even the narrowest layout has a line wider than the limit, and a member or statement that, laid out with no limit at all, has no line wider than the limit is laid out exactly so. Widths count characters; anonymous class bodies and redundant query parentheses are outside of this.",
 ["configurations","programs","inputs"],"every comment-free accepted program and every pair of widths",
 "The tests use width 80 only; an error of one column or in the lookahead of one construct shows at particular widths of particular lines.",
 [DOC,DB],[S_doc,st("remaining width","columns left on the current line",DOC)],[M_print],[lib])
prop("C15","Indentation is a multiple of indent_size and follows nesting",
 "Every line starts with blanks (never tabs) that are a multiple of indent_size, lines inside block comments aside. Each declaration, member and statement starts on its own line exactly one indent level deeper than the line that closes its body, top-level declarations start in column 0, and with no width limit changing indent_size changes nothing but the length of the leading blanks, in proportion. Within a member or statement no line is to the left of its first; the links of a chain and the further lines of a variable declaration, closing brackets aside, are to the right of it; what a bracket that begins a line opens is deeper than that bracket; and a statement that is the unbraced body of another is, with all its lines, one level deeper than the line that statement begins.",
 ["configurations","programs","inputs"],"every accepted program (comments between members and statements allowed) and every indent_size",
 "The tests use indent size 2 with a handful of exceptions, so a hard-wired 2 or an indentation lost after a blank line or comment in one construct goes unseen.",
 [DOC,DB,DM],[S_doc],[M_print,me("indent helpers",DB)],[lib])
prop("C16","The output has clean whitespace",
 "The output ends in exactly one newline and does not start with a blank line. Outside comments and string literals it holds no tabs, no carriage returns, no blanks at the end of a line, no two blanks between tokens of a line, no two blank lines in a row, no blank line after an opening or before a closing brace, no blank before a comma or semicolon, and a blank or line break after every comma.",
 ["programs","inputs","configurations"],"every accepted program without comments or with them between members and statements, every width and indent size",
 "Each rule must hold at every token gap of every combination of constructs, blank lines and comments.",
 [DOC,DB,UT],[S_doc],[M_print,me("blank-line decisions between body members",UT+", "+CX)],[lib])
prop("C17","Every supported program is formatted",
 "The formatter accepts every valid program built from the constructs it supports, alone or with comments between declarations, members and statements, at every width from 1 up and every indent size: it returns non-empty text and does not panic, hang, overflow the stack or report comments as missing.",
 ["programs","inputs","configurations"],"every valid program over the supported grammar, every width and indent size",
 "Each construct can stand in many positions, and the panics sit in the combinations (unexpected node kinds, missing children, row arithmetic).",
 [DM,EN,UT,CX],[S_com],[me("panic paths: unknown node, missing child, missing comment",UT+", "+EN)],[lib])
prop("C18","No memory error, undefined behaviour or data race",
 "Whatever the bytes of the source - valid, broken, truncated, non-ASCII or hostile - formatting it performs no out-of-bounds or use-after-free access and no undefined operation, in the Rust code and in the parser's C code alike; formatting many files at once has no data race; and the output is valid UTF-8.",
 ["inputs","schedules","programs"],"every text, valid or not, and every interleaving of the threads that format several files",
 "A test observes results, and a memory error or a race usually leaves them unchanged; it needs instrumentation to be seen.",
 [F,UT],[S_src,S_com],[me("thread-local leaked references",UT),me("worker threads",F)],["processes built with AddressSanitizer+UBSan and ThreadSanitizer"])
prop("C19","Cost grows in step with the size of the program",
 "The work done for a program grows no faster than in proportion to its length for files of more members, statements, arguments, conditions, list items, comments between statements and longer literals, and no faster than its square for deeper nesting and longer chains; it never explodes.",
 ["inputs","programs","configurations"],"every family of programs that grows in one direction, at narrow and wide widths",
 "The tests run small inputs and measure nothing; a lookahead or search that repeats per level passes them all.",
 [DOC,UT,CX],[S_doc,S_com],[M_print,me("comment collection",UT)],["instructions executed by the afmt process under cachegrind"])
prop("C20","Deeply nested programs are formatted, and never harm the file",
 "Programs nested up to 100 levels deep in any construct (250 for parentheses and chains) are formatted, from the command line, with the default stack. At any depth the file is either replaced by its formatted text or left byte for byte as it was, and the exit status says which.",
 ["inputs","programs"],"every nesting construct, at every depth",
 "The tests nest a few levels.",
 [DM,DOC,F],[],[me("recursive construction and printing",DM+", "+DOC)],[cli])
prop("C21","The letter case of keywords does not matter",
 "Apex and SOQL keywords are case-insensitive: changing the letter case of keywords in the source leaves the program accepted and its layout as it was, and the formatted texts are equal up to the case of those query and literal words that are printed as the author wrote them. Declaration modifiers, control-flow keywords and clause keywords come out in the formatter's own case.",
 ["inputs","programs","configurations"],"every accepted program and every recasing of its keywords",
 "Programs with unusual keyword case are hardly among the test files, and every comparison with a literal keyword in the code is a place to get it wrong.",
 [EN,DM,UT],[S_src],[me("keyword and modifier enums",EN)],[lib])
prop("C22","The configuration file decides the settings, and a bad one is refused",
 "max_width and indent_size of the file given with -c are used exactly, each defaults to 80 and 2 when it is left out, and without -c the defaults are used, whatever other files lie around. A configuration file that is missing, unreadable, not valid TOML or has a value of the wrong type or sign stops the run with a message and a non-zero status before any file is touched. The result is that of the library with the same settings, in every mode.",
 ["configurations","inputs","fault_sequences"],"every configuration file and every mode of the program",
 "The tests construct settings in code and load two sample files.",
 [F,MA,AR],[st("Config","max_width and indent_size",F)],[me("Config::from_file, Formatter::create_from_config",F)],[cli])
prop("C23","Blank lines between members and statements are kept, as one",
 "Where the source has one or more blank lines between two members of a class or interface, two statements of a block, or one of these and a comment next to it, the output has exactly one blank line there, and where the source has none the output has none. Two comments in a row, also at the top level, count the same way.",
 ["programs","inputs","configurations"],"every accepted program without comments or with them between members and statements, every pair of neighbours in a body",
 "The decision depends on the kinds of both neighbours and on rows; the tests show a few pairs.",
 [UT,CX,DM],[st("node context","newline facts gathered while the tree is enriched",CX)],[me("enrich and body member separators",UT+", "+DM)],[lib])
prop("C24","Line endings do not matter",
 "A source with CRLF line endings formats to the same text as with LF, comments included, and the output has LF only.",
 ["inputs","programs"],"every accepted program, with comments anywhere",
 "The test files all use LF.",
 [UT,DM],[S_src,S_com],[me("text of comments and literals",UT)],[lib])
prop("C25","Failures are reported on stderr with a non-zero status and a readable message",
 "When the file is missing, unreadable, a directory, not UTF-8 or not a valid program, the arguments are wrong, or standard output takes no data, afmt exits with a non-zero status, prints no formatted text, names on standard error the file or argument at fault, changes no file, and does not die of a signal - whatever the file contains, including non-ASCII text around the error. For a program that does not parse it also names the place: a byte range that holds an error of the parse, and the text found there.",
 ["inputs","fault_sequences","configurations"],"every unusable file or argument, in every mode",
 "The message is cut from the source around the error, so it can fail by itself on particular texts; no test runs the program.",
 [MA,F,UT],[],[me("run(), error printing and truncate_snippet",MA+", "+UT)],[cli])
prop("C26","The installer installs the right program whole, or changes nothing and says why",
 "scripts/install-afmt.sh, piped into bash or run as a file, on Linux or macOS with x86_64 or aarch64: when the latest release has the tar.gz asset for that system, ~/.local/bin/afmt is afterwards exactly the afmt of that asset and executable, and the exit status is 0, with or without a terminal to answer its question. When the system is not supported, curl or tar is missing, the release or the asset cannot be had, the archive is unusable or the program cannot be put in place, it exits with a non-zero status and a message, and an afmt that was installed before is as it was. The shell profile (bash, zsh, fish) gets one working line that adds the folder to PATH only when PATH lacks that folder and the user answers y, and keeps all it held. Nothing else in the home or current folder changes, and no temporary files are left.",
 ["inputs","fault_sequences","configurations"],"every supported and unsupported system, release listing, failing download, archive or command, shell, PATH, answer and prior state of the home folder",
 "Nothing in the repository runs the script; its paths depend on the machine, the network, the terminal and the user's files, and bash's error options end it at places that no reading of one path shows.",
 ["scripts/install-afmt.sh"],[st("~/.local/bin/afmt and the shell profile","what the installer writes","scripts/install-afmt.sh")],[me("detect_os, detect_arch, check_dependencies, main","scripts/install-afmt.sh")],["the script's exit status, output, and the files in HOME, TMPDIR and the current folder"])
prop("C27","The layout of a member depends on that member alone",
 "In a comment-free program, removing or repeating one member, statement or declaration leaves the text of every other one, at its indentation, exactly as it was.",
 ["programs","inputs","configurations"],"every comment-free accepted program, every item of its bodies",
 "It relates pairs of programs, and state that leaks between siblings shows only for particular neighbours.",
 [DOC,DM,UT,CX],[S_doc,S_com],[M_print,M_build],[lib])
prop("C28","Tokens are spaced in one style",
 "Two neighbouring tokens of the output with no comment between them are separated by nothing, one blank or a line break, and which depends only on the construct. Nothing: before a comma or a semicolon that ends something, inside brackets next to the bracket (or a line break), around dots (a break may come before), after @, around ++ and --, between a sign or negation and its operand, around = in an annotation, before the parenthesis of a call or declaration, around the angle and square brackets of types, before the brace of list, set and map values. One blank: on both sides of binary, assignment, comparison and conditional operators, instanceof, => and the colon of a for loop, after a cast, after a comma, between a keyword and what follows it, before the brace of a body. Where such a line is broken, the break is after a comma or an assignment operator and before a binary operator, ? or :. Items of a body each begin a line; else, catch, finally and the while of do follow on the line of the brace of the block before them. A parenthesis, bracket or brace of an argument, parameter, condition or value list that is followed by a line break is closed after a line break, and the other way round. The elements of a list, the operators of one level in an expression, the links of a chain of calls, ? and : of a choice, the parts of a for header, the clauses of a query and the AND or OR of a condition are broken all or none. A comment between members or statements is set off from the tokens around it by one blank or a line break, and no comment stands directly behind a comma or a semicolon.",
 ["programs","inputs","configurations"],"every accepted program, every pair of neighbouring tokens not parted by a comment, at every width and indent size",
 "Each construct writes its own blanks; a lost or moved one shows only for one pair of constructs, often only where a line is broken, and the re-formatted text is as stable as the right one.",
 [DM,DB,"src/enum_def.rs"],[S_doc],[M_build,M_print],[lib])
prop("C29","The layout depends on the length of names and literals, not what they say",
 "Replacing identifiers, string literals, whole numbers and the words of one-line comments by others of the same length - consistently, each occurrence on its own, or all names of one length by the same name - leaves a program accepted and gives the same output with the same replacements: every line break, blank and indentation is where it was. Holds for accepted programs with no comments or with comments between declarations, members and statements, wherever the replaced program still has the same syntax tree.",
 ["programs","inputs","configurations"],"every accepted program and every renaming of its names and literals that keeps lengths and the syntax tree",
 "Special treatment of a name, of two equal names or of characters inside a literal shows only for those texts; a test fixes the names it uses.",
 [DM,UT,CX,DB,DOC],[S_doc,S_com],[M_build,M_print],[lib])
prop("C30","Code is laid out the same at every place that leaves it the same room",
 "A statement is laid out the same in the body of a method, constructor, initializer, accessor or trigger and inside if, else, for, while, do, try, catch, finally, switch, runAs or plain blocks, at any depth, and a member the same in an outer or inner class, as long as the width left beside its indentation is the same: the texts differ by the indentation of their lines alone, comments inside included. With no limit on the width the same holds inside an anonymous class, wherever that stands. It is not accepted at one such place and refused at another.",
 ["programs","inputs","configurations"],"every accepted statement and class member, every place of the language that takes it, at every depth, width and indent size",
 "It relates pairs of programs; what leaks from the surrounding construct or depends on the depth shows only at particular places and depths.",
 [DOC,DM,UT,CX],[S_doc,S_com],[M_print,M_build],[lib])
prop("C31","Comments between statements do not change the layout of the code",
 "Adding comments between declarations, members and statements, or taking them away, changes no line that holds code: the output has the same code lines, broken at the same places and indented alike, and blank lines and the comments themselves aside nothing else differs. This holds at every width for comments on lines of their own, and without a limit on the width also for comments that share a line with code. A program is not refused because of such comments. Not meant are comments in accessor lists and enumerations, which are written over several lines when they hold one.",
 ["programs","inputs","configurations"],"every accepted program, every set of comments between its declarations, members and statements, every width and indent size",
 "It relates two programs that differ in comments alone; a layout that leaks from a comment into the code shows only beside particular constructs, in bodies of comments only or in anonymous classes.",
 [UT,CX,DM,DB,DOC],[S_com,S_doc],[M_build,M_print],[lib])
open("/verif/properties.jsonl","w").write("".join(json.dumps(p,ensure_ascii=False)+"\n" for p in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P:
    assert len(p["title"])<=80,p["id"]
    try: jsonschema.validate(p,s)
    except Exception as e: print(p["id"],str(e)[:400])
print(len(P))
