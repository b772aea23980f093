#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the statements are reviewable as text).
import json
P=[]
def p(id,title,statement,over,q,why,files,mech,observe,state=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":q},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append(d)
ENC='src/calculator/file/encode.rs'; DEC='src/calculator/file/decode.rs'; TOK='src/calculator/tokens/mod.rs'
SHEET='src/calculator/tokens/standard_tokens/8X.json'; PRG='src/calculator/program.rs'; TXT='src/calculator/file/from_txt.rs'
XP='src/calculator/file/from_8xp.rs'; MOD='src/calculator/models.rs'; CONV='src/commands/convert.rs'; EDIT='src/commands/edit/mod.rs'
CLI='src/cli.rs'; MAIN='src/main.rs'; STY='src/styles.rs'; SEA='src/commands/search.rs'; DET='src/commands/details.rs'

p("C01","Encoding a text never loses, adds or reorders anything in it",
 "For every model, display mode and encode mode, a text program either is encoded to tokens whose texts, joined in order, are exactly the text of the program (after replacing the look-alikes of theta by theta), or is rejected with an error and no output file. Nothing in between exists: no character is dropped, duplicated, moved across a line or replaced. Every text made only of accessible tokens of a TI-83+ or newer model is encodable.",
 ["inputs","configurations"],"all texts over the token sheet x 3 display modes x 3 encode modes x every model's token table",
 "The only encoding test compares 9 fixture programs in one mode (accessible, smart, latest); tokenization depends on lookahead across token boundaries, which has thousands of distinct residual states.",
 [ENC,TXT,TOK,SHEET],[("greedy match consumes exactly the matched text",ENC+" encode"),("normalization of theta",ENC+" normalize"),("error when nothing matches",ENC+" encode")],
 ["ti-tools convert x.txt -o y.8xp; ti-tools convert y.8xp -o z.txt"],
 [("temp_line","text of the line that is not encoded yet",ENC),("current_mode","matching mode in the current context",ENC)])
p("C02","Decoding yields exactly the token sheet's text of every token, or an error",
 "The text of a program file is the concatenation, in order, of the texts that the token sheet assigns to its one- and two-byte tokens for the file's calculator model and the chosen display mode. If any byte sequence in the body is not a token of that model, or the body ends inside a two-byte token, the file is rejected with an error instead of being decoded partly.",
 ["inputs","configurations"],"all token sequences (bodies) x 3 display modes x every model",
 "Tests decode 9 fixtures of model 'latest' in accessible mode; they reach a fraction of the 809 tokens and no invalid body, no other model and no other display mode.",
 [DEC,XP,SHEET,TOK],[("byte-wise key lookup with a 2-byte window",DEC+" decode"),("table selected from the product id",XP)],
 ["ti-tools convert x.8xp -o y.txt -d MODE","convert -p"],[("current_bytes","bytes of the token being read",DEC)])
p("C03","A program survives 8xp -> txt -> 8xp with its body, name and settings",
 "Converting a program file to txt and the txt back to 8xp gives a program with the same name (names that a txt file can carry: up to 8 ASCII letters), file type, destination, model identification and (for every body that is the canonical encoding of its text) the same body bytes, in every display mode. This includes empty bodies, empty lines at the start, in the middle and at the end, and bodies that end in a line break.",
 ["inputs","configurations"],"all bodies over a line-structure alphabet up to a length bound, all names lengths, 4 file types x 2 destinations x every model x 3 display modes",
 "Fixtures contain no trailing empty lines, only RAM programs of one model and one display mode; the test compares two committed files, it never runs the round trip.",
 [PRG,TXT,XP,DEC,ENC],[("txt header lines",PRG+" save_to"),("parsing of the header lines",TXT)],
 ["ti-tools convert in both directions"])
p("C04","Max mode takes the longest and min mode the shortest token at every position",
 "In max mode every step of encoding takes the longest token text that matches at the current position of the line, in min mode the shortest one, for every text, model and display mode, no matter what precedes it in the line or program. Line breaks are always encoded as the line break token and end no other token.",
 ["inputs","configurations"],"all texts over the token sheet x 3 display modes x every model's token table x {min,max}",
 "No test uses min or max mode.",
 [ENC,TOK],[("longest match",TOK+" get_longest_matching_token"),("shortest match",TOK+" get_shortest_matching_token")],
 ["ti-tools convert -e min|max"],[("current_mode","matching mode",ENC)])
p("C05","Smart mode chooses token lengths by context",
 "In smart mode (the default) a text is encoded with the longest token at every position, except that text between double quotes is encoded with the shortest tokens up to the closing quote, a store arrow or the end of the line, and that the upper case letters, digits and theta that follow prgm or the list-name marker are encoded as single characters. After the closing quote, the store arrow, the end of a name or the end of a line, the longest tokens are used again.",
 ["inputs","histories"],"all sequences of context-relevant symbols (quotes, arrows, prgm, list marker, letters, words that are tokens, separators, line breaks) up to a depth bound, x models x display modes",
 "Fixtures exercise a few contexts only and pin (part of) the wrong behaviour after a closing quote; context switching is a state machine over the whole line.",
 [ENC],[("EncodeState",ENC+" EncodeState"),("context switches after each token",ENC+" encode")],
 ["ti-tools convert -e smart"],[("in_string","inside double quotes",ENC),("in_custom_name","inside a program or list name",ENC),("current_mode","matching mode",ENC)])
p("C06","The same input always gives the same output bytes",
 "Encoding, decoding, searching and converting depend only on the input file and the arguments: repeated runs give byte-identical files and the same output. In particular, when several tokens have the same text, the same token is chosen in every run, whatever the iteration order of the hash maps holding the token table.",
 ["schedules","inputs"],"all relative iteration orders of tokens with equal texts (hash seeds), all tied texts x display modes x models",
 "The iteration order of the token map is randomized per process, so a test sees one order per run and passes or fails by luck.",
 [TOK,ENC,SEA],[("tie-break between tokens with the same translation",TOK)],
 ["ti-tools convert","ti-tools search","get_longest_matching_token"],[("Map.map","token table in random iteration order",TOK)])
p("C07","Every binary file that is written is well-formed",
 "Every 8xp, 82p or 83p file that any command writes, after any history of conversions and edits of well-formed programs, is well-formed: signature, fixed bytes, comment and name zero-padded to 42 and 8 bytes, all length fields equal to the actual lengths, and a checksum equal to the low 16 bits of the sum of the metadata and body bytes.",
 ["histories","inputs"],"all sequences of convert/rename/comment/lock/unlock/archive/unarchive operations over a small argument alphabet, from every kind of initial file, to closure of the reachable states",
 "Tests check single edits of the in-memory structure and never read back a written file; checksums after edits and the 82p/83p layout are not looked at.",
 [PRG,TXT,XP,EDIT],[("checksum",PRG+" Checksum::of"),("header and metadata layout",TXT)],
 ["bytes of the written files"],[("header/metadata/checksum bytes","raw bytes that are written",PRG)])
p("C08","An edit changes exactly the field it names",
 "Renaming, commenting, locking, unlocking, archiving and unarchiving change only the name, comment, file type or destination (and the checksum) of the program; body and all other bytes stay as they were, the last edit of a field wins and edits of different fields commute. A rejected edit (name longer than 8 or not alphabetic, comment longer than 42) leaves all files untouched and exits with an error.",
 ["histories","inputs"],"all edit sequences to closure of the reachable states, all name lengths and all comment lengths around the limits, all initial types/destinations/formats",
 "Tests apply one edit to one in-memory fixture; sequences, initial states other than a plain program, and the written file are not covered.",
 [PRG,EDIT],[("rename/comment/lock/archive",PRG+" Header, Metadata"),("save_edits",EDIT)],
 ["bytes of the edited file"],[("header.bytes, metadata.bytes","raw bytes next to the decoded fields",PRG)])
p("C09","JSON export and import is lossless",
 "Converting a program to json and the json back to any other format gives the same file as converting the program directly, for every file type, destination, model, display mode, name, comment and body.",
 ["inputs","configurations"],"full product of metadata values x models x display modes x bodies, and json as a stop in every conversion history",
 "No test touches json.",
 [PRG,MOD],[("serde of Program",PRG),("serde of Model",MOD)],["ti-tools convert x.8xp -o y.json; ti-tools convert y.json -o z.8xp"])
p("C10","82p and 83p files are imported and exported without loss",
 "A well-formed 82p or 83p file converts to 8xp and txt with its name, file type, comment, model and body intact and with correct lengths and checksum, and any program converts to 82p/83p in the layout those files are read in; 8xp -> 83p -> 8xp and 83p -> 8xp -> 83p give the same program (82p/83p have no version and destination).",
 ["inputs","configurations","histories"],"full product of file types x names x bodies x models x {82p,83p}, and all conversion histories through 82p/83p to closure",
 "No test loads or writes an 82p or 83p file although fixtures exist.",
 [XP,PRG],[("17-byte metadata",XP),("writing 17-byte metadata",PRG+" save_to")],["ti-tools convert between 8xp, 82p, 83p, txt"])
p("C11","Each model and OS version gets exactly the tokens available on it",
 "The tokens known for a model and OS version are exactly those whose first supporting version is not newer and whose last supporting version is not older, where versions are totally ordered by model generation and then numerically. Every model name and every calculator identification in a program file maps to the right model, and unknown product ids are rejected.",
 ["configurations","inputs"],"all models x all OS versions that occur in the token sheet and their neighbours; all pairs and triples of versions for the order laws; all 256 product ids x signatures",
 "One test loads the table of one version and only checks that loading succeeds.",
 [TOK,MOD,SHEET],[("OsVersion::cmp",TOK),("load_tokens filter",TOK),("from_byte/from_model/from_string",MOD)],
 ["load_tokens","ti-tools details","ti-tools convert of txt files naming a model"])
p("C12","Malformed program files are rejected without a crash or partial output",
 "A program file that is too short, has an unknown product id, file type or destination, or a body that is not a token sequence of its model is rejected with an error message and a failure exit status; no output file is created and no existing file changes. No content of a program file makes the program crash.",
 ["inputs"],"every truncation length and every single-byte change of valid 8xp/82p/83p files, all 1- and 2-byte bodies, under every command that reads program files",
 "Tests only load valid files.",
 [XP,DEC,PRG],[("length checks",XP),("enum conversions",PRG+" from_byte")],["exit status, stderr and files after running any command"])
p("C13","Malformed txt and json files are rejected without a crash or partial output",
 "A txt file with a missing header line, an invalid name, file type, destination or display mode, or a json file that is not a complete program is rejected with an error message and a failure exit status; no output file is created and no existing file changes. No content of a txt or json file makes the program crash.",
 ["inputs"],"all combinations of valid, invalid and missing header lines; every truncation, removed field and wrong-typed field of a json file; bytes that are not UTF-8",
 "Tests only load valid files.",
 [TXT,PRG],[("header line checks",TXT),("json checks",PRG+" load_from_json")],["exit status, stderr and files after running any command"])
p("C14","No existing file is changed without the user's consent",
 "Whenever a command would write to a path where something already exists, the user is asked, whatever the file is called, and unless the answer is y or Y the existing file keeps its content, nothing else is written and nothing is deleted. With consent the file is replaced by the complete new content, keeping its permissions, and a link keeps leading to its file; other existing files never change.",
 ["histories","inputs"],"all writing commands x all states of the target (absent, same file, other file, directory, link) x all answers including end of input, and sequences of commands to a depth bound",
 "No test runs a command or answers a prompt.",
 [PRG,EDIT,CONV],[("overwrite prompt",PRG+" save_to")],["file system snapshot before and after each command"])
p("C15","A crash or I/O error while saving never loses or damages a file",
 "If the process dies or a system call fails at any point while a command saves a program, every file that existed before has either its old content or the complete new content, a file given as the output is absent, old or complete but never partial, and an edited program is never lost. Success is only reported and the exit status is only zero when the complete result is on disk (a user who declines excepted), and a failed save leaves no stray files.",
 ["crash_points","fault_sequences"],"every file-modifying system call of every writing command x {process death before/after it, error from it, short write} ",
 "Tests never save a file.",
 [PRG,EDIT,CONV],[("temporary file and rename",PRG+" write_to_file"),("delete after save",EDIT)],["file system snapshot after the injected crash or fault"])
p("C16","Deleting the old file never deletes the only copy",
 "When an edit is saved to a new file with the option to delete the old one, the old file is deleted only after the edited program was completely saved under a different file, and never when saving was refused or failed or when both paths lead to the same file. Without the option the old file is never changed or deleted by saving to a new file.",
 ["histories","inputs"],"all edit commands x {delete-old on/off} x all relations between old and new path (absent, same, alias, symbolic and hard links, existing other file, wrong extension, unwritable place) x all answers",
 "No test runs an edit command with its file handling.",
 [EDIT],[("save_edits",EDIT)],["file system snapshot before and after each command"])
p("C17","Mass conversion converts every convertible file, in any order, inside the output",
 "Mass conversion produces, for every convertible file of the input directory, the same output as converting that file alone (unless the user declines to replace an existing file: then that file stays, and all others are converted if the user goes on), independent of the order in which the directory is read and of other files being broken, of other kinds, or made for other models and modes. Everything it writes is inside the output directory, whatever the names stored in the files; input files stay as they were, and broken files are reported with a failure exit status.",
 ["schedules","inputs","histories"],"all subsets of a set of representative files and all ordered pairs (triples) of programs of every model, format and mode (every format, broken, unrelated, odd program names, directories) x all orders of the directory entries x states of the output directory",
 "No test runs a mass conversion; directory order is up to the file system.",
 [CONV],[("mass loop",CONV+" convert_command")],["file system snapshot after convert -m under every directory order"])
p("C18","Commands that only show information show the truth and write nothing",
 "details, search, models, help, version and conversion without an output path never create, change or delete a file. details and preview report the name, comment, body size, model, language, destination, file type and program text that are in the file.",
 ["inputs","configurations"],"full product of names x comments x types x destinations x models x body sizes; all display commands x flags x file states",
 "No test runs these commands.",
 [DET,CONV,PRG,MAIN],[("details output",DET),("preview output",PRG+" to_string")],["stdout and file system snapshot"])
p("C19","Searching a token prints the definition of that token",
 "Searching for the accessible or pretty text of a token of the newest calculators or for its bytes prints every syntax and description that the definition table has for that token, and for a text with several beginnings the definition of the longest token it starts with. Unknown tokens and tokens without a definition give an error exit status and print no definition.",
 ["inputs"],"every token of the sheet x {accessible, pretty, byte}, every definition key, all two-byte values of the byte form",
 "One test loads the definition table and only checks that loading succeeds.",
 [SEA,TOK],[("key format conversion",SEA+" fix_byte_format"),("longest match",TOK)],["stdout and exit status of ti-tools search"])
p("C20","No command line makes the program crash or claim a success that did not happen",
 "For every sequence of arguments, also of bytes that are no text, the program terminates without crashing: it does what was asked or prints a message. The order of the flags does not matter, a message that a file was saved or changed is only printed when that is true, and messages show names, comments and paths verbatim, whatever characters they contain (text that is itself a style directive excepted).",
 ["inputs","configurations"],"all argument sequences up to a length bound over an alphabet of commands, flags, paths and hostile strings; all flag orders",
 "No test runs the command line.",
 [CLI,MAIN,STY,EDIT,CONV],[("argument lookup",CLI),("style directives in messages",STY)],["exit status, stdout and stderr of ti-tools"])
p("C21","Programs too large for the file format are rejected, smaller ones are not",
 "Every program whose body fits the 16-bit length fields of a program file (up to 65516 bytes) is converted correctly, and every larger one is rejected with an error and no output file; no length field is ever truncated.",
 ["inputs"],"all body sizes in windows around every power-of-two and field limit, for every input and output format",
 "The largest fixture has a few thousand bytes.",
 [TXT,XP,PRG],[("length check",TXT+", "+XP)],["exit status and bytes of the written file"])
p("C22","Concurrent conversions do not disturb each other",
 "When several ti-tools processes work on the same directory at the same time, every output file is the complete output of one of them and, for different outputs, exactly what a run alone would have produced; no process fails because of the other (also when both create the output directory) and no stray files remain. A process that is killed at any point does not disturb the others either: they end as they would beside one that had finished or never begun to save.",
 ["schedules"],"all interleavings of the file-system calls of two processes that save to the same or different paths in one directory; one of two processes killed after each of its calls with the other one at each of its own",
 "Tests run no process and save no file; the outcome depends on the interleaving of two processes.",
 [PRG,EDIT],[("temporary file name per process, atomic rename",PRG+" write_to_file")],["file system snapshot and exit statuses after each interleaving"])
p("C23","Flags mean what the help says, everywhere",
 "The long and the short form of a flag mean the same, in any order of the flags. A flag that is left out has the default the help names; only the values the help lists are accepted for display mode, encode mode and search type, everything else is refused before anything is written. Display mode affects only texts, encode mode only the encoding of texts, content and preview only what is shown: what is saved does not depend on them. A file where a directory is needed, a directory where a file is needed, and a missing required flag are refused. Asking for help with -h or --help shows exactly the help of that command, which lists its flags, and does nothing else.",
 ["configurations","inputs"],"full product of input and output formats x display modes x encode modes x content/preview, all words within one edit of a listed value and values of other flags x commands, all positions of a help flag in the command lines of every command, all orders and forms of the flags of a command",
 "No test runs the command line; the interplay of flags is a product of settings.",
 [CLI,MAIN,CONV,SEA],[("defaults and flags",MAIN),("argument lookup",CLI+" get_arg, has"),("modes","src/calculator/mod.rs from_string")],["files, stdout and exit status of every combination"])
p("C24","Every spelling of a path leads to the same result",
 "However the path of a file or directory is written - relative or absolute, with ., .., doubled slashes, links, spaces, non-ASCII or shell characters, hidden or very long names - a command does the same as with plain names in the current directory: the same files at the places the paths lead to, the same messages with the paths as they were given, the same exit status.",
 ["inputs","configurations"],"all ways to a directory over an alphabet of components up to a depth x prefixes x names x endings, as input, output or both, of every kind of command",
 "No test passes a path to a command; all fixtures have one spelling.",
 [PRG,CONV,EDIT],[("extension of the path",PRG+" get_file_type"),("place of the temporary file",PRG+" write_to_file"),("paths of a mass conversion",CONV)],["file system snapshot, stdout, stderr and exit status"])
p("C25","No sequence of conversions and edits drifts",
 "Starting from any program, every sequence of conversions between the formats (8xp, 83p, 82p, txt, json, in every display mode that keeps the body) and edits leads only to what the formats cannot keep being lost, once: each reachable file is determined by its format and the program it holds, not by the way it came about, and going round any cycle of conversions gives the same bytes again.",
 ["histories"],"all sequences of conversions and edits to closure of the reachable abstract files, from initial programs of every model, type, destination and kind of body",
 "Tests compare committed files once; a drift shows only after several steps through different formats.",
 [PRG,TXT,XP,DEC,ENC],[("writing of every format",PRG+" save_to"),("reading of every format",TXT+", "+XP)],["bytes of the written files after every step"],
 [("abstract file","format, program fields and display mode",PRG)])
p("C26","The extension alone decides the format, and only five are known",
 "A file is read and written in the format that its extension (the part behind the last dot of its name: 8xp, 83p, 82p, txt or json, in lower case) says, whatever else is in its name or content. Any other extension, or none, is refused as the input and output of a conversion and as the target of an edit, without changing, deleting or creating anything, and such files in a directory are neither converted nor touched by a mass conversion.",
 ["inputs"],"all extensions up to a length over the characters of the known ones, all words within one edit of a known one, names with several dots x formats of the content x commands",
 "Tests use only known extensions.",
 [PRG,CONV,EDIT],[("extension to format",PRG+" get_file_type"),("entries that are skipped",CONV)],["file system snapshot and exit status"])
p("C27","Every export states what the program holds, in every field",
 "Whatever a program came from - a program file, a txt file of any model, mode and setting, or an edit - every field of the json file written for it (header, metadata, lengths, type, destination, version, body, translation, checksum, display mode, model and language) states what the program file of the same program holds, and the txt file consists of exactly its name, comment, file type, destination, display mode, model and text. After an edit the exported fields are the edited ones. A mass conversion writes the same txt files as single conversions.",
 ["inputs","configurations","histories"],"product of field values within a variation bound x source format x export format x edits; product of all models x display modes x encode modes x types x destinations of txt files",
 "One test compares the json of one fixture family; a stale field after an edit, or one that is wrong for other models, types or lengths, is never looked at.",
 [PRG,XP,TXT,MOD],[("fields next to bytes",PRG+" rename, lock, unlock, archive, unarchive, comment"),("fields read from a file",XP),("fields made from a text",TXT),("writing of exports",PRG+" save_to")],["bytes of the written json and txt files"])
p("C28","The library keeps a program consistent through every history of calls",
 "For a user of the library: after every history of loading, rename, comment, lock, unlock, archive, unarchive and saving, the bytes and the decoded fields of a program say the same, exactly the last accepted value of each property is in effect, a refused call changes nothing, saving does not change the program, and what is saved, shown or serialized is that state. What a program is loaded as does not depend on the programs that were loaded before it in the same process. Conversions between codes, names and values (file types, destinations, display and encode modes, models) are each other's inverse and accept nothing else. In any token table the longest and shortest match of a text are a longest and a shortest token it starts with, whatever the order in which the tokens were added; none is found exactly if the text starts with no token.",
 ["histories","inputs"],"all sequences of three calls (as a de Bruijn history) and all pairs from fresh programs x representative programs and sources; all names within one edit of a listed one and all 256 codes; all token tables over a small set of texts x all orders of insertion x all short values",
 "Library tests load one file and never edit; matching is only tested on the built-in table.",
 [PRG,MOD,TOK,"src/calculator/mod.rs"],[("bytes and fields edited together",PRG+" Header, Metadata"),("code conversions",PRG+" FileType, Destination; "+MOD),("longest and shortest match",TOK+" Map")],["fields and bytes of the in-memory program after every call, files saved from it"])
p("C29","Each line of a txt file means the same however it is ended and whatever it says",
 "The settings of a txt file are what its header lines say and the program is what the lines behind them say. A txt file gives the same program whether its lines end with LF or CRLF, in any mixture, and whether or not the last line is ended; what the description line says changes nothing but the comment; each of the other header lines decides only its own setting, and no line is taken for another one because of what it says.",
 ["inputs"],"all mixtures of line endings of files with up to three lines of program, in all display modes; all description lines of one character (and around it) below U+0250, words of the header and lengths to 70000; combinations of header lines and bodies made of the words of the header, varied in up to three lines",
 "Fixtures are saved by one editor with one kind of line ending and have ordinary names and descriptions.",
 ["src/calculator/file/from_txt.rs"],[("lines of the file","src/calculator/file/from_txt.rs create_from_txt")],["program files made from txt files that differ only in form"])
p("C30","A json file means the same however it is formatted",
 "What a json file of a program means depends on the values it holds and not on how they are written: with its members in another order, with more, less or other white space or line ends, or with characters of its strings escaped in another way, it is converted to the same files, shown the same and accepted just as the file that the tool itself wrote, alone and in a mass conversion.",
 ["inputs","configurations"],"all orders of the members of every object of up to six members (and all exchanges and rotations in the larger one) x all combinations of white space at six places x ways of escaping x paddings across block ends x programs with texts to escape x outputs",
 "Tests read json files exactly as the tool writes them; files that passed through an editor, a formatter or another program are not among them.",
 [PRG,CONV],[("reading of json",PRG+" load"),("members of the file",XP+" and "+PRG+" serde attributes")],["files made from json files and what is shown of them"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d,ensure_ascii=False)+'\n' for d in P))
for d in P: assert len(d['title'])<=80,d['id']
print(len(P))
