#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the wording is reviewed in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

p("C01", "A run never loses, alters, merges or duplicates a file",
  "After any run of detox, whatever its options, configuration, arguments and outcome, every file, directory, link and special file that existed before still exists under exactly one name, with the same contents, type, permissions, modification time and link target. Nothing new is created and nothing is removed: names are the only thing a run may change.",
  ["inputs", "configurations"],
  "for every directory tree (any mix of files, directories, symlinks, hard links, FIFOs, sockets, any names), every sequence and every option combination",
  "The tests run on a handful of tiny hand-made trees and only check that one expected name is present; none checks that the rest of the tree (identities, contents, metadata) survived.",
  ["src/file.c", "src/detox.c"],
  [("rename is the only mutating call", "src/file.c parse_file"), ("existence check before the rename", "src/file.c parse_file")],
  ["snapshot of (device, inode, type, mode, mtime, content hash, link target) before and after", "log of every mutating system-level call"])

p("C02", "An existing name is never overwritten",
  "If the cleaned name of an entry is already taken by another entry of the same directory - a file, a directory (even an empty one), a symlink (even dangling), another hard link to the same file, or a file cleaned earlier in the same run - detox does not rename the entry: both keep their identity and contents. The refusal is reported on standard error, and the remaining entries are still processed.",
  ["inputs", "histories"],
  "for every set of names in a directory that collide under the sequence used, every type of the two entries and every order in which they are reached",
  "No existing test makes two names collide; the documented caveat (a file already exists with that same name) is not tested at all.",
  ["src/file.c"],
  [("lstat of the new name, device/inode/link-count comparison", "src/file.c parse_file")],
  ["final directory contents by inode", "stderr"])

p("C03", "A name that appears at the last moment is not overwritten",
  "Even when another process (another detox included) creates the destination name at any moment during a run, including just before the rename takes effect, the entry of that other process is never replaced: the entry being cleaned keeps its old name and both keep their contents.",
  ["schedules"],
  "for every point of the run between two of its file system calls at which another process may create the destination, and every interleaving of detox processes working on the same directory",
  "Tests are sequential: nothing else touches the tree while detox runs, so the window between the check and the rename is never open.",
  ["src/file.c"],
  [("existence check followed by a rename that must not replace", "src/file.c parse_file")],
  ["interposed calls of the process under test", "inode identities after the run"])

p("C04", "A rename never leaves the entry's directory",
  "A rename changes only the last component of the path: the new name is one non-empty path component other than '.' and '..', placed in the directory where the entry was. A name whose cleaned form is not such a component (for example because it decodes to something with a slash, to nothing, or to dots) leaves the entry where and what it was.",
  ["inputs", "configurations"],
  "for every name and every configurable sequence, including decoding sequences without a safe filter and tables that yield '/', '.' or the empty string",
  "Tests only use sequences that end in safe and names that clean to ordinary names; no test decodes a slash, dots or an empty name in rename mode.",
  ["src/file.c", "src/clean_string.c", "src/clean_utf_8.c"],
  [("new name is built from the directory part of the old path", "src/file.c parse_file"), ("'.' and '..' are protected", "src/file.c is_protected")],
  ["logged rename source/destination", "tree snapshot of the directories around the argument"])

p("C05", "Only entries in scope are touched; symlinks are never followed",
  "detox renames only the entries named on the command line and, for named directories, their direct entries - plus everything below with the recursive option. A symbolic link is never followed while walking (with any option), '.' and '..' are never renamed, and links, FIFOs, sockets and devices are renamed only when the special option is given.",
  ["inputs", "configurations"],
  "for every tree, link topology (loops, links to directories inside and outside, dangling links), argument list and option combination",
  "Two tests use three fixed symlink layouts; scope without the recursive option, links reached through arguments, and special files other than links are never exercised.",
  ["src/detox.c", "src/file.c"],
  [("lstat and type dispatch", "src/detox.c main, src/file.c parse_dir"), ("recursion only with the option", "src/file.c parse_dir")],
  ["logged renames and opened directories", "tree snapshot"])

p("C06", "Hidden and ignored entries are left alone while walking",
  "While walking a directory, every entry whose name starts with a period or is listed in the effective ignore lists keeps its name and nothing below it is touched - in every directory, for every entry of the ignore lists, however often it occurs. Such an entry is processed only when it is itself named on the command line. A name that merely resembles an entry of the lists (prefix, case, surroundings) is not passed over.",
  ["inputs", "configurations", "histories"],
  "for every ignore list (any length, merged over configuration files), every placement, repetition and order of matching entries, over several arguments",
  "Tests have one ignored name occurring once per run; the state the list search keeps between lookups is never exercised.",
  ["src/file.c", "src/filelist.c", "src/config_file_yacc.y"],
  [("dot check and list search", "src/file.c ignore_file"), ("list iterator", "src/filelist.c filelist_get")],
  ["tree snapshot", "logged renames"],
  [{"name": "files_to_ignore", "meaning": "list with an internal read position", "where": "src/filelist.c"}])

p("C07", "Every eligible entry is cleaned exactly once",
  "In one run every entry in scope whose cleaned name is usable and not contended ends up with exactly the sequence applied once to its original name, whatever the size and depth of the tree, the order and repetition in which the file system lists entries while names change under the walk, and the number of arguments. Among entries that clean to the same free name exactly one gets it.",
  ["inputs", "schedules", "histories"],
  "for every tree, directory size, listing order (including file systems that list a renamed entry again), depth and argument count",
  "Tests use at most a few entries per directory and sequences for which a second application is invisible, so repeated or missed entries cannot show.",
  ["src/file.c", "src/detox.c", "src/sequence.c"],
  [("directory walk", "src/file.c parse_dir"), ("argument loop", "src/detox.c main")],
  ["final name of every inode against the reference model", "readdir deliveries"])

p("C08", "A dry run changes nothing and shows what would be done",
  "With the dry-run option no file system change of any kind happens, for any tree, sequence and other options. Standard output lists, as 'old -> new', exactly the renames that the entries in scope call for: each entry whose name the sequence changes and whose new name is free, and no other.",
  ["inputs", "configurations"],
  "for every tree, argument list, sequence and option combination",
  "The only dry-run test counts one output line on one tree.",
  ["src/file.c", "src/parse_options.c"],
  [("early return before the rename", "src/file.c parse_file")],
  ["log of mutating calls (must be empty)", "stdout"])

p("C09", "Reported renames are the performed renames",
  "With the verbose option every rename that is performed is printed to standard output as 'old -> new' with the paths used, once, and every rename printed is either performed or followed by an error message for it; each argument is announced before it is processed. Without verbose and dry-run, nothing is printed to standard output by a renaming run.",
  ["inputs", "fault_sequences"],
  "for every tree, sequence and pattern of failing renames",
  "No test looks at the verbose output of a real rename.",
  ["src/file.c", "src/detox.c"],
  [("printf before the rename", "src/file.c parse_file"), ("Scanning line", "src/detox.c main")],
  ["stdout against the logged renames"])

p("C10", "One failing entry does not disturb the others",
  "When an entry cannot be examined, opened or renamed (missing argument, permission denied, any error returned by a system call other than running out of descriptors), that entry keeps its name, the failure of an argument, of a directory to be read and of a rename is reported on standard error, and all other entries are processed as if the failure had not happened - in particular no other entry's type, name or path is mistaken for it.",
  ["fault_sequences", "inputs"],
  "for every system call of a run made to fail with any errno it can return, singly or in sets, and for real permission failures",
  "No test makes a file system call fail.",
  ["src/file.c", "src/detox.c"],
  [("error branches of lstat/opendir/rename", "src/file.c parse_file, parse_dir; src/detox.c main")],
  ["injected failures", "final tree against the model", "stderr"])

p("C11", "A run killed at any point leaves a consistent tree and can be repeated",
  "If the process is killed between any two of its system calls, every entry exists under exactly one name, which is its original name or its cleaned name, with contents intact and no temporary or partial entries. Running detox again on the same directories (under their present names) then reaches the same tree as an uninterrupted run, for sequences that leave their own results unchanged.",
  ["crash_points"],
  "for every tree and every point between two file system calls of the run at which the process is killed (repeated run: for the sequences whose second application changes nothing)",
  "No test interrupts a run.",
  ["src/file.c"],
  [("a single atomic rename per entry", "src/file.c parse_file")],
  ["kill before/after the n-th interposed call", "snapshots"])

p("C12", "No memory error or undefined behaviour on any input",
  "For every file name, input stream, configuration file, translation table, environment and command line, detox, inline-detox and the table tools (check-table, generate-builtin-table, escape-utf-8) terminate normally (exit status 0 or a reported error) without any out-of-bounds or use-after-free access, use of uninitialised memory, undefined behaviour, crash or hang.",
  ["inputs", "configurations"],
  "for every byte string as name, stream, configuration, table, environment value and argument vector, and combinations of table contents with names",
  "Tests run a few well-formed inputs without sanitizers (one valgrind run over eleven one-letter names).",
  ["src/clean_string.c", "src/clean_utf_8.c", "src/file.c", "src/parse_table.c", "src/table.c", "src/config_file_lex.l", "src/config_file_yacc.y", "src/filelist.c", "src/parse_options.c", "src/check_table.c", "src/generate_builtin_table.c", "src/escape_utf_8.c"],
  [("output buffer sizing from the table", "src/clean_string.c, src/clean_utf_8.c"), ("line buffer handling", "src/file.c parse_inline, src/parse_table.c")],
  ["AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer reports", "exit status"])

p("C13", "Out of memory ends in a clean, reported failure",
  "If any single memory allocation that detox makes in a run fails, detox ends with a failure status and a message on standard error, without crashing, and every file is intact under its original or its cleaned name. It never continues with a truncated name, a partial configuration or a partial table.",
  ["fault_sequences"],
  "for every allocation performed by a run (rename, inline, listing; any configuration and tables) made to fail",
  "The unit tests only check the two allocation wrappers; no run is done with a failing allocation.",
  ["src/wrapped.c", "src/config_file_lex.l", "src/filelist.c", "src/table.c"],
  [("allocation wrappers that exit", "src/wrapped.c")],
  ["exit status and stderr with the n-th allocation failing", "tree snapshot"])

p("C14", "Memory and descriptors in use do not grow with the work done",
  "Processing more files, directories or lines does not accumulate resources: file descriptors opened for a directory or input are closed when it is done, so any number of them can be processed and any depth the path length allows can be walked, and the memory still held after N items does not grow in proportion to N.",
  ["histories", "inputs"],
  "for every number of arguments, directories, entries and input lines, and every nesting depth",
  "Tests process a few items per process and never look at held memory or descriptors.",
  ["src/file.c", "src/detox.c", "src/sequence.c", "src/filter.c"],
  [("free/closedir on every path", "src/file.c"), ("ownership of returned strings", "src/file.c parse_file, src/sequence.c")],
  ["live allocation bytes and open descriptors at exit, for N and 2N items"])

p("C15", "The safe filter yields shell-safe names and touches nothing else",
  "With the stock safe table, the result of the safe filter contains none of the characters documented as hard to work with (control characters, DEL, space and ! \" $ & ' ( ) * / : ; < > ? @ [ \\ ] ` { | }); each of them becomes its documented replacement ('_', '-' or '_and_'). Every other byte - letters, digits, remaining ASCII punctuation, all bytes 0x80-0xFF - is kept unchanged and in place, for names of every length.",
  ["inputs"],
  "for every name (any bytes, any length)",
  "Unit tests sample fewer than twenty strings; the full byte domain, positions and lengths are not covered.",
  ["src/clean_string.c", "src/builtin_table.c", "table/safe.tbl"],
  [("per-byte table lookup", "src/clean_string.c clean_safe")],
  ["output for every byte value and random strings against an independent table"])

p("C16", "The wipeup filter reduces separator runs by precedence",
  "wipeup removes every '-', '_' and '#' at the start of a name and then replaces each maximal run of separators ('-' and '_'; also '.' with remove_trailing) by one character of that run, '.' being preferred over '-' over '_'; all other characters are kept in order. Applying it again changes nothing.",
  ["inputs"],
  "for every name and both settings of remove_trailing",
  "Unit tests have eleven strings.",
  ["src/clean_string.c"],
  [("run reduction", "src/clean_string.c clean_wipeup")],
  ["output against an independent definition; exhaustive over short strings of the relevant alphabet"])

p("C17", "The max_length filter bounds the length and keeps the extension",
  "A name no longer than the limit is unchanged. A longer name becomes exactly limit bytes: a prefix of the name followed by its extension, where the extension is what follows the last period, together with one preceding extension that starts within five bytes before it (a first character does not start one); without an extension (none, or a bare final period) it is the prefix alone. Only if the extension alone would fill the limit is the name left unchanged, with a warning; a limit of 0 or none means 256.",
  ["inputs", "configurations"],
  "for every name and every limit",
  "Unit tests have eighteen pairs; boundary limits, period placements and lengths are not covered.",
  ["src/clean_string.c"],
  [("extension search and truncation", "src/clean_string.c clean_max_length")],
  ["output against an independent definition, exhaustive over short strings and limits"])

p("C18", "The lower filter changes ASCII capitals only, in every locale",
  "lower maps A-Z to a-z and leaves every other byte unchanged, whatever the locale in the environment and whether or not a translation table was read from a file.",
  ["inputs", "configurations"],
  "for every name and every locale, including 8-bit and Turkish ones",
  "The unit test runs a few ASCII strings in the C locale.",
  ["src/clean_string.c", "src/parse_table.c"],
  [("case mapping", "src/clean_string.c clean_lower"), ("locale is switched while a table is read", "src/parse_table.c")],
  ["output per byte under several generated locales"])

p("C19", "The uncgi filter decodes exactly the CGI escapes",
  "uncgi replaces each '%' followed by two hexadecimal digits (upper or lower case) by that byte and each '+' by a space, in one left-to-right pass, without decoding its own output; everything else, including incomplete escapes and '%00', is kept. No part of a name is ever cut off.",
  ["inputs"],
  "for every name",
  "Unit tests have a few strings.",
  ["src/clean_string.c"],
  [("escape scan", "src/clean_string.c clean_uncgi")],
  ["output against an independent decoder; exhaustive over all %XY pairs"])

p("C20", "The utf_8 filter keeps valid text and neutralises bad encodings",
  "Each encoded character (1 to 6 byte form) is replaced by its table entry or, when it has none, by the table's default or itself, byte for byte. Invalid lead or continuation bytes and sequences cut short by the end or by a byte that does not continue them become a single '_' without consuming the following character, encoded NUL becomes '_hidden_null_', and code points above U+10FFFF without an entry become '_'. With the stock table, ASCII control characters, the listed format, space and separator characters and over-long encodings of ASCII never survive, and all valid UTF-8 text without an entry in it is unchanged.",
  ["inputs", "configurations"],
  "for every byte string and every table",
  "Unit tests sample about thirty strings with one table.",
  ["src/clean_utf_8.c", "src/builtin_table.c", "table/unicode.tbl"],
  [("decoder", "src/clean_utf_8.c clean_utf_8, get_utf_8_width"), ("table lookup", "src/table.c table_get")],
  ["output against an independent decoder, exhaustive over all code points and all short byte strings of representative classes"])

p("C21", "The iso8859_1 filter transcodes 8-bit names into UTF-8",
  "With the stock tables every byte 0xA0-0xFF becomes the UTF-8 form of the same ISO-8859-1 character (the documented exceptions are replaced as in the table), bytes without an entry become the table's default if it has one and are kept otherwise, ASCII is untouched, and the cp1252 table followed by the iso8859_1 table transcodes 0x80-0x9F as CP-1252. The result of the single iso8859_1 step is valid UTF-8, and this holds for the built-in tables and for the shipped table files alike.",
  ["inputs", "configurations"],
  "for every byte string, with built-in tables and with the shipped .tbl files (explicit filename or found by search)",
  "Unit tests sample a few strings with the built-in tables; the shipped files are never used for transcoding.",
  ["src/clean_string.c", "src/builtin_table.c", "table/iso8859_1.tbl", "table/cp1252.tbl"],
  [("per-byte table lookup", "src/clean_string.c clean_iso8859_1"), ("table files", "table/iso8859_1.tbl, table/cp1252.tbl")],
  ["output against Python's latin-1/cp1252 codecs"])

p("C22", "Sequences apply their filters in order and shipped ones settle",
  "A sequence's result is the composition of its filters in the listed order, each applied once to the previous result. For every shipped sequence that ends in safe and wipeup the result holds only safe characters, does not start with '-', '_' or '#', has no two adjacent separators, and running the default, iso8859_1-free shipped cleaning sequences (default, lower, utf_8) again changes nothing.",
  ["inputs", "configurations"],
  "for every name and every sequence of filters (any length, order, repetition, parameters)",
  "Tests compose at most three filters on a few names and never clean a name twice.",
  ["src/sequence.c", "src/filter.c", "src/config_file_spoof.c", "etc/detoxrc"],
  [("filter chain", "src/sequence.c sequence_run_filters"), ("dispatch", "src/filter.c filter_run")],
  ["output of random sequences against the composed model"])

p("C23", "Inline mode maps each input line to its cleaned line",
  "Inline mode writes, for every line of its input in order, that line with the sequence applied to it as a whole, followed by a newline exactly when the input line had one; lines '.' and '..' pass unchanged. This holds for lines of any length, streams of any size, input given as file or standard input and delivered in any pieces, and a line never influences another (a NUL byte affects only its own line).",
  ["inputs", "schedules"],
  "for every byte stream, line length, read chunking and sequence",
  "The unit tests vary the length of one line around the buffer size for an input that is insensitive to splitting; a stream with several lines is tested once.",
  ["src/file.c"],
  [("line reader", "src/file.c parse_inline")],
  ["stdout against the per-line model"])

p("C24", "The cleaned name depends only on the name and the sequence",
  "For a fixed sequence the cleaned form of a name is a function of the name alone: the same for rename and inline mode, for an argument and an entry found while walking, for any path in front of it, at any position among any other names, in repeated runs, with or without verbose, and under any locale (tables without language blocks).",
  ["histories", "inputs", "configurations"],
  "for every name, every history of names processed before it in the same process and every mode and path prefix",
  "Each test processes a name in a fresh process in one mode.",
  ["src/file.c", "src/sequence.c", "src/filter.c", "src/table.c"],
  [("no state kept between names", "src/sequence.c, src/filter.c, src/table.c")],
  ["outputs of the same name over modes, positions and histories compared"])

p("C25", "A configuration file means what it says",
  "Every well-formed configuration yields exactly the sequences it defines, in order, with the listed filters, order, parameters (tables, built-in names, lengths, remove_trailing) and ignore entries, as shown by the verbose listing and as used when cleaning. Keywords are case-insensitive, sequence names are case-sensitive and may be quoted, comments and layout do not matter, and a sequence defined again replaces the earlier one in place.",
  ["configurations", "inputs"],
  "for every well-formed configuration file (any number and order of sequences, filters, ignore blocks, comments, whitespace, spelling)",
  "Tests parse about ten fixed files.",
  ["src/config_file_yacc.y", "src/config_file_lex.l", "src/config_file_dump.c"],
  [("grammar actions", "src/config_file_yacc.y"), ("lexer", "src/config_file_lex.l")],
  ["-L and -L -v listing and inline behaviour against a generator that knows the intended meaning"])

p("C26", "Configuration files and sequences are chosen as documented",
  "With -f only that file is read. Otherwise the first existing system-wide file (configured directory, then /etc, then /usr/local/etc) is extended by ~/.detoxrc and then $XDG_CONFIG_HOME/detox/detoxrc, later definitions replacing same-named sequences and ignore lists accumulating; with no file at all the built-in configuration is used. The sequence is that of -s, else of DETOX_SEQUENCE, else 'default', else the first one defined.",
  ["configurations"],
  "for every subset of the five locations present, every overlap of their sequence names, and every combination of -f, -s and DETOX_SEQUENCE",
  "Tests always pass -f or rely on no file being present; layering and DETOX_SEQUENCE are untested.",
  ["src/config_file.c", "src/sequence.c", "src/parse_options.c"],
  [("search order", "src/config_file.c config_file_load"), ("default choice", "src/sequence.c sequence_choose_default")],
  ["-L -v listing, marked sequence and result, with all locations redirected into a scratch directory"])

p("C27", "Unusable configuration stops the run before anything is touched",
  "If the configuration file given cannot be opened, any configuration file read is malformed, the requested sequence does not exist, or a table or built-in name used by the chosen sequence cannot be loaded, detox prints a message to standard error - for a syntax error the file and the line - and ends with a failure status, without renaming or outputting anything.",
  ["configurations", "inputs"],
  "for every malformed or unresolvable configuration, table and sequence name, in every mode",
  "Tests have four such files.",
  ["src/config_file_yacc.y", "src/config_file.c", "src/filter.c", "src/detox.c", "src/parse_table.c"],
  [("yyerror exits", "src/config_file_yacc.y"), ("tables are loaded before the first file", "src/sequence.c sequence_review")],
  ["exit status, stderr, stdout and tree snapshot over mutated configurations"])

p("C28", "A translation table file means what it says, at any size",
  "A table read from a file maps exactly the codes of its start/end blocks (decimal, hexadecimal or octal) to their translations (plain, single- or double-quoted, possibly empty), later rows for a code overriding earlier ones, with language blocks applied only when they match the locale's language; the default applies to all other characters and an empty default means none. This holds for any number, density and order of rows.",
  ["inputs", "configurations"],
  "for every well-formed table file (any rows, spelling of codes, quoting, comments, blocks, size, repetition) and every locale",
  "Tests read four small tables.",
  ["src/parse_table.c", "src/table.c"],
  [("line parser", "src/parse_table.c"), ("hash/linear store sized from the file", "src/table.c table_put")],
  ["every code looked up through a filter against the generator's dictionary"])

p("C29", "Built-in tables and configuration equal the shipped files",
  "Using a built-in table gives, for every input, the same result as using the shipped table file of that name, and the built-in configuration defines the same sequences, filters, parameters and ignore entries as the shipped detoxrc; running without any installed file therefore behaves like a full installation.",
  ["inputs", "configurations"],
  "for every code point and byte, all four tables, all sequences and filters",
  "A unit test compares the built-in configuration with a copy inside the test; tables are never compared.",
  ["src/builtin_table.c", "src/config_file_spoof.c", "table/safe.tbl", "table/unicode.tbl", "table/iso8859_1.tbl", "table/cp1252.tbl", "etc/detoxrc"],
  [("generated tables", "src/builtin_table.c"), ("built-in configuration", "src/config_file_spoof.c")],
  ["exhaustive comparison of both table sources over all single characters", "-L -v listings"])

p("C30", "The table store behaves as a map",
  "For every history of insertions, overwrites, lookups and resizes, with hashing or linear search and any capacity, looking up a code returns the last value stored for it or nothing if none was; an insertion is refused only when the table is full of other codes; resizing keeps all entries, the default and a correct longest-entry length.",
  ["histories"],
  "for every sequence of put/get/resize operations, key distribution (colliding, dense, sparse, large) and capacity",
  "Unit tests insert a few keys and resize one table four times.",
  ["src/table.c"],
  [("open slot search and hashing", "src/table.c table_put, table_get"), ("copying", "src/table.c table_resize")],
  ["every return value against a dictionary model"],
  [{"name": "rows/used/length", "meaning": "slots, fill count, capacity", "where": "src/table.c"}])

p("C31", "Command line options mean the same in every spelling and order",
  "Short and long forms, bundled or separate, in any order and mixed with the file arguments, have the same effect; of an option given more than once the last value counts; everything after '--' is a file name; 'detox --inline' and 'inline-detox' behave the same. Informational options (-h, -V, -L) and usage errors never rename anything, and without file arguments a rename run prints the usage and fails.",
  ["configurations", "inputs"],
  "for every command line built from the documented options and any file names",
  "Tests use about five fixed command lines.",
  ["src/parse_options.c", "src/detox.c"],
  [("getopt_long loop", "src/parse_options.c"), ("mode dispatch", "src/detox.c main")],
  ["outcome (tree, stdout, status) of equivalent command lines compared with each other and with the model"])

p("C32", "Configured tables are resolved as documented",
  "A filter with a builtin name uses that built-in table and reads no file; one with a filename uses exactly that file; one with neither uses the first of its standard table in the configured data directory, /usr/share/detox and /usr/local/share/detox, and falls back on the built-in table of that filter if none exists. Every filter of a sequence uses its own table, also when several filters of one kind are chained.",
  ["configurations"],
  "for every subset of the three table locations present, every kind of filter and table source, and chains of several tables",
  "One test greps a system call trace for two of the paths; precedence, fallback and chains with different tables are not tested.",
  ["src/filter.c", "src/sequence.c"],
  [("table search", "src/filter.c filter_find_table, filter_load_table"), ("loading before the run", "src/sequence.c sequence_review")],
  ["output that identifies the table used, with all locations redirected into a scratch directory", "log of files opened"])

p("C33", "The helper tools agree with the program",
  "The generator turns any table file into source for a built-in table with exactly the file's codes, translations, default and longest entry; escape-utf-8 output is printable ASCII that, read as C string text, gives back the input for all valid UTF-8 text; check-table accepts every table file that detox accepts and reports its true number of entries, longest entry and largest code. A file that cannot be read as a table ends both tools with an error.",
  ["inputs"],
  "for every table file and every valid UTF-8 text",
  "The helper tools have no tests.",
  ["src/generate_builtin_table.c", "src/escape_utf_8.c", "src/check_table.c"],
  [("generator", "src/generate_builtin_table.c"), ("escape table", "src/escape_utf_8.c"), ("checker", "src/check_table.c")],
  ["compiled generator output looked up code by code", "decoded escape output", "check-table statistics against the model"])

p("C34", "Output that cannot be written is reported, not silently lost",
  "When what detox prints - cleaned lines, the listing of -L, the renames of -v and of a dry run - cannot all be written, because standard output is closed, full, over a size limit, not ready or without a reader, it ends with a failure status and a message on standard error (or by the signal the system sends). A status of 0 means that everything was written, also when only a few more files can be opened. Whatever becomes of the output, the same files are renamed.",
  ["fault_sequences", "inputs"],
  "for every mode, every amount of output and every point at which writing it fails",
  "No test looks at a run whose output fails.",
  ["src/detox.c", "src/file.c", "src/config_file_dump.c", "src/config_file_yacc.y"],
  [("end of the run", "src/detox.c finish_output"), ("printing", "src/file.c parse_file, parse_inline; src/config_file_dump.c")],
  ["bytes that arrived compared with those of an undisturbed run", "exit status", "standard error", "final tree"])

p("C35", "The time of a run grows in proportion to what it is given",
  "The processor time of a run grows no faster than in proportion to the number of lines, entries and arguments and to the length of the lines it processes, whatever they contain: ten times as much takes about ten times as long, also for very long lines, very large directories and very many arguments. (Translation tables and configurations of a given size are taken as given.)",
  ["inputs"],
  "for every sequence of filters, every content of the names, and every number of them",
  "Tests use short names and few files; nothing measures how the time grows.",
  ["src/clean_string.c", "src/clean_utf_8.c", "src/file.c", "src/filelist.c", "src/detox.c"],
  [("one pass per filter", "src/clean_string.c, src/clean_utf_8.c"), ("list that grows by doubling", "src/filelist.c filelist_put"),
   ("one pass per directory", "src/file.c parse_dir")],
  ["processor time of pairs of runs, one with several times the work of the other"])

p("C36", "Runs at the same time, and a changing tree, cost no entry its cleaning",
  "When several recursive runs with the same configuration work on one tree at the same time, every run ends normally and together they reach the tree of one undisturbed run: every entry keeps its identity and contents and gets its cleaned name, whichever run comes first (for sequences that leave their own results unchanged and names that do not contend). If one of them is killed, a later run completes the rest. While other processes add, rename, move and remove entries of their own during a run, all entries that stay are cleaned, and none of theirs is lost.",
  ["schedules", "crash_points", "inputs"],
  "for every interleaving of the runs' system calls with each other and with those of other processes, every tree and every way of naming it",
  "Every test is one process on a tree that nothing else touches.",
  ["src/file.c", "src/detox.c"],
  [("entries read before anything is renamed, then examined one by one", "src/file.c parse_dir"), ("what a failed rename leaves behind", "src/file.c parse_file"),
   ("argument loop", "src/detox.c main")],
  ["snapshot of the tree by inode before and after", "log of each run's renames and failed calls", "exit by signal"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
