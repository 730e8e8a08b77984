"""The property catalogue: the single source of properties.jsonl and MANIFEST.json."""
TECH = "explicit-state bounded enumeration on the real binary against a reference model"
NOTE = ("Every case of the finite spaces stated in evidence (bounds, spaces) is executed on the real cdx binary, "
        "built from /repo's working tree, and compared with an independent Python reference model; nothing is sampled. "
        "Trusts the reference model, the fork-server shim and the bounds.")
NOTES = ("All checks: mc/check.py <ID> quick|thorough; mc/check.py --replay FILE re-runs one recorded case. "
         "No hooks in /repo: the environment is controlled from outside by shim/shim.c (LD_PRELOAD).")
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, observe, state=(), tech=TECH, note=NOTE, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mech=mech, observe=observe, state=list(state), tech=tech, note=note, na=na))


P("C01", "sort writes a stable, ordered permutation of its input",
  "For every input, `cdx sort` with any list of keys writes every input line exactly once, newline terminated, ordered by the "
  "keys in turn (each with its own comparison and its own reversal), lines with equal keys staying in input order, and with the header (if any) first. "
  "With --unique exactly the first line of each run of equal keys is written. Alternate algorithms selected on the command line give the same result.",
  ["inputs", "configurations"], "every multiset and arrangement of lines over adversarial values, every key specification (column, comparison, reversal, several keys), header or not, unique or not",
  "Ordering and losslessness quantify over all inputs; the existing tests sort a handful of small tables and never combine keys, reversal and equal cached prefixes.",
  ["src/sort.rs", "src/comp.rs", "src/bin/cdx/sort_main.rs"],
  [("cached fixed-size key plus full comparison on ties", "src/comp.rs fill_cache_*/comp_items"), ("in-memory stable sort and unique filter", "src/sort.rs Sorter/do_sort")],
  ["stdout and exit status of `cdx sort`"], [("sort item", "cached key, location and length of one line in the buffer", "src/sort.rs Item")])

P("C02", "every use of a comparison agrees with its documented order",
  "Each comparison (plain, lower, equal, length, float, numeric, ip, random, expr) is one total preorder on column values, whole lines and several columns, and 'rev' inverts it. "
  "All users of the same key agree with it and with each other: sorting (both algorithms), unique sorting, merging, checking with or without uniqueness, verify and its first/last bounds, uniq grouping and "
  "min/max choice, join, binsearch, aggregated min and max and cgrep's comp pattern. A random key gives some permutation.",
  ["inputs", "configurations"], "every ordered pair of adversarial values per comparison, forwards and reversed, through every command that takes a key",
  "Agreement between five implementations of one order (cached, columns, lines, value against line, bare value) is a relation over all pairs of values; tests sample one implementation at a time.",
  ["src/comp.rs", "src/sort.rs", "src/agg.rs", "src/bin/cdx/verify_main.rs", "src/bin/cdx/uniq_main.rs", "src/join.rs", "src/binsearch.rs"],
  [("several entry points of one Compare trait, some bypassing the wrapper that reverses", "src/comp.rs Comp/LineComp"), ("cached key of limited size", "src/comp.rs fill_cache_*")],
  ["stdout and exit status of sort, uniq, join, verify, binsearch and cgrep"], [("comparison", "kind, reversal and target value", "src/comp.rs Comp/LineComp")])

P("C03", "sorting does not depend on the memory budget or on how input arrives",
  "For every memory budget given to the library's Sorter, however small, and however the input is split over files, reads (short or interrupted) and calls, the result is the stable "
  "ordered permutation of all lines (C01), a last line without newline included and unique honoured across spilled pieces. Lines longer than the budget are sorted like others. "
  "If reading, writing the output or writing a temporary file fails at any byte, that is an error, never a result with lines missing. Temporary files are gone afterwards.",
  ["inputs", "configurations", "fault points"], "every small input x every budget from 0 bytes x every cut of the reads x every split over files; every fault position",
  "The spill path starts beyond 250 MB on the command line, so no test reaches it; where lines straddle the buffer's end depends on budget, read sizes and line lengths together.",
  ["src/sort.rs"],
  [("buffer of limited capacity, spilled as sorted temporary files and merged", "src/sort.rs Sorter::add/spill/write_tmp/finalize"), ("unique within each piece and again when merging", "src/sort.rs merge_t2")],
  ["bytes written by Sorter::finalize, its result, and the temporary directory"], [("sorter buffer", "data, bytes used, bytes in lines, temporary files", "src/sort.rs Sorter")])

P("C04", "merging sorted files gives the same lines as sorting them together",
  "For every set of files each already ordered by the keys, `cdx sort --merge` writes all their lines exactly once, ordered by the keys, equal lines in file order then line order, "
  "and with --unique one line per distinct key. The files' common header is written once.",
  ["inputs", "histories", "configurations"], "every tuple of up to four sorted files, including empty and header-only files, every key list and both merge algorithms",
  "The merge schedule (which file is exhausted when, where ties fall) explodes combinatorially; the tests merge two fixed files.",
  ["src/sort.rs", "src/bin/cdx/sort_main.rs"], [("heap/tree merge of open files with tie breaking on file number", "src/sort.rs merge_*")],
  ["stdout and exit status of `cdx sort -m`"])

P("C05", "sort check reports exactly the out-of-order lines",
  "`cdx sort --check` succeeds and is silent if and only if no line is ordered before its predecessor (and, with --unique, no line equals its predecessor); "
  "otherwise it fails and reports the offending adjacent pairs with their line numbers, up to the requested count.",
  ["inputs", "configurations"], "every sequence of lines over adversarial values, every key list, unique or not, every report limit",
  "A checker is only useful if it has neither false accepts nor false rejects on any input; tests sample two or three files.",
  ["src/sort.rs", "src/comp.rs", "src/bin/cdx/sort_main.rs"], [("adjacent comparison of each line with the previous one", "src/bin/cdx/sort_main.rs, src/comp.rs LineCompList")],
  ["stdout/stderr and exit status of `cdx sort -c`"])

P("C06", "uniq partitions the input into maximal runs and reports each run once",
  "For every input and key, `cdx uniq` treats each maximal run of adjacent lines with equal keys as one group and writes one line per group: the requested member (first, last, min, max), "
  "the earliest of those that are equally small or large, and with the group size, before or after it, where a count is requested. The header is kept and extended with the name of any added column.",
  ["inputs", "configurations"], "every sequence of lines over adversarial values x every key list x every output option",
  "Correctness depends on where group boundaries fall, including the first and last line of the input; tests use a few fixed tables.",
  ["src/bin/cdx/uniq_main.rs", "src/util.rs", "src/agg.rs", "src/comp.rs"], [("previous/current line comparison in the look-back reader", "src/bin/cdx/uniq_main.rs"), ("count column placement", "src/agg.rs AggList")],
  ["stdout and exit status of `cdx uniq`"])

P("C07", "aggregates are the exact function of the group they summarise",
  "Each aggregate that uniq is asked for (sum, mean, count, min and max by any comparison, common prefix and suffix, the sum, least, greatest and mean number of characters or words, merged lists with their options, running expressions) is the stated function of exactly the values of the named column in the group's lines: no value of another group or of the header "
  "contributes, none is left out, and each group starts afresh. The result replaces, is prepended or is appended exactly as requested.",
  ["inputs", "configurations"], "every sequence of groups of values x every aggregator x every placement",
  "State that leaks between groups only shows for particular sequences of groups; tests aggregate one or two tables.",
  ["src/agg.rs", "src/bin/cdx/uniq_main.rs", "src/num.rs"], [("aggregator state, reset at each group boundary", "src/agg.rs")],
  ["stdout and exit status of `cdx uniq --agg`"])

P("C08", "join emits exactly the relational join of two sorted files",
  "For every pair of files sorted by the key columns, the second without repeated keys (the only kind of join there is), `cdx join` writes one line for every pair of lines with equal keys (repeated keys of the first file included, in input order), "
  "with the selected columns of each side, and writes each line without a partner to the requested unmatched file, exactly once and nowhere else. Headers are combined the same way as lines.",
  ["inputs", "configurations"], "every sorted key sequence x every set of distinct keys x every choice of keys, output columns and unmatched outputs",
  "Which side runs out first, runs of duplicate keys in the first file and keys at the ends of files must be handled in every combination; tests join a few fixed pairs.",
  ["src/join.rs", "src/bin/cdx/join_main.rs", "src/comp.rs"], [("lock-step advance of both files by key comparison", "src/join.rs")],
  ["stdout, unmatched files and exit status of `cdx join`"])

P("C09", "binary search finds exactly the matching lines of a sorted file",
  "For every file sorted by the key, `cdx binsearch` prints, after the header if there is one, exactly the lines whose key equals the given value, in file order, plus the requested number of lines of context around them "
  "(or around the place where they would be), each once and never in part, with the file's name (its last parts) in front if asked for. With several keys, a value that does not have exactly one part per key is refused.",
  ["inputs", "configurations"], "every sorted file of lines of varying length (including empty lines, missing final newline, header) x every sought value x context options",
  "Probing lands in the middle of lines at positions that depend on every line's length; only enumeration of layouts covers all of them.",
  ["src/binsearch.rs", "src/bin/cdx/binsearch_main.rs", "src/comp.rs"], [("lower/upper bound search on byte positions, realigned to line starts", "src/binsearch.rs")],
  ["stdout and exit status of `cdx binsearch`"])

P("C10", "results depend on the input's bytes, not on how they are delivered",
  "Every tool writes the same output and exits the same way for the same input bytes, however the operating system delivers them: in reads of any sizes, with interrupted reads and writes, partial writes, from a file, standard input or a here-text, "
  "compressed with gzip (in any number of members), with or without a newline after the last line.",
  ["inputs", "schedules"], "every way of cutting small inputs into reads, every read and write size up to a bound, interruptions, every gzip member boundary, inputs around the buffer sizes x one or more command lines for every tool",
  "Buffering errors show only when a read ends at a particular byte; the tests read whole small files at once.",
  ["src/util.rs", "src/sort.rs", "src/bin/cdx/cat_main.rs"], [("readers and writers for files, stdin, here-texts, gzip", "src/util.rs get_reader, buf_reader, get_writer"), ("block reading", "src/sort.rs Sorter::add, src/bin/cdx/cat_main.rs")],
  ["stdout, stderr, output files and exit status of every tool"],
  tech="exhaustive enumeration of the environment's read/write answers on the real binary (LD_PRELOAD I/O scheduler)",
  note="The read/write system calls of the real binary are answered according to explicit plans; every plan of the stated spaces is run and compared with the undisturbed run. Trusts the shim; the undisturbed run itself is judged by the other properties.")

P("C11", "a failed read or write is never taken for success",
  "If reading any input or writing any output fails at any point, or a file cannot be opened, or compressed input is damaged, the tool exits with an error status and a message, without crashing, and what it has written is a prefix of the right output. "
  "(A reader of standard output that goes away is not an error.) If nothing fails, nothing changes.",
  ["crash points", "inputs"], "an error at every read, every write call and after every output byte x error kinds x standard output, other files or all x one or more command lines for every tool; every truncation and bit flip of a gzip file",
  "Errors at the last flush, within a refill, or in a secondary output are never produced by tests.",
  ["src/util.rs", "src/bin/cdx/main.rs", "src/sort.rs"], [("output wrapper remembering failures", "src/util.rs CheckedWrite, get_writer"), ("error to exit status", "src/bin/cdx/main.rs"), ("gzip detection", "src/util.rs get_reader")],
  ["exit status, stderr, stdout and output files of every tool"],
  tech="exhaustive fault injection: an error at every read, write and byte of each execution of the real binary",
  note="Every single-fault execution within the stated bounds is run on the real binary under the LD_PRELOAD shim. Help texts are not covered. Trusts the shim.")

P("C12", "files with different headers are never mixed silently",
  "Given several files, cat, cut, cgrep, sample, sort, merge and binsearch write the (resulting) header exactly once, before all lines, if all files have the same, none if no file has one, and otherwise refuse the first file that differs, with an error and "
  "without using any of its lines. Files of zero bytes do not matter. Malformed headers are refused. Columns named in options are found in each file by that file's own header. A header to be skipped (--text-in s) changes nothing.",
  ["inputs", "configurations"], "every list of up to three (four) files over headers x bodies, for every tool; malformed headers in every position",
  "Which file lacks the header, and whether it is empty or without lines, must not matter; the tests use at most two files.",
  ["src/util.rs", "src/bin/cdx/cut_main.rs", "src/bin/cdx/cgrep_main.rs", "src/bin/cdx/sample_main.rs", "src/sort.rs"], [("header checks", "src/util.rs HeaderChecker, is_valid_cdx")],
  ["stdout, stderr and exit status of the tools"], [("HeaderChecker", "first header seen, whether one was seen", "src/util.rs HeaderChecker")])

P("C13", "cut writes exactly the selected columns, in the selected order",
  "For every table and every column specification (numbers, numbers from the end, names, all forms of range, exclusions, matched names, renames, groups, composites), `cdx cut` writes for every line exactly the values of the "
  "selected columns in the order they were asked for, missing values as empty, and the header with the same selection applied to the names (with the requested handling of duplicates). An unknown column, a backwards range or a malformed specification is an error.",
  ["inputs", "configurations"], "every column list up to a stated length over every kind of part x tables of every width up to 4, ragged lines, header or not",
  "Column resolution is a small language: parts interact (exclusions, ranges from the end, renames); tests try a few dozen specifications.",
  ["src/column.rs", "src/bin/cdx/cut_main.rs"], [("resolution of column sets against the header's names", "src/column.rs ColumnSet::lookup, lookup_col"), ("duplicate names", "src/column.rs ColumnHeader")],
  ["stdout and exit status of `cdx cut`"])

P("C14", "cgrep selects exactly the lines that satisfy its patterns, unchanged",
  "For every input, `cdx cgrep` writes, byte for byte and in order, exactly the lines for which the combination of its patterns (and, or, inverted) holds, where a pattern on a group of columns holds when the number of matching columns satisfies the group's quantifier "
  "(all, some, none, mixed, at most/at least/exactly N or a fraction), a comparison of columns holds for the comparison named, and an expression when its value is not zero. The header is kept; location columns give each line's own line number, byte offset and file name.",
  ["inputs", "configurations"], "every small table x every combination of up to three patterns x and/or/invert; every quantifier x every row; every list of location columns x one to three files",
  "Selection is a predicate over row x patterns x quantifier with many interacting switches; tests use a few patterns on one table.",
  ["src/bin/cdx/cgrep_main.rs", "src/matcher.rs", "src/column.rs", "src/util.rs"], [("pattern lists and quantifiers", "src/matcher.rs LineMatcherList, Determiner"), ("location columns", "src/column.rs, src/util.rs FileLocList")],
  ["stdout and exit status of `cdx cgrep`"])

P("C15", "each matcher accepts exactly the values its description says",
  "For every pattern and every value, each matcher (prefix, suffix, infix, exact, glob, regex, length, empty, blank, comment, hash, slash, yes, float, integer, number, ip, range, file-exact and multi-patterns) accepts exactly the values its help text describes, "
  "by bytes or, with utf8, by characters; 'case', 'trim', 'null' and 'not' change that in exactly the documented way, alone and in every combination, for a column as for a whole line.",
  ["inputs", "configurations"], "every pattern and every target up to a stated length over small alphabets x every subset of modifiers",
  "Matching is a predicate over pattern x value x modifiers: backtracking, case folding and length errors appear only for particular pairs; tests try a few.",
  ["src/matcher.rs", "src/text.rs", "src/util.rs"], [("glob with backtracking", "src/text.rs Text::glob"), ("modifier handling", "src/matcher.rs Matcher::smatch/umatch, MatchMaker::make2"), ("range matcher", "src/util.rs CheckBuff, RangeSpec")],
  ["lines selected by `cdx cgrep -p`"])

P("C16", "cat concatenates its files without loss and numbers lines as asked",
  "For every list of files, `cdx cat` writes exactly the bytes of the files in order, with the common header once, and a newline added exactly where the padding mode asks for one. With --number every line that is not skipped gets the next number, "
  "in the requested place, counting through all files; skipped lines get an empty number, removed lines disappear and nothing else does. Files whose headers differ are refused.",
  ["inputs", "configurations"], "every list of up to three files over small contents x padding, numbering, skipping, removing; file sizes around every buffer boundary",
  "Loss or padding errors depend on where a file ends relative to lines, buffers and headers; tests concatenate a few tiny files.",
  ["src/bin/cdx/cat_main.rs", "src/util.rs", "src/column.rs"], [("block copy with memory of the last byte", "src/bin/cdx/cat_main.rs"), ("header check", "src/util.rs HeaderChecker")],
  ["stdout and exit status of `cdx cat`"])

P("C17", "paste puts the lines of its files side by side",
  "For every list of files, line N of `cdx paste` is the Nth lines of all files in order, byte for byte, joined with the delimiter; with unequal lengths it stops at the shortest (early), fails (exact), or goes on to the longest (late) with the default value of each column, or the last line, in place of the missing ones. "
  "The headers are joined the same way, duplicate names handled or renamed as asked.",
  ["inputs", "configurations"], "every list of up to three (four) files of up to 3 rows and 2 columns x end mode x default values x last; every pair of name lists x duplicate handling and renames",
  "Which file ends first and what stands in for it must be right in every combination; the tests paste a few files.",
  ["src/bin/cdx/paste_main.rs", "src/column.rs"], [("lock-step reading with live/dead counts", "src/bin/cdx/paste_main.rs"), ("per-column default values", "src/column.rs ScopedValues"), ("header names", "src/column.rs ColumnHeader")],
  ["stdout and exit status of `cdx paste`"])

P("C18", "transpose exchanges rows and columns",
  "For every table, `cdx transpose` writes the cell of row r and column c at row c and column r, missing cells as empty; the header, if any, becomes the first column; only the first --lines lines are used; transposing a rectangular table twice gives it back.",
  ["inputs", "configurations"], "every table shape up to 4 x 4 with every pattern of missing trailing cells, small value alphabets, header or not, every line limit, several delimiters",
  "Index arithmetic must be right for every shape; the tests transpose two tables.",
  ["src/transpose.rs", "src/bin/cdx/transpose_main.rs"], [("column-wise output of stored lines", "src/transpose.rs")],
  ["stdout and exit status of `cdx transpose`"])

P("C19", "sample writes exactly the lines asked for, in order",
  "`cdx sample` writes, unchanged and in order, with --for exactly the lines from, from+by, ... up to to, with --range exactly the lines in the ranges, and with --sample N exactly min(N, number of lines) distinct lines including the first and last, no gap much larger than the ideal one; per file, with the common header once.",
  ["inputs", "configurations"], "every file length x every for loop, every list of ranges, every sample size of a stated grid; several files",
  "The collapsing sampler's state depends on the exact number of lines seen; the tests use one or two lengths.",
  ["src/sampler.rs", "src/bin/cdx/sample_main.rs"], [("Smooth: bounded store, collapsed when full", "src/sampler.rs")],
  ["stdout and exit status of `cdx sample`"], [("Smooth", "stored lines, jump, position", "src/sampler.rs Smooth")])

P("C20", "verify succeeds exactly when every line passes every check",
  "For every list of files, `cdx verify` exits 0 and is silent if and only if every line has the header's number of columns, satisfies every pattern, is in order (unique) under the keys where asked, and the first and last lines satisfy their conditions; otherwise it fails and says why, whatever the report limit.",
  ["inputs", "configurations"], "every sequence of up to 4 rows over good, ragged, unordered and duplicate rows x every combination of checks x report limits x several files",
  "A verifier must have no false accepts: the offending line may be first, last, only, in any file; the tests use a few.",
  ["src/bin/cdx/verify_main.rs", "src/matcher.rs", "src/comp.rs", "src/util.rs"], [("per-line checks with failure count", "src/bin/cdx/verify_main.rs"), ("first/last conditions", "src/util.rs CheckLine"), ("adjacent comparison", "src/comp.rs comp_check")],
  ["exit status and stderr of `cdx verify`"])

P("C21", "wc counts exactly what is in each file, each column and in all",
  "For every list of files, `cdx wc` reports for each file (or with --columns each column, by name across files) exactly the lines, bytes, characters and words of its data lines, in the order asked for, and totals that are the sums; file names, header and totals appear as asked.",
  ["inputs", "configurations"], "every content up to 6 bytes over letters, blanks, newlines and multi-byte characters; every pair of contents x every option; every small table for per-column counts",
  "Word and character boundaries, missing newlines and state kept between files show only for particular contents; the tests count a few files.",
  ["src/bin/cdx/wc_main.rs", "src/agg.rs"], [("counting aggregators, reset after each file", "src/bin/cdx/wc_main.rs, src/agg.rs Counter")],
  ["stdout and exit status of `cdx wc`"])

P("C22", "expressions have the value arithmetic gives them",
  "Every expression evaluates to the value given by the usual rules (comparison, then sum, product, sign, power to the right, factorial; parentheses; named functions of the stated number of arguments; constants; columns by name, number or bracketed specification), "
  "the same for every line and independent of other expressions and lines; every malformed expression is an error with no value printed, never a crash or a value.",
  ["inputs", "configurations"], "every token string up to a stated length, every operator pair and triple with signs, factorials and parentheses, every function on a grid of arguments and argument counts, on every row of a grid",
  "Precedence and associativity errors show only for particular combinations of operators; the tests try a few dozen expressions.",
  ["src/expr.rs", "src/shunting_yard.rs", "src/tok2.rs", "src/bin/cdx/calc_main.rs"], [("tokenizer deciding sign or operator", "src/tok2.rs"), ("shunting yard", "src/shunting_yard.rs to_rpn"), ("constant folding and stack evaluation", "src/expr.rs")],
  ["stdout of `cdx calc` and `cdx cut -e`"])

P("C23", "numbers are read and written with the value they denote",
  "A value is read as the number its leading decimal notation denotes (sign, fraction, exponent, size suffix: K is 1024, k is 1000), zero if there is none; an option that takes a count accepts exactly whole numbers with an optional suffix. "
  "A number printed in plain, short or float format reads back as the same number, with a precision it is the correctly rounded decimal, and in power2 or power10 it is a close approximation with the right unit, for either sign.",
  ["inputs", "configurations"], "every short string over digits, point, exponent, signs, suffixes, blanks; every quotient, power and boundary value of a stated grid in every format and precision",
  "Wrong units, lost signs and rounding at unit boundaries only appear for particular magnitudes; tests convert a handful of numbers.",
  ["src/num.rs", "src/text.rs"], [("to_f64/to_usize", "src/text.rs"), ("NumFormat::print", "src/num.rs")],
  ["stdout of `cdx calc`, `cdx cut -e`, `cdx transpose -n`"])

P("C24", "text formats: values survive writing and reading back",
  "In every text format (plain, quoted, backslash-escaped; any delimiter), reading a file yields exactly the values its quoting rules denote, and writing any values in a quoted or backslash format and reading them back in that format yields the same values, "
  "including values that contain delimiters, quotes, backslashes and newlines; the plain format replaces what it cannot represent. Tools that copy lines copy them byte for byte as read, matching and grouping use decoded values, and header and lines of one output are in one format.",
  ["inputs", "configurations"], "every raw input of up to 7 bytes over the special characters; every value of up to 3 bytes through every pair of formats",
  "Quoting bugs need particular adjacent special characters; tests convert a handful of lines.",
  ["src/util.rs", "src/bin/cdx/globals.rs", "src/column.rs"], [("split_plain/split_quotes/split_backslash and write_*", "src/util.rs"), ("reading of lines that continue within quotes", "src/util.rs TextFileMode::read_line")],
  ["stdout of cut, cgrep, cat and uniq with --text-in/--text-out"])

P("C25", "transforms map each value as documented, independent of other values",
  "Each transform (lower, upper, bytes and characters, normalised space, base64-like encodings and the others) is the documented function of its input value: the same for every position, line and chain of transforms, on arbitrary bytes, and an unknown transform or an impossible value is reported as an error rather than a crash.",
  ["inputs", "configurations"], "every value up to a stated length over letters, spaces, non-ASCII and invalid UTF-8 x every transform and every chain of two",
  "A transform must be right on every byte string and must not remember earlier values; tests apply each to one or two values.",
  ["src/trans.rs", "src/column.rs", "src/comp.rs"], [("transform registry and chains with scratch buffers", "src/trans.rs")],
  ["stdout of `cdx cut` with transforms"])

P("C26", "output goes to the files asked for, replacing what was there",
  "`cdx join` writes matched lines to --file and unmatched lines of each input to its --also file ('-' is stdout, '--' is stderr), and the contents of every file written are afterwards exactly those lines, "
  "whatever the file contained before; nothing else changes. An output that can not be opened is an error. `cdx tooltest --tmp` likewise leaves the input files, stdin, stdout and stderr of the last test, and other files alone.",
  ["inputs", "histories", "configurations"], "every assignment of outputs to streams and files, over previous contents absent, empty, shorter, as long and longer",
  "Truncation only shows when a previous run left more behind; tests always start with an empty directory.",
  ["src/util.rs", "src/join.rs", "src/tooltest.rs", "src/bin/cdx/join_main.rs"],
  [("one place that creates output files", "src/util.rs get_writer"), ("optional writers per input", "src/join.rs Joiner::no_match")],
  ["contents of all output files, stdout, stderr, exit status"], [("output file", "previous contents and lines written", "src/util.rs Outfile")])

P("C27", "tooltest passes a test exactly if the command did what the file says",
  "`cdx tooltest` runs the command of each test file with the given stdin and input files, byte for byte, and counts it as passed exactly if the exit status is the expected one (not a signal), stdout and stderr equal or match "
  "what is expected (empty by default), every expected output file exists with the expected contents, and no other file was left. Test files that can not be understood or run count as failed and are named. "
  "The verdict on a test does not depend on the other tests. The summary counts every test file once, and the exit status is zero exactly if all passed. Temporary files are removed.",
  ["inputs", "histories"], "every combination of actual and expected status, stdout, stderr and output files; every order of sections; every sequence of test files",
  "The repository's own tests are judged by this tool: a wrong 'pass' is invisible to them.",
  ["src/tooltest.rs", "src/bin/cdx/tooltest_main.rs"],
  [("parser of sections with #nonewline", "src/tooltest.rs grab/Test::open"), ("comparison and leftover detection", "src/tooltest.rs Test::run"), ("counting", "src/tooltest.rs Config")],
  ["summary line, stderr, exit status, what the command saw"], [("test", "expected outputs, status, files", "src/tooltest.rs Test"), ("counts", "passed and failed", "src/tooltest.rs Config")])

P("C28", "tabs shows the first lines in aligned columns that fit the screen",
  "For every file and screen size, `cdx tabs` shows the header (centred) and as many of the first lines as fit, in order, each cell padded to the width of its column, columns separated by one space. "
  "Columns are as wide as their widest cell shown, and only if the lines would not fit are the widest columns narrowed, no more than needed, cells being cut to fit (counting double width characters as two). "
  "Several files are shown one after the other under their names with a rule between them, sharing the height so that all fits.",
  ["inputs", "configurations"], "every small table x every screen width and height; ragged lines; many lines, columns and files",
  "Layout is a function of all cell widths and the screen together; no test runs tabs on a terminal.",
  ["src/tabs.rs", "src/bin/cdx/tabs_main.rs"],
  [("narrowing of the widest column until all fits", "src/tabs.rs dec_max/show2"), ("height shared between files", "src/bin/cdx/tabs_main.rs main")],
  ["stdout and exit status of `cdx tabs`"], [("layout", "column widths and lines shown", "src/tabs.rs show2")])

P("C29", "filegen writes exactly the table asked for",
  "`cdx filegen` writes the requested number of lines (ten by default) with exactly the requested columns in order, -m repeating a column, tab separated, after a header c1..cN if asked for and nothing else. grid is LINE_COL, "
  "count goes up from its start, null is empty, expr is its value with line and col set, decimal has the given digits (sign only if asked for, all decimals present) and takes every value of its range, normal has the mean and deviation given. Specifications that mean nothing are errors, never crashes.",
  ["inputs", "configurations"], "every list of generators up to a length, line count and header; every malformed specification in a list",
  "Positions of columns and lines combine; the one test has one fixed table.",
  ["src/textgen.rs", "src/bin/cdx/filegen_main.rs"],
  [("list of generators with 1-based position", "src/textgen.rs GenList::write"), ("decimal pattern", "src/textgen.rs DecimalGen")],
  ["stdout, stderr and exit status of `cdx filegen`"], [("position", "line and column", "src/textgen.rs Where")])

P("C30", "whatever it is given, cdx ends by itself with success or a reported error",
  "For every option value, combination of options and input (empty, truncated, binary, not UTF-8, very wide, very long, missing or a folder), each tool of cdx ends by itself: with exit status zero, or with a failing status and a message saying why. "
  "It never panics, never dies of a signal, never loops or asks for more and more memory, and never fails in silence. Which strings are accepted is not part of this; command-line arguments are UTF-8 and numbers in options at most 70,000.",
  ["inputs", "configurations"], "every short string and every one-character edit of valid values for every option of every tool; every short sequence of pieces as input to a list of command lines; every option missing its value, repeated, unknown, and every pair of options",
  "A crash hides in one odd string of one option or one odd input; tests use well-formed ones.",
  ["src/bin/cdx/main.rs", "src/bin/cdx", "src"],
  [("error turned into message and status", "src/bin/cdx/main.rs main"), ("option parsing", "src/bin/cdx/args.rs"), ("specifications", "src/column.rs, src/matcher.rs, src/comp.rs, src/agg.rs, src/expr.rs")],
  ["exit status and stderr of every tool"], [("ending", "success, reported error", "src/bin/cdx/main.rs main")])
P("C31", "options mean the same wherever they stand and however they are spelled",
  "For every tool and every command line of it, the result (exit status, standard output, files written, messages) is settled by the options and their values, not by how they are written: "
  "an option may stand before, between or after the files, short or long, its value apart, attached or after an equals sign, flags grouped or apart, with or without '--' before the files, "
  "and the order of options counts only where it orders the result: the keys of one comparison, the columns of one output, the aggregates and counters of one report, or one setting replacing an earlier of its kind. A flag given twice counts once.",
  ["inputs", "configurations"], "40 command lines of 14 tools with up to five options: every order of the options (keeping those that order the result), with every placing of the files between them; every combination of spellings; grouped flags; each compared with the plainest spelling and with the expected result; every set of up to three options of a pool per tool in every order; every option given twice",
  "Tests use one spelling and one order per option; a loss of the second of two options, or of what comes before another one, shows only in combinations.",
  ["src/bin/cdx/args.rs", "src/bin/cdx"],
  [("argument specification", "src/bin/cdx/args.rs"), ("options handled in order", "src/bin/cdx/*_main.rs main")],
  ["exit status, stdout, stderr and output files of every tool"], [("options seen", "value, order among its kind", "src/bin/cdx/args.rs parse")])
