"""Writes DESIGN.md: the hand-written text below, plus the catalogue and each check's stated bounds."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, ROOT + "/mc", ROOT + "/mc/props"]
sys.dont_write_bytecode = True
import catalog

PRE = """# Design

Generated by tools/design.py (edit that, tools/catalog.py or the checks, not this file).

## What is checked, and how

cdx is a set of single-threaded text tools: the guarantees users rely on are relations between *every* input, option list,
delivery of the input and fault, and the tools' output. There are no threads and no protocol, so the executions to explore are
not interleavings but: every small input file (and tuple of files), every option list over a grammar, every way the environment can
deliver the input (all cuts of the reads, interrupted calls, compression, files/stdin), and every point at which a read or write can fail.

Each property is decided by **explicit-state bounded enumeration on the real code**: a finite space of cases, described in the check
(`BOUNDS`), is enumerated completely, in a fixed order, without sampling; each case is executed by the real `cdx` binary (or, for C03 and the
header modes of C12, by the real library through a harness crate), built from /repo's working tree; its complete observable result (stdout, exit status, error
class, output files, leftovers) is compared with an independent reference model written from the documentation. "Model traces validated against the implementation"
is therefore literal: each case is a trace of the reference model, replayed on the implementation; the counts in evidence/ are these.

* `shim/shim.c` (LD_PRELOAD) turns the binary into a fork server (a case costs 0.2 - 0.5 ms, so 10^5 - 10^6 cases per check are possible) and is the
  environment model: size of each read, interrupted reads and writes, partial writes, failure of the n-th read or write or after n bytes, terminal size. All nondeterminism
  comes from the case; nothing depends on time, and VERIF_SEED is only recorded.
* `mc/core.py` builds cdx and the shim, runs the servers (one per core, each in a scratch directory that is removed), counts, writes evidence and replays.
* `mc/ref.py` holds the shared part of the model (comparisons, number parsing, headers, column lists); `mc/props/cNN.py` one check each.
* `lib/` is a Rust harness crate with a path dependency on /repo and a workspace of its own; it enumerates Sorter budgets and header modes, which no command line reaches.
* No hooks in /repo. Checks build into /repo/target (ignored by git).
* A violation writes replays/<id>-*.json; `python3 mc/check.py --replay FILE` runs that one case again, with both sides printed.
* States = distinct cases; transitions = steps in them (lines, tokens, reads or writes, as stated by each check); distinct results are counted, so a check whose cases all give the
  same answer shows up in evidence as vacuous.

Why enumeration of small cases finds the bugs that matter here: every tool is a loop over lines with a small amount of carried state (previous line, group, open files, buffer), so a wrong
transition shows within a few lines (small-scope); what depends on size (buffers of 8, 16, 64 kB, the sort budget, sort's algorithm switch at 20 elements) is covered by ladders around each size, or by making the
sizes small (library budgets from 0 bytes, reads of 1 byte).

Quick commands explore the quick bounds, thorough commands the larger ones. Cost (8 idle cores, build excluded): quick 1 - 50 s each, thorough 5 s - 9 min each.

## Judging behaviour, not text

The checks run the binary's command line and the public library interface only, and judge results by the documented meaning. Message wording is not judged; where a message is part of the
function (verify and sort -c reports, tooltest verdicts) only line numbers, the offending lines and the number of reports are. Numbers are compared by value where notation is not documented.
Order is judged only where it is promised. Results that documentation leaves open are left open (see Scope).

"""

SCOPE = """## Scope: left open, with reasons

These are places where documentation and code disagree harmlessly, or nothing is promised. The checks do not judge them (and none is a known finding).

* calc: unknown names are 0, errors go to stderr with exit status 0; 0 in Short format is "0e0"; factorial of negative or fractional numbers; the number parser's last digits (1e-13); empty strings as numbers.
* paste: mixing files with and without header, and zero-byte files; transpose: cells beyond the header's width; sample -s 1 (gives 2 lines).
* sort, join, binsearch, sample, transpose and filegen ignore --text-out and write the format they read; join -o ignores renames and transforms in its column sets; header names in quoted formats must be plain identifiers.
* Letters left out of --text-out are the fixed defaults, not those of --text-in; join looks at two files; join of zero-byte files is an error.
* wc may leave out files without data lines; cat's fast path does not decode.
* matchers comment, hash, slash on blank targets; file-exact skips empty lines; cut -f N beyond the last column; fractional determiners exactly at halves; range specifications with an empty bound.
* A header-only file without final newline is "Malformed Header"; `cat -n` accepts ' CDX' without names.
* Help texts use println! and panic on a closed pipe. Arguments that are not UTF-8 panic in env::args. Both excluded.
* tooltest: double spaces give empty arguments; one name both #infile and #outfile; tests sharing a persistent directory.
* tabs: fewer than three lines per file; which of several equally wide columns is narrowed first. filegen: the distribution of random values.
* The alternate sort and merge algorithms cannot be given a small budget through public interfaces.

## Not applicable

No property is listed as not applicable: all of them are relations between inputs, environment behaviour and outputs that bounded enumeration decides within bounds.
What is *not* claimed, because this family cannot reach it: behaviour beyond the bounds (a fault that needs, say, five different lines in one exact arrangement where four are explored), and statistical
quality of random sampling and generation.

## Defects found and repaired

On first run the checks reported many violations; each was reproduced by hand, and each genuine one repaired by a minimal "fix:" commit in /repo (%d of them, listed in known_findings.json with property and commit; the
findings that were not repaired are below). False alarms met on the way were corrected in the model: whole-line keys include the newline; float keys read a leading number; ' CDX' detection; "more or less evenly spaced"
in sample; wc and files without lines; the prefix rule after a refused file.

"""


def main():
    out = [PRE, "## Properties\n\n"]
    for p in catalog.PROPS:
        m = importlib.import_module("props." + p["id"].lower())
        out.append("### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"]))
        doc = " ".join((m.__doc__ or "").split())
        out.append("* Ranges over: %s.\n" % p["quant"])
        out.append("* Tests cannot settle it: %s\n" % p["why"])
        out.append("* Anchored in: %s.\n" % ", ".join(p["files"]))
        out.append("* Observed: %s. Oracle: %s\n" % ("; ".join(p["observe"]), getattr(m, "ORACLE", doc)))
        for t in ("quick", "thorough"):
            out.append("* Bounds, %s: %s.\n" % (t, m.BOUNDS[t].rstrip(".")))
        for a in getattr(m, "ASSUMPTIONS", None) or []:
            out.append("* Assumes: %s.\n" % a)
        if p["na"]:
            out.append("* Not applicable: %s\n" % p["na"])
        out.append("\n")
    k = json.load(open(ROOT + "/known_findings.json"))
    out.append(SCOPE % len(k["fixed"]))
    out.append("### Known findings, not repaired\n\nThe help says that all tools honour --text-in; making sort, join and binsearch decode lines is a new feature rather than a small repair, so these are recorded.\n\n")
    for x in k["findings"]:
        out.append("* %s: %s\n" % (x["property"], x["what"]))
    out.append("\n")
    out.append("## Planted bugs (seeded/) and the checks that catch them\n\n")
    out.append("Each was written from a property's text and the code, passes the 159 stable tests, and has a demonstration. 'caught by' is the property's own quick check.\n\n")
    caught = {}
    f = ROOT + "/tools/caught.json"
    if os.path.exists(f):
        caught = json.load(open(f))
    out.append("| id | property | needs | caught by |\n|---|---|---|---|\n")
    for d in sorted(os.listdir(ROOT + "/seeded")):
        mt = json.load(open(ROOT + "/seeded/%s/meta.json" % d))
        out.append("| %s | %s | %s | %s |\n" % (d, mt["property"], mt["needs"].replace("|", "/"), caught.get(d, "not run")))
    g = ROOT + "/tools/history.md"
    if os.path.exists(g):
        out.append("\n" + open(g).read())
    open(ROOT + "/DESIGN.md", "w").write("".join(out))


main()
