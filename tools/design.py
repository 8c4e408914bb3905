#!/usr/bin/env python3
"""Writes DESIGN.md from the checks, properties.jsonl, known_findings.json and seeded/."""
import ast, glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# id: (oracle, why it reaches what tests cannot / bounds, cost of quick in seconds)
TEXT = {
"C01": ("order and multiplicity of numbered events in an append-only log written by the commands themselves, against the sequence the generator laid out",
        "layout, way of being read (file, source, -c, pipe, terminal) and construct are combined at random; a command that is dropped or evaluated twice shows whatever construct hides it. Programs of up to some 40 commands; thorough: 10 times as many and longer."),
"C02": ("an independent decoder (lib/lit.py) of the bytes on the wire, `equal?` inside oh, and a second write of what was read",
        "values of all types, nested, with hostile characters; the two decoders would have to be wrong together."),
"C03": ("the tree the text was rendered from; for malformed text, a report in every mode and a record after it that must still be read; for arbitrary bytes only 'evaluates, reports or waits for more', no internal fault (panic, goroutine trace, conversion text), no hang",
        "grammar-based, mutated and random text in five modes of reading."),
"C04": ("argv recorded by a statically built C program (lib/probe.c), byte for byte",
        "word construction is randomised over every quoting form and context; the recording is outside of oh."),
"C05": ("Python's fractions", "operands of up to 200 bits in every form a number has; operands re-read afterwards, so in-place computing shows."),
"C06": ("a model of mutable cons cells", "histories with aliasing: sharing and copying only show after a later mutation."),
"C07": ("reference definitions in Python over code points", "boundary indexes, empty and multi-byte strings, NUL, every operation."),
"C08": ("structural equality of the generated values; a table of type predicates; a reference evaluator of conditionals that predicts the evaluation log", "near-equal values and nested conditionals."),
"C09": ("a reference interpreter of oh (lib/model.py), written from the documentation, run on the same syntax tree; event logs are compared", "random programs in which every value is unique, so a wrong binding is always visible."),
"C10": ("the same interpreter for objects; dictionaries for maps", "class-like definitions evaluated again and again; maps driven by several tasks that own their keys."),
"C11": ("the same interpreter, with tasks, pipelines, captures and redirections as boundaries of unwinding", "nesting of handlers and failing constructs at random: anything evaluated after a failure is an extra event."),
"C12": ("the same interpreter with first-class continuations (CPS)", "continuations saved at every kind of place and called late, twice, from elsewhere."),
"C13": ("heap, goroutines and processor time of the real process read at five marks, through an in-package probe linked by a build overlay (lib/heapprobe.go) that forces two collections and reports the live heap", "random bodies and chains; growth per iteration, not absolute use, decides; a violation is confirmed by a second run."),
"C14": ("the same interpreter for calls and syntaxes; an independent translation of the source for quote and quasiquote", "operands that log, define, set and return while being evaluated; code used again after its results were changed in place."),
"C15": ("the environment block of the recording executable against a simulation of scopes and callers' frames", "any nesting of export, define, shadowing and redefinition."),
"C16": ("the whole directory tree before and after, against a table of operator x state of the file", "states that tests never prepare: links, dangling links, directories, devices, special modes, names with metacharacters."),
"C17": ("contents of every file and stream, in order, and /proc/self/fd listings at many points, against a simulation of the streams in force", "each write carries a number, so the stream it went to and the order in it are known."),
"C18": ("digest and order of the data at each end; events of the ends of stages; value or exception", "sizes from nothing to several MB (beyond every buffer), delays, stages that stop early."),
"C19": ("the bytes a recording tool wrote, split in lines by Python", "all byte values, missing final newline, CR, megabytes, nested."),
"C20": ("data received by each side, order of recorded ends, TMPDIR afterwards", "substitutions that fail, are never opened, are read in part, nest."),
"C21": ("the status the tool was told to end with; strace-free: statuses and signals are known by construction", "all 256 statuses and every signal, many processes ending at once so that SIGCHLDs are merged, stops and continues."),
"C22": ("/proc/PID/fd, children, named pipes and goroutine dump compared between repetitions with the collector off", "anything that is only released by the collector, or never, shows as growth."),
"C23": ("an independent matcher (lib/globm.py) walking the same tree", "trees with hostile names, patterns of every operator, in scopes with different directories."),
"C24": ("a simulation of scopes; every observation names the directory it was made in by a marker file or getcwd", "cd in any scope, in concurrent tasks, through every operation that takes a path."),
"C25": ("offline checker over a log of operation starts and ends: FIFO queue with capacity (value uniqueness makes the check linear)", "real schedules under 8 processors with random delays and up to 8 tasks; the log has the distinct interleavings counted."),
"C26": ("offline checker: exactly once, whole, per-writer order, end after everything", "records larger than PIPE_BUF and than the pipe, readers and writers in numbers, external readers."),
"C27": ("offline linearizability checker (Wing-Gong search with memo) per name, register with an undefined state", "real schedules; histories with two winners of one removal, lost updates and torn scopes are rejected."),
"C28": ("offline checker over the log of starts, ends and waits", "trees of up to thirty tasks that end before, during and after being waited for."),
"C29": ("Go's race detector on the real binary (build -race), plus strings that name internal faults, hangs and per-task counters", "some 80 kinds of operation in random mixtures on the same objects, with sessions on a pseudo-terminal for the job and completion code; a happens-before detector reports a race even when the schedule that breaks something does not occur."),
"C30": ("a table of the jobs kept by the driver against the terminal, /proc states, marks written by each phase, variables", "sequences of keys and job commands on jobs of every kind, with processes stopped and continued from outside."),
"C31": ("os.listdir at that moment; the resulting line is read back from the history file; traces left by `mark`", "directories and lines generated; keys typed while the completion runs."),
"C32": ("the list of the lines the driver entered against the file, after every session", "sessions in sequence with lines of every kind and every way of ending."),
"C33": ("what was passed to execve, byte for byte, against what the script writes and what a child receives", "names, arguments and environments of arbitrary bytes."),
"C35": ("the positions at which the generator wrote each command, in characters, and the text of the files", "chains over several files, in every nesting, after text that has confused lexers before (strings over several lines, continuations, other scripts)."),
"C36": ("the log of what the startup file and the program did, and the environment external commands received", "startup files of every kind of command, failing at any point, under odd names; scripts, -c and a terminal."),
"C37": ("what programs read, found and caught, and the bytes, modes and existence of files on disk", "every mode on missing, empty and full files under odd names, masks from 0 to 0777, misuse and use after closing, OHPATH and directory trees."),
"C38": ("values, output and the arguments bodies were called with", "thousands of calls with random arguments, in scopes, methods and pipes."),
"C34": ("per-file logs of evaluation and identity of objects", "random import graphs, concurrent importers, every form of path, failing files."),
}

HEAD = open(os.path.join(ROOT, "tools", "design_head.md")).read()
TAIL = open(os.path.join(ROOT, "tools", "design_tail.md")).read()

def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("RULE", "ASSUMPTIONS"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out

def main():
    known = json.load(open(os.path.join(ROOT, "known_findings.json")))
    out = [HEAD.rstrip(), "", "## Properties", ""]
    for ln in open(os.path.join(ROOT, "properties.jsonl")):
        p = json.loads(ln)
        i = p["id"]
        c = consts(os.path.join(ROOT, "checks", i.lower() + ".py"))
        oracle, why = TEXT[i]
        out += ["### %s %s" % (i, p["title"]), "", "*What is run.* " + c["RULE"], "", "*Oracle.* %s." % (oracle[0].upper() + oracle[1:].rstrip(".")), "",
                "*Reach.* " + why[0].upper() + why[1:], "", "*Assumptions and limits.* " + "; ".join(c["ASSUMPTIONS"]) + ".", ""]
        fx = [s.split(" ", 3)[2:] for s in known["fixed"] if s.startswith("fixed: property=%s " % i)]
        if fx:
            out += ["*Defects found and repaired.*", ""] + ["* %s: %s" % (a, b) for a, b in fx] + [""]
        op = [f for f in known["findings"] if f["property"] == i]
        if op:
            out += ["*Known findings (not repaired).*", ""] + ["* `%s`: %s" % (f["signature"], f["what"]) for f in op] + [""]
    out += ["## Planted bugs", "", "Each was written from the statement and the code, confirmed in a scratch copy (stable tests pass, demo.sh",
            "distinguishes), and is caught by the quick check of its property.", "", "| bug | needs | breaks | caught by |", "|---|---|---|---|"]
    notes = {}
    try:
        notes = json.load(open(os.path.join(ROOT, "tools", "seeded_notes.json")))
    except OSError:
        pass
    for m in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        d = json.load(open(m))
        n = os.path.basename(os.path.dirname(m))
        out.append("| %s | %s | %s | %s |" % (n, d["needs"].rstrip("."), d["what_it_breaks"].rstrip("."), notes.get(n, d["property"])))
    out += ["", TAIL.strip(), ""]
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))

if __name__ == "__main__":
    main()
