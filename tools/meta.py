#!/usr/bin/env python3
"""The properties, and which program decides each. `python3 tools/meta.py`
rewrites properties.jsonl and MANIFEST.json from this file."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = "crates/jarl-core/src/"
LSP = "crates/jarl-lsp/src/"
CLI = "crates/jarl/src/"
ZED = "editors/zed/src/lib.rs"
WORKSPACES = ["harness", "harness2"]  # harness3 needs no building
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, ws=None, bin=None, technique=None, level=None, note=None, na=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    PROPS.append((d, ws, bin, technique, level, note, na))


ENUM = "bounded exhaustive enumeration against a reference model"
BFS = "explicit-state exploration of the real object against a reference model"

# ------------------------------------------------------------ language server: documents
P("D01", "Editor and server agree on the document after any edit history",
  "After any sequence of change notifications (batches of incremental edits and full replacements) the server's copy of a document equals the text in the editor, for each position encoding (UTF-8, UTF-16, UTF-32), and its version is the last one sent. A change whose range cannot be resolved is refused and leaves text and version as they were, however many edits of the same notification precede it.",
  ["histories", "inputs"], "all histories of batches over all documents and ranges within the bound, per encoding",
  "Tests apply a handful of single-line ASCII edits; multi-edit batches, astral characters and ranges past line ends are never combined.",
  [LSP + "document.rs"], [("incremental change application", LSP + "document.rs apply_changes"), ("position to offset", LSP + "document.rs")],
  "harness", "document", BFS, "model_checking",
  "Every reachable document up to the length bound and every batch from it, on the real document type. Texts use LF and CRLF; lone CR is not explored.")
P("D02", "Edits inside one notification apply in order, all or nothing",
  "The edits of one change notification are applied one after the other, each range referring to the text produced by the previous edit; a full replacement inside a batch takes effect at its place. If any edit of the batch is invalid, none takes effect.",
  ["histories", "inputs"], "all ordered batches of up to three edits on all documents within the bound",
  "Tests only send one edit per notification.",
  [LSP + "document.rs"], [("batch application", LSP + "document.rs apply_changes")],
  "harness", "document", BFS, "model_checking",
  "Every batch of bounded length over every bounded document; the oracle is a character-array buffer.")
P("D03", "Positions and offsets convert without loss or panic",
  "For every document, encoding and position, conversion to a byte offset follows the LSP specification (clamping past the line end, never into a line break), never panics, and converting back gives the same position. Every byte offset on a character boundary converts to the position of that character; any other offset is an error.",
  ["inputs"], "all documents up to the bound, all positions, all offsets, three encodings",
  "Tests cover ASCII documents and a single emoji; boundaries inside multi-byte characters, line breaks and document ends are not enumerated.",
  [LSP + "document.rs"], [("position_to_offset / offset_to_position", LSP + "document.rs")],
  "harness", "document", ENUM, "exploration", "Complete over the bounded documents; lone CR is not explored.")

# ------------------------------------------------------------ language server: connection
P("C01", "Every request to the editor is settled exactly once",
  "Requests the server sends to the editor carry distinct ids; the answer to a request the editor has received is always recognised, once, whatever other threads do, and answers to anything else are ignored. A request that was never sent (its parameters cannot be serialized, or the connection is closed) is not waited for, and a request is given up only after its timeout.",
  ["schedules", "fault_sequences"], "all interleavings of up to four threads sharing a connection, with failing sends and answers arriving at any moment",
  "The tests check two consecutive ids on one thread; no concurrency, failure, response or timeout is exercised.",
  [LSP + "client.rs"], [("pending request table", LSP + "client.rs send_request, handle_response, cleanup_pending_requests"), ("id counter", LSP + "client.rs")],
  "harness", "client", "stateless model checking of the real code under a controlled scheduler (all interleavings, sleep sets)", "model_checking",
  "Every interleaving, up to reordering of independent operations, of the listed multi-thread scenarios. Sequentially consistent memory; virtual clock.")
P("C02", "The once-per-session notice appears exactly once",
  "However many threads report hidden diagnostics at the same time, the editor shows the threshold notice once per session, with the count of the caller that is told it was shown; every other caller is told it was not.",
  ["schedules"], "all interleavings of up to five callers with other traffic",
  "No test calls it at all.",
  [LSP + "client.rs"], [("once flag", LSP + "client.rs notify_unused_fn_threshold_once")],
  "harness", "client", "stateless model checking of the real code under a controlled scheduler (all interleavings, sleep sets)", "model_checking",
  "Every interleaving of the listed scenarios; sequentially consistent memory.")
P("C03", "Messages reach the editor intact, once, in order, or fail visibly",
  "Every request, notification, response and error response the server reports as sent arrives exactly once with its method, id and content unchanged, and messages of one thread arrive in the order sent. A message that cannot be serialized or sent is reported as an error and nothing of it arrives.",
  ["schedules", "fault_sequences"], "all interleavings of up to four senders and the reading or closing peer",
  "No test sends a message.",
  [LSP + "client.rs"], [("message construction and sending", LSP + "client.rs send_*")],
  "harness", "client", "stateless model checking of the real code under a controlled scheduler (all interleavings, sleep sets)", "model_checking",
  "Every interleaving of the listed scenarios; the channel is a modelled unbounded FIFO.")
P("C04", "Only the latest linting of an open document is published",
  "When several lintings of a document overlap, one that began before a later one of the same document, or before the document was closed, publishes nothing once that has happened; the latest one is always published, once, unaltered and for its document; closing a document removes its findings and nothing older comes back.",
  ["schedules", "histories"], "all interleavings of up to five beginnings and closings with up to three linting tasks",
  "No test lints while another linting runs.",
  [LSP + "client.rs"], [("start_lint / publish_lint / clear_diagnostics", LSP + "client.rs")],
  "harness", "latest", "stateless model checking of the real code under a controlled scheduler (all interleavings, sleep sets)", "model_checking",
  "Every interleaving of the listed scenarios; the channel is a modelled unbounded FIFO.")

# ------------------------------------------------------------ documents with R chunks
P("R01", "Exactly the R chunks of a document are linted, byte for byte",
  "From an R Markdown or Quarto document exactly the code of its R chunks is extracted, each chunk verbatim with its exact byte position, whatever the fence length, indentation, options and line endings. Text outside chunks, chunks of other engines, unclosed chunks and inline code are never extracted.",
  ["inputs"], "all documents over the line kinds and fence fragments up to the bound",
  "Tests use a few well-formed documents; nesting, unclosed fences, unequal fence lengths and CRLF are not combined.",
  [CORE + "rmd/extraction.rs"], [("fence recognition", CORE + "rmd/extraction.rs extract_r_chunks")],
  "harness", "rmd", ENUM, "exploration", "Complete over the bounded line-kind sequences and fence strings; header lines the documentation leaves open are not judged.")
P("R02", "Only chunks whose engine is R are treated as R code",
  "A fenced block is R code if and only if its header names exactly the engine r (any case), optionally followed by a label or options; engines whose name merely starts with r are left alone.",
  ["inputs"], "all opening lines over the fragment alphabet up to the bound",
  "Tests check python and a few r headers; names such as `ruby` or `rcpp` were not among them.",
  [CORE + "rmd/extraction.rs"], [("opening fence pattern", CORE + "rmd/extraction.rs")],
  "harness", "rmd", ENUM, "exploration", "Complete over the bounded header strings.")

# ------------------------------------------------------------ suppression comments
P("S01", "A comment suppresses diagnostics only if it is a valid directive",
  "A comment is read as a suppression directive exactly when it has the documented form with a known rule name and a reason (no reason is needed for an end marker); it then has exactly the kind, rule and scope written. Blanket directives, unknown rules and missing reasons are reported as such and never suppress anything, and any other comment is ignored.",
  ["inputs"], "all comments composed of the directive's parts, every rule in every form, every fragment sequence up to the bound",
  "Tests list about thirty comments; the space of separators, prefixes, near-miss rule names and trailing text is not covered.",
  [CORE + "directive.rs"], [("comment directive parser", CORE + "directive.rs parse_comment_directive")],
  "harness", "directive", ENUM, "exploration", "Complete over the product of the parts; undocumented forms are only required not to suppress.")
P("S02", "Chunk-level suppression lists are read item by item",
  "In a Quarto or R Markdown chunk, the list form of the chunk directive is recognised exactly by its header, and each following item is read as one rule with its reason; malformed items are reported or ignored but never suppress another rule.",
  ["inputs"], "all header and item comments over the fragments up to the bound",
  "Tests contain two or three well-formed lists.",
  [CORE + "directive.rs"], [("array item parser", CORE + "directive.rs parse_quarto_chunk_array_item")],
  "harness", "directive", ENUM, "exploration", "Complete over the bounded fragments.")

# ------------------------------------------------------------ rules
P("U01", "Rule and family names identify exactly one thing",
  "Every rule and every family has a unique name that finds it again and nothing else does: not another spelling, prefix, suffix or combination of names. Names of rules and families never collide.",
  ["inputs"], "every rule; every string one edit away from a name, every prefix, suffix and concatenation",
  "Tests look up one or two names.",
  [CORE + "rule_set.rs"], [("name lookup", CORE + "rule_set.rs Rule::from_name")],
  "harness", "rules", ENUM, "exploration", "Complete over the listed neighbourhoods of all names.")
P("U02", "Rule sets behave as sets and groups partition by metadata",
  "A set of rules contains exactly what was put in, whatever the order, and iterates over exactly those; selecting by family, default status or fix safety yields exactly the rules whose metadata say so.",
  ["inputs", "histories"], "all subsets of up to three (thorough four) rules against every rule, name and family",
  "Tests build one or two sets.",
  [CORE + "rule_set.rs"], [("RuleSet", CORE + "rule_set.rs")],
  "harness", "rules", ENUM, "exploration", "Complete over small subsets of the whole catalogue.")
P("U03", "The published rule table describes the rules as they are",
  "Every rule is listed in the published table with the families, fix safety, default status and minimum R version it really has, and every listed rule exists.",
  ["configurations", "inputs"], "every rule and every row of the table; every rule in every text of the corpus, by default, with every family, for twelve R versions and fixed in both ways",
  "No test compares the catalogue with the documentation.",
  [CORE + "rule_set.rs", "docs/rules.qmd"], [("rule declarations", CORE + "rule_set.rs")],
  "harness2", "lints", ENUM, "exploration", "Complete over the rows and the corpus; one known finding (class_equals) is listed.")

# ------------------------------------------------------------ package metadata, paths
P("K01", "The minimum R version is the one DESCRIPTION declares",
  "For every DESCRIPTION file the R versions taken from its dependencies are exactly the lower bounds or exact versions it declares for R itself, in whatever position, spacing and line folding; packages whose name starts with R, upper bounds and missing versions contribute none. No file content makes it panic.",
  ["inputs"], "all line sequences, dependency lists and operator forms within the bound",
  "Tests cover four well-formed files.",
  [CORE + "description.rs"], [("DESCRIPTION parser", CORE + "description.rs")],
  "harness", "description", ENUM, "exploration", "Complete over the bounded grammar; malformed files may give any answer but no panic.")
P("F01", "File kinds follow from the extension alone",
  "A path is an R file exactly when its last component has the extension r or R, and an R Markdown or Quarto document exactly for rmd, Rmd, qmd or Qmd; no path is both, and names that are not valid UTF-8 are handled.",
  ["inputs"], "all extensions over the letters up to the bound in six kinds of path",
  "Tests check a couple of names.",
  [CORE + "fs.rs"], [("extension tests", CORE + "fs.rs")],
  "harness", "paths", ENUM, "exploration", "Complete over the bounded extensions.")
P("F02", "Paths are resolved and displayed without changing the file meant",
  "Resolving a path against the working directory removes `.`, `..` and duplicate separators and is idempotent; the path shown to the user is relative exactly when the file lies below the working directory, and resolving what is shown gives the same file again.",
  ["inputs"], "all component sequences up to the bound, relative, absolute, below and beside the working directory",
  "Tests check one relative path.",
  [CORE + "fs.rs"], [("normalize_path / relativize_path", CORE + "fs.rs")],
  "harness", "paths", ENUM, "exploration", "Complete over the bounded component sequences; symbolic links are not followed by the code.")

# ------------------------------------------------------------ command line basics
P("X01", "The exit status tells clean, findings and failure apart",
  "A run that succeeds without findings exits 0, a run with findings exits 1, and a run in which something failed (a configuration, a file that cannot be read or parsed, a fix that is not allowed) exits 255, whatever else was found and in whichever format it is reported.",
  ["inputs", "configurations"], "all pairs (thorough: triples) of fourteen kinds of files, with seven configurations, ten sets of options, four formats and four selections on the command line",
  "Tests look at one outcome at a time; which one wins when findings and failures meet, in every format, is not tested.",
  [CLI + "status.rs", CLI + "commands/check.rs", CLI + "statistics.rs"], [("status conversion", CLI + "status.rs"), ("outcome of a run", CLI + "commands/check.rs check")],
  "harness2", "settings", "complete enumeration in real processes", "exploration", "Every combination run as a real process. Parser, git and directory walk are stand-ins.")
P("X02", "The log level decides exactly which messages appear, on stderr",
  "Exactly the five documented level names are accepted; at each level exactly the program's own messages of that severity or worse appear, tagged, on standard error, and messages of libraries never do.",
  ["configurations"], "all levels, severities and origins", "No test sets a log level in the built part.",
  [CLI + "logging.rs"], [("filter set-up", CLI + "logging.rs init_logging")],
  "harness", "cli", "complete enumeration in real processes", "exploration", "Every level, severity and six message origins in a real process.")
P("X03", "Positions order, print and serialize consistently",
  "Source positions compare by row and then by column, print as line and column, and survive serialization; a syntax-error report names the file it concerns.",
  ["inputs"], "all pairs over boundary values", "No test compares positions.",
  [CORE + "location.rs", CORE + "error.rs"], [("Location", CORE + "location.rs"), ("ParseError", CORE + "error.rs")],
  "harness", "cli", ENUM, "exploration", "Complete over seven boundary values per coordinate.")

# ------------------------------------------------------------ Zed extension
P("Z01", "The Zed extension runs the binary the user would expect",
  "The server is started from the path in the user's settings if there is one, else from the PATH, else from an earlier download that still exists, else from the latest published release, with the user's arguments or the default ones. The network is used only for the last of these, and when it fails an error is reported instead of a command.",
  ["histories", "fault_sequences", "configurations"], "all histories of start requests over settings, PATH, versions, platforms, disk changes and host faults, to a fixpoint",
  "The only test checks three file names.",
  [ZED], [("binary resolution", ZED + " language_server_binary")],
  "harness", "zed", BFS + " with fault injection", "model_checking",
  "Every reachable disk state to a fixpoint, and all histories of two (thorough three) requests; the host and file system are in memory, one fault per request.")
P("Z02", "Updating in Zed never deletes what is about to run",
  "Nothing is deleted unless a new version was downloaded completely, the version just downloaded is never deleted, nothing outside the extension's directory is touched, and the binary returned exists. After a successful update no outdated version directory remains.",
  ["histories", "fault_sequences"], "all histories of start requests with every single fault, to a fixpoint",
  "No test downloads or deletes anything.",
  [ZED], [("clean-up after download", ZED + " language_server_binary")],
  "harness", "zed", BFS + " with fault injection", "model_checking",
  "As Z01; the file system is in memory and records every removal.")
P("Z03", "Zed downloads the release asset of its platform",
  "For every operating system, architecture and version the asset downloaded is the one the release process publishes for that platform, unpacked in the matching format into a directory of its version.",
  ["configurations", "histories"], "all platforms and versions, after every reachable disk state",
  "Tests check three of nine platforms, and only names.",
  [ZED, "dist-workspace.toml"], [("asset naming", ZED + " GithubReleaseDetails")],
  "harness", "zed", BFS + " with fault injection", "model_checking", "All nine platforms; asset names are those of the release configuration.")
P("Z04", "Zed passes the user's settings to the server unchanged",
  "Initialization options and workspace settings reach the server exactly as the user wrote them, and absent or unreadable settings become an empty value, never an error.",
  ["inputs"], "all JSON values up to nesting two", "No test reads settings.",
  [ZED], [("settings pass-through", ZED)],
  "harness", "zed", ENUM, "exploration", "Complete over the bounded JSON values.")

# ------------------------------------------------------------ developer tools
P("T01", "Developer tools restore directory and environment on exit",
  "Whatever the nesting of scopes that change the working directory or an environment variable, closing a scope restores exactly what was there before it, including a variable that was unset or empty.",
  ["histories"], "all scope sequences up to the bound", "No test opens a scope.",
  ["xtask/src/glue.rs"], [("pushd / pushenv", "xtask/src/glue.rs")],
  "harness", "glue", BFS, "model_checking", "Every sequence of openings and closings up to the bound on the real process state.")
P("T02", "Developer tools start programs with the arguments written",
  "A command line is split at blanks, single-quoted parts reach the program verbatim as one argument, standard input is passed on and the trimmed output returned, and exactly a non-zero exit status is an error.",
  ["inputs"], "all argument texts over the fragments up to the bound, all exit statuses", "No test runs a command.",
  ["xtask/src/glue.rs"], [("shelx / run_process", "xtask/src/glue.rs")],
  "harness", "glue", "complete enumeration in real processes", "exploration", "Complete over the bounded texts whose quotes pair up and stand apart.")
P("T03", "Developer tools touch exactly the path they are given",
  "A file helper reads, writes, copies, creates or removes exactly the path it is given: nothing else on disk changes, removing a directory removes everything in it without following the links it holds, removing what is not there is not an error of the forced removal, and every failure names the path.",
  ["inputs", "configurations"], "all helpers, all kinds of thing at the path, path texts up to the bound", "No test touches a file through the helpers.",
  ["xtask/src/glue.rs"], [("rm_rf / fs2", "xtask/src/glue.rs")],
  "harness", "glue", "complete enumeration on real directories", "exploration", "Complete over the bounded directory states.")
P("T04", "Generated sources are marked and formatted by the stable tool",
  "Reformatting generated code gives the formatter's output below a preamble that marks it as generated, or an error when there is no stable formatter or it fails; the formatter gets exactly the text, runs with the stable toolchain, and the caller's toolchain setting is as before. The root of the project is the directory two levels above the crate.",
  ["inputs", "inputs"], "all combinations of up to two (thorough three) deviations", "No test reformats anything.",
  ["xtask/src/lib.rs"], [("reformat / ensure_rustfmt / project_root", "xtask/src/lib.rs")],
  "harness", "glue", "complete enumeration with a stand-in formatter", "exploration", "Complete over the bounded formatter behaviours; the formatter itself is a stand-in.")

# ------------------------------------------------------------ VS Code extension
CODE = "editors/code/src/"
P("V01", "VS Code starts the executable the user chose, and only a trusted one",
  "The VS Code extension starts exactly the documented executable with the argument `server`. By the strategy `bundled` (the default) the bundled one, else the first `jarl` on PATH; by `environment` the first `jarl` on PATH, else the bundled one; by `path` the one at `jarl.executablePath` or none. In a workspace that is not trusted only the bundled executable is ever started, whatever the settings, PATH or the workspace hold; if there is none, no server is started.",
  ["configurations"], "all combinations of trust, strategy, path setting, level of the settings, executables present and windows with and without a folder",
  "The extension's only test formats a file in a running editor and cannot run here; none looks at the choice of the executable.",
  [CODE + "binary.ts", CODE + "lsp.ts", CODE + "settings.ts", CODE + "constants.ts"], [("choice of the executable", CODE + "binary.ts resolveJarlBinaryPath"), ("start of the server", CODE + "lsp.ts startImpl")],
  "harness3", "run.js", ENUM, "exploration", "Complete over the combinations, on the extension's own sources in a stand-in for the editor with real files.")
P("V02", "At most one server runs, whatever is started, stopped and restarted",
  "The operations on the VS Code extension's server take effect one after another in the order they were asked for: starting when started and stopping when stopped do nothing, restarting stops the server that runs and starts a new one. At no moment is there more than one server. An operation ends when its effect is there and reports a failure to its caller; after a failed start or stop there is no current server, and a later start or restart works.",
  ["histories", "schedules"], "all histories of start, stop and restart requests, answers of the language client (success and failure) and executables appearing and disappearing, up to 6 (thorough 8) events",
  "The extension's only test starts one server and never stops it.",
  [CODE + "lsp.ts", CODE + "commands.ts", CODE + "extension.ts"], [("queue of operations", CODE + "lsp.ts stateQueue"), ("states", CODE + "lsp.ts startImpl, stopImpl, restartImpl")],
  "harness3", "run.js", "explicit-state model with every trace replayed on the real extension under a controlled language client", "model_checking",
  "Every history up to the bound is executed on the extension's own sources; the language client, the editor and the queue package are stand-ins.")
P("V03", "VS Code passes on the settings that count and serves R documents",
  "The server is started with the log settings of the user's settings (level `debug` if none is set), never those of a workspace or folder. With several folders open the settings of the outermost one that exists (the shortest path, the first of these) decide about the executable. Files in the languages R, R Markdown and Quarto and files named as R Markdown or Quarto are served; other languages are not.",
  ["configurations"], "all values of the settings at three levels, all lists of up to three (thorough four) folders, all documents by language, scheme, name and place",
  "The extension's only test uses one folder and no settings.",
  [CODE + "settings.ts", CODE + "workspace.ts", CODE + "lsp.ts"], [("settings", CODE + "settings.ts"), ("outermost folder", CODE + "workspace.ts getRootWorkspaceFolder"), ("documents", CODE + "lsp.ts documentSelector")],
  "harness3", "run.js", ENUM, "exploration", "Complete over the combinations, on the extension's own sources in a stand-in for the editor.")

try:
    from tools import meta2  # noqa: F401  (properties of the whole linter)
except ImportError:
    try:
        import meta2  # noqa: F401
    except ImportError:
        pass

BINS = {d["id"]: (ws, b) for d, ws, b, *_ in PROPS if b}


def write():
    props = [d for d, *_ in PROPS]
    assert len({d["id"] for d in props}) == len(props)
    for d in props:
        assert len(d["title"]) <= 80, d["id"]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d in props:
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    checks, na = [], []
    for d, ws, b, technique, level, note, why in PROPS:
        if b:
            checks.append({"property": d["id"], "quick_cmd": f"./check {d['id']} quick", "thorough_cmd": f"./check {d['id']} thorough",
                           "technique": technique, "level": level, "level_note": note})
        else:
            na.append({"property": d["id"], "reason": why})
    m = {"version": 1, "setup_cmd": "./check --build", "checks": checks, "not_applicable": na,
         "notes": "Sources are mirrored from /repo's working tree into harness/gen by sync.py before every build; no hooks in /repo."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    write()
    print(len(BINS), "claimed of", len(PROPS))
