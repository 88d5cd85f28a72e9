"""Properties of the linter as a whole (the tier-2 workspace, harness2)."""
try:
    from tools import meta
except ImportError:
    import sys
    meta = sys.modules.get("meta") or sys.modules["__main__"]
P, ENUM, BFS, CORE, LSP, CLI = meta.P, meta.ENUM, meta.BFS, meta.CORE, meta.LSP, meta.CLI
LINTS = CORE + "lints/"
FIXES = ("harness2", "fixes")
LINT = ("harness2", "lints")
TIER2 = " The linter's own sources run on stand-ins for the parser and the other libraries that are not installed here."

# ------------------------------------------------------------ automatic fixes
P("A01", "Fixes are spliced into the text without damaging what they do not cover",
  "Applying the fixes of a file replaces exactly the ranges of the applied fixes by their contents and leaves every other byte of the file as it was, in any language and encoding of characters. No two overlapping fixes are applied together, a fix that overlaps nothing applied before it is not skipped, and diagnostics without a fix change nothing.",
  ["inputs"], "all texts over one- to four-byte characters and line breaks, and all lists of fixes over all ranges, up to the bound",
  "Tests fix single expressions in ASCII files, one fix at a time.",
  [CORE + "fix.rs"], [("splicing of fixes", CORE + "fix.rs apply_fixes")],
  *FIXES, ENUM, "exploration", "Complete over the bounded texts and fix lists; fixes sorted by start as the linter sorts them." + TIER2)
P("A02", "A fix replaces one expression by one expression",
  "Applied where it was reported, a fix leaves a program that parses and whose syntax tree is the old one with only the reported expression exchanged for another single expression: surrounding operators, calls, statements and neighbours keep their structure whatever their binding strength.",
  ["inputs"], "all expressions of the rule corpus in all surroundings",
  "Tests apply fixes to expressions that stand alone.",
  [LINTS, CORE + "fix.rs"], [("parentheses around fixes", CORE + "checker.rs"), ("fix contents", LINTS)],
  *FIXES, ENUM, "exploration", "Complete over corpus x surroundings; the corpus is every R expression in the rule tests." + TIER2)
P("A03", "Fixing comes to rest and leaves nothing it could still fix",
  "Fixing always ends. After `--fix` all fixes have been applied, as often as they lead to others, a second run changes no file, the report of the run describes the file as it now is, a file that could be parsed still can be, and a file in which nothing was fixed is not rewritten.",
  ["histories", "inputs"], "all corpus expressions in all surroundings and all pairs of fixable rules beside and inside each other, for safe and all fixes",
  "Tests run a fix once on one violation; rounds in which fixes enable or hide one another are not tested.",
  [CORE + "check.rs", CORE + "fix.rs"], [("fixing loop", CORE + "check.rs lint_fix")],
  *FIXES, "explicit exploration of the fixing rounds of the real code to their fixpoint", "model_checking",
  "Every sequence of rounds from every listed text, on the real loop and real files." + TIER2)
P("A04", "Only fixes the user allowed are applied",
  "A file changes only under `--fix` or `--unsafe-fixes`; fixes of rules whose fix is unsafe are applied only with `--unsafe-fixes`, and only fixes of rules that are fixable and not unfixable under the configuration are applied (unfixable wins). R Markdown and Quarto documents are never changed. With `--fix-only` violations that remain are not reported.",
  ["configurations"], "every fixable rule under all combinations of flags, fixable and unfixable lists and file types",
  "Tests cover a few flag combinations for one or two rules.",
  [CORE + "config.rs", CORE + "check.rs", CORE + "checker.rs"], [("permission of fixes", CORE + "checker.rs, config.rs")],
  *FIXES, ENUM, "exploration", "Complete over the flag matrix per rule." + TIER2)
P("A05", "Fixes never destroy comments",
  "Wherever a comment stands in or around a violation, after fixing, it is still in the file, unchanged and once.",
  ["inputs"], "all fixable corpus expressions with a comment at every place between their tokens",
  "Tests place comments at three places per rule.",
  [LINTS, CORE + "utils.rs"], [("skipping fixes that cover comments", CORE + "utils.rs node_contains_comments")],
  *FIXES, ENUM, "exploration", "Complete over corpus x places (thorough: pairs of places)." + TIER2)
P("A07", "Fixes keep operands whole",
  "A fix treats what it moves as whole expressions: if a variable in a violation is exchanged for any other expression, the fix of the result is the original fix with the same exchange, whatever the binding strength of the expression or the form it is written in.",
  ["inputs"], "all fixable corpus expressions with each variable exchanged for an expression of every form",
  "Tests use variables and simple calls as operands.",
  [LINTS], [("fix contents", LINTS)],
  *FIXES, ENUM, "exploration", "Complete over corpus x operand forms; constants, `?` and blocks as operands are not judged." + TIER2)

P("A06", "A fix is the rewriting its rule documents",
  "Every fix replaces the violation by the rewriting that the rule's documentation gives for it, up to spelling: no argument, operand, negation or operator is lost, added, duplicated or bound to another parameter, and no fix is offered for an expression that the documented rewriting does not cover. This holds for both preferred assignment operators and however arguments are named and ordered.",
  ["inputs"], "all one-line corpus expressions and every program one edit away: other constants, operators and functions, arguments added, named, unnamed, dropped and reordered",
  "Tests rewrite the one or two calls that the documentation shows.",
  [LINTS, CORE + "utils.rs"], [("fix contents", LINTS), ("matching of arguments", CORE + "utils.rs get_arg_by_name_then_position, match_args")],
  "harness2", "meaning", ENUM, "exploration", "Complete over the corpus and its one-edit neighbours (thorough: two edits) against documented rewritings of 60 rules on terms with R's argument matching." + TIER2)

# ------------------------------------------------------------ reported violations
P("L01", "Reported positions point at the code that is meant",
  "The line and column of every reported violation are those of the first character of its range, and the range is a piece of code of the file that starts and ends at tokens, whatever precedes it: blank lines, comments, other characters, line endings, or the text of a document with chunks.",
  ["inputs"], "all corpus expressions in all surroundings after all short preambles, in R files and documents",
  "Tests report violations on the first lines of ASCII files.",
  [CORE + "utils.rs", CORE + "check.rs"], [("line and column", CORE + "utils.rs find_row_col"), ("chunk positions", CORE + "check.rs")],
  *LINT, ENUM, "exploration", "Complete over corpus x surroundings x preambles." + TIER2)
P("L02", "A violation is reported wherever it stands",
  "Whether an expression violates a rule, and its fix up to parentheses, depend only on the expression, not on the code around it, except where the rule's documentation says so.",
  ["inputs"], "all corpus expressions in all surroundings (thorough: pairs of surroundings)",
  "Tests lint expressions that stand alone; traversal of every kind of construct is not tested.",
  [CORE + "checker.rs", CORE + "analyze"], [("traversal", CORE + "check.rs check_expression")],
  *LINT, ENUM, "exploration", "Complete over corpus x surroundings; rules whose documentation makes them depend on the surroundings are excluded there." + TIER2)
P("L03", "Linting never fails on code that parses",
  "For every file that can be parsed the linter returns its report: no rule panics or gives up, whatever arguments are missing, empty, repeated or unnamed; a file that cannot be parsed gives an error, never a report.",
  ["inputs"], "all functions known to the rules with all argument lists up to the bound, all corpus expressions in all surroundings and all their truncations",
  "Tests call functions the way users mean them.",
  [LINTS, CORE + "check.rs", CORE + "utils.rs"], [("argument lookup", CORE + "utils.rs get_arg_by_name_then_position"), ("rules", LINTS)],
  *LINT, ENUM, "exploration", "Complete over the bounded argument lists." + TIER2)

P("L04", "What is reported does not depend on how the code is laid out",
  "Blanks, tabs, line breaks and comments between the tokens of an expression, wherever R ignores them, do not change what jarl reports: the same rules report the same tokens. The fixes of both versions are the same programs, parentheses aside.",
  ["inputs"], "all corpus expressions, also with longer operands and as arguments, with every kind of gap in every one and in every two places between tokens (shorter expressions) and in all places at once",
  "Tests write code the usual way; rules that compare the text of an expression with that of another or with a name, or that move code out of parentheses, only go wrong on other layouts.",
  [LINTS, CORE + "utils.rs", CORE + "utils_ast.rs"], [("argument lookup", CORE + "utils.rs get_arg_by_name"), ("comparison of code", CORE + "utils_ast.rs is_same_code"), ("rules", LINTS)],
  *LINT, ENUM, "exploration", "Complete over the bounded layouts. Fixes are compared when there are no comments, as comments forbid them." + TIER2)

# ------------------------------------------------------------ suppression
SUP = ("harness2", "suppress")
P("S03", "Suppression comments hide what they stand for; wrong ones are reported",
  "A comment on a line of its own hides the violations of its rule in the statement or argument below it and nothing else; a pair of start and end comments at the same level hides those between them; a file comment before any code hides those of the file. A hidden violation is neither reported nor fixed, every other one is. Comments that are misplaced (after code, file comments below code), unmatched, without rule or reason, with an unknown rule, or that hide nothing are reported, each once, and a comment that is needed is never called outdated.",
  ["inputs"], "all programs of statements, comments of every kind and nested blocks, calls, subsets, conditions and definitions up to the bound, and longer sequences of violations and ranges",
  "Tests show one comment in front of one violation each.",
  [CORE + "suppression.rs", CORE + "check.rs", CORE + "directive.rs"], [("attachment and matching of comments", CORE + "suppression.rs SuppressionManager"), ("hidden violations", CORE + "check.rs")],
  *SUP, ENUM, "exploration", "Complete over the bounded programs, against the documented rules of placement; where the documentation leaves the effect open nothing is judged." + TIER2)
P("S04", "Suppression in R Markdown and Quarto documents",
  "In documents, comments act within their chunk; `#| jarl-ignore-chunk` lists hide their rules in the whole chunk and no other, file comments are valid only in the first R chunk before code and hide violations in all chunks, and the remarks about wrong, misplaced and outdated comments take all chunks into account. Text, chunks of other languages and chunks that do not parse are not checked and do not disturb the others. Nothing in a document is ever fixed.",
  ["inputs"], "all documents of up to three chunks with code and comments of every kind up to the bound, with other chunks between them, as Rmd and qmd",
  "Tests show one comment in one or two chunks.",
  [CORE + "check.rs", CORE + "suppression.rs", CORE + "rmd/extraction.rs"], [("documents", CORE + "check.rs get_checks_rmd"), ("chunk lists", CORE + "suppression.rs")],
  *SUP, ENUM, "exploration", "Complete over the bounded documents." + TIER2)
P("S05", "`--add-jarl-ignore` silences the report and changes nothing else",
  "After `jarl check --add-jarl-ignore=<reason>` the code and the existing comments of every file are as before, only comments for rules that the file violates are added, and jarl reports nothing any more, neither the violations nor anything about the new comments.",
  ["inputs"], "all corpus expressions in all surroundings on one or several lines, alone and repeated (thorough: in pairs of surroundings), with Windows line ends, and in seven forms of documents",
  "Tests insert comments in front of a handful of statements.",
  [CORE + "suppression_edit.rs", CLI + "commands/check.rs", CORE + "suppression.rs"], [("insertion points", CORE + "suppression_edit.rs compute_suppression_insert_point"), ("insertion", CLI + "commands/check.rs add_jarl_ignore_comments")],
  *SUP, ENUM, "exploration", "Complete over corpus x surroundings, on the real command line and real files." + TIER2)

# ------------------------------------------------------------ the editor
EDIT = ("harness2", "editor")
PROJ = ("harness2", "project")
P("E01", "The editor shows what the command line reports",
  "For a saved document the language server publishes exactly the violations that `jarl check` reports for the same text with the same configuration, with the same message, at the same code, expressed in the position encoding that was negotiated, in R files and in documents with chunks.",
  ["inputs", "configurations"], "all corpus expressions in R files and documents with wide characters and all line ends, for each position encoding",
  "Tests convert positions in short ASCII texts and never compare both programs.",
  [LSP + "lint.rs", LSP + "server.rs", CORE + "check.rs"], [("linting for the editor", LSP + "lint.rs run_jarl_linting"), ("positions", LSP + "lint.rs byte_offset_to_lsp_position")],
  *EDIT, ENUM, "exploration", "Complete over corpus x contexts x encodings; real server over its in-memory connection against the real command line." + TIER2)
P("E02", "Code actions make the fix or the comment they name and nothing else",
  "A code action for a violation makes the edit that `--fix` would make for it (as `preferred` only when the fix is safe), or adds a suppression comment after which that violation is not reported any more while the code, other comments and other violations stay as they are. An action is offered wherever the requested range touches the violation and nowhere else, in R files, R Markdown and Quarto, in the negotiated position encoding.",
  ["inputs"], "all corpus expressions in all surroundings, R files and documents, all encodings, ranges that touch or miss the violation",
  "Tests apply one action to one ASCII file.",
  [LSP + "server.rs", LSP + "lint.rs", CORE + "suppression_edit.rs"], [("code actions", LSP + "server.rs"), ("insertion points", CORE + "suppression_edit.rs")],
  *EDIT, ENUM, "exploration", "Complete over corpus x surroundings; edits are applied to the text and the result is judged by the real command line." + TIER2)
P("E05", "The editor checks the files the command line would check",
  "In an editor an R, R Markdown or Quarto file of a project gets diagnostics exactly if `jarl check` on the project would check it, that is, if the configuration that applies to it does not exclude it, and from the rules that this configuration selects. The configuration is the nearest jarl.toml or .jarl.toml above the file, or else the user's own.",
  ["configurations"], "all placements of configurations in a project and in the user's directory, all combinations of include, exclude and default-exclude patterns, every file",
  "Tests of the language server match single names against single patterns.",
  [LSP + "lint.rs", LSP + "utils.rs", CORE + "discovery.rs"], [("excluded files", LSP + "utils.rs should_exclude_file_based_on_settings"), ("settings", CORE + "discovery.rs discover_settings")],
  *PROJ, ENUM, "model_checking", "Complete over the listed trees and configurations, on real files and the real server." + TIER2)

# ------------------------------------------------------------ projects
P("P03", "Every file is checked with the nearest configuration",
  "Each file is checked with the jarl.toml (or else .jarl.toml) in the nearest directory above it, whatever the working directory is and however the files are named on the command line, together or alone; only a file below no such configuration is checked with the one in the user's configuration directory, or with the defaults if there is none.",
  ["configurations"], "all ways to place jarl.toml and .jarl.toml in the directories of a project and of the user, all working directories and ways to name files up to the bound",
  "Tests place one or two configurations and run from the project's root.",
  [CORE + "discovery.rs", CORE + "toml.rs", CLI + "commands/check.rs"], [("discovery", CORE + "discovery.rs discover_settings"), ("resolution", "crates/air_workspace/src/resolve.rs")],
  *PROJ, ENUM, "model_checking", "Complete over the placements; the real program on real files." + TIER2)
P("P04", "Exactly the files that the configuration admits are checked, each once",
  "Given directories, jarl checks every R, R Markdown and Quarto file below them that is not hidden there (hidden directories can be named themselves), not excluded by default, by `exclude` or by `include` of the configuration that applies to it, and no other file, each once, however the paths overlap. Patterns work as in a .gitignore, relative to the directory of their configuration, and configurations do not affect files outside their directory.",
  ["configurations"], "all combinations of include, exclude and default-exclude patterns in one or two configurations, working directories and ways to name the files",
  "Tests exclude one file or directory by one pattern from one configuration.",
  [CORE + "discovery.rs", CORE + "fs.rs", CLI + "commands/check.rs"], [("walking", CORE + "discovery.rs discover_r_file_paths"), ("patterns", CORE + "discovery.rs Exclusions")],
  *PROJ, ENUM, "exploration", "Complete over the listed patterns and trees; files given by name that the configuration excludes are not judged." + TIER2)
SERVER = ("harness2", "server")
P("E03", "The editor is left with the diagnostics of what was last saved",
  "Whatever the order in which the language server's threads run, once it has come to rest the last diagnostics published for an open document are those of the text that was last saved, and a document that was closed, or was not saved since it was opened, has none.",
  ["schedules", "histories"], "all histories of opening, changing, saving and closing two documents up to the bound, all interleavings of the main loop and the workers",
  "Tests save one document once and accept whichever schedule occurs.",
  [LSP + "server.rs", LSP + "client.rs", LSP + "session.rs"], [("workers", LSP + "server.rs handle_lint_task"), ("publishing", LSP + "client.rs publish_lint"), ("documents", LSP + "session.rs")],
  *SERVER, "stateless model checking: dynamic partial-order exploration (sleep sets) of the unmodified main loop, workers and client under a controlled scheduler", "model_checking", "Every interleaving of every history up to the bound; sequential consistency. The reduction was validated by comparing its outcomes with those of the unreduced exploration." + TIER2)
P("E04", "The language server answers every request exactly once",
  "For every sequence of requests and notifications, well-formed or not, in every schedule of its threads, the language server answers every request exactly once and with the right kind of answer (a result, or the error that the protocol names; code actions only for a document that is open, and only edits of it), answers nothing else, keeps working afterwards, and ends in order after shutdown and exit.",
  ["schedules", "histories"], "all sequences of up to two (thorough: three) of 22 messages followed by a complete session, all interleavings",
  "Tests send a few well-formed requests in one schedule.",
  [LSP + "server.rs", LSP + "client.rs", LSP + "session.rs"], [("main loop", LSP + "server.rs main_loop"), ("requests", LSP + "server.rs handle_request")],
  *SERVER, "stateless model checking: dynamic partial-order exploration (sleep sets) of the unmodified main loop, workers and client under a controlled scheduler", "model_checking", "Every interleaving of every sequence up to the bound; sequential consistency." + TIER2)
P("E06", "The server process speaks the protocol and ends when told to",
  "The `jarl server` process writes nothing but complete protocol messages to its standard output, ends by itself with status 0 after shutdown and exit, with status 1 after exit without shutdown, and also when its input ends, and has answered every request and published what was saved before an orderly end.",
  ["histories"], "all sessions of up to three (thorough: four) of ten messages, with long and non-ASCII texts, and seven ways to end them",
  "Tests use an in-memory connection and never end the process.",
  [LSP + "lib.rs", LSP + "server.rs", CLI + "commands/server.rs"], [("process", LSP + "lib.rs run"), ("exit", LSP + "server.rs main_loop")],
  *EDIT, ENUM, "exploration", "Complete over the sessions, with the real process over its standard input and output; its schedules are those that occur." + TIER2)
P("E07", "In a package the editor reports what the command line reports",
  "When a file in R/ of a package is saved, the language server publishes what `jarl check` of the package says about that file, including unused functions and functions defined twice, whatever the other files of the package contain, whichever are excluded or have suppression comments, however the rules are selected and wherever the package lies; it hides unused functions, and says once how many, exactly if the command line does.",
  ["inputs", "configurations"], "all packages of three files from lists of 7, 7 and 5 contents and places, three NAMESPACE files, five selections, five thresholds, three exclusions and two directories (thorough: all; quick: every 29th)",
  "No test of the server has a package of several files.",
  [LSP + "lint.rs", CORE + "package.rs", CLI + "commands/check.rs"], [("package analysis", LSP + "lint.rs run_jarl_linting"), ("threshold", LSP + "lint.rs count_unused_functions")],
  *EDIT, ENUM, "exploration", "Complete over the lists; the real server against the real program. The other files are as on disk." + TIER2)
P("E08", "The user is told which configuration is used if it lies elsewhere",
  "The language server shows once per session which configuration it uses, and where it lies: that of the first document opened whose configuration is valid and does not lie in the server's working directory, and none otherwise. `jarl check` names the configuration at the end of every report for people if exactly one is used and it does not lie in the working directory, and only then. A configuration that applies to none of the files is not looked at.",
  ["configurations", "histories"], "all placements of configurations in three nested directories and the user's, all working directories, all sequences of two (thorough: three) opened documents and nine lists of path arguments in six kinds of report",
  "The tests look at a flag of the session, not at the message; the note of the command line appears in a few snapshots.",
  [LSP + "session.rs", CORE + "discovery.rs", CLI + "commands/check.rs"], [("notice of the server", LSP + "session.rs check_and_notify_config"), ("note of the command line", CLI + "commands/check.rs parent_config_path")],
  *EDIT, ENUM, "model_checking", "Complete over the placements, on the real processes." + TIER2)
SETTINGS = ("harness2", "settings")
P("P01", "The rules applied are those the command line and configuration select",
  "The rules applied to a file are: those of --select, else of select in the configuration, else the default ones; plus those of --extend-select, else of extend-select; minus those of --ignore and ignore together; minus those that need a later R version than --min-r-version or else the DESCRIPTION of the package the file belongs to guarantees. Names of groups and ALL stand for their rules; a name or version that is none is refused before anything is written.",
  ["configurations"], "all combinations of the three command line options and the three configuration fields over names, groups, ALL, empty and wrong lists; all combinations of version options, DESCRIPTION contents and places of the file",
  "Tests set one or two of the seven inputs at a time.",
  [CORE + "config.rs", CORE + "toml.rs", CORE + "rule_set.rs", CLI + "commands/check.rs"], [("selection", CORE + "config.rs reconcile_rules"), ("names", CORE + "config.rs replace_group_rules"), ("versions", CORE + "config.rs determine_minimum_r_version")],
  *SETTINGS, ENUM, "model_checking", "Complete over the combinations listed, on the real program and real files." + TIER2)
P("P02", "Options of rules do what they say and wrong configurations are refused",
  "Lists of functions in the options of a rule replace (or, as extend- option, extend) the default list, for plain and namespaced calls alike; the assignment operator is the one on the command line, else the configured one. A configuration with wrong syntax, keys, types, values or names is refused with an error message and status 255 before any file is changed, wherever it stands among others and whatever was asked for; a right one is accepted in every notation of TOML.",
  ["configurations"], "all combinations of values of base and extending lists for all rules with options, all kinds of calls; all listed right and wrong configurations in all places with all kinds of request",
  "Tests set one option to one value.",
  [CORE + "toml.rs", CORE + "rule_options/mod.rs", CORE + "config.rs"], [("options", CORE + "rule_options/mod.rs resolve_with_extend"), ("parsing", CORE + "toml.rs TomlOptions::into_settings")],
  *SETTINGS, ENUM, "exploration", "Complete over the listed values, places and requests, on the real program and real files." + TIER2)
REPORTS = ("harness2", "reports")
P("P05", "Fixing changes files only where version control can undo it",
  "jarl changes files only if every file to check is in a Git repository (or worktree, or submodule) and none of their repositories has uncommitted or untracked changes, unless --allow-no-vcs or --allow-dirty allow it; and then it does fix them. Otherwise no file at all is changed, the status is 255 and the reason is given. Without fixing nothing is ever changed or refused.",
  ["configurations"], "all listed states of one or two repositories, all ways to name files, two working directories, all kinds of fixing, all combinations of the --allow options",
  "Tests have one repository with one new file.",
  [CORE + "vcs.rs", CORE + "check.rs", CLI + "commands/check.rs"], [("gate", CORE + "vcs.rs check_version_control"), ("before any group", CORE + "check.rs check_all")],
  *REPORTS, ENUM, "exploration", "Complete over the states and requests, on real files and real git repositories; git2 is a stand-in over the git program." + TIER2)
P("P06", "All report formats, the summary and the exit status agree",
  "Every output format lists the same violations, in the order of files and places, whatever the order of the paths; the summary and --statistics count them. Files that cannot be read or parsed are named as errors (not in GitHub's format) while all others are still reported; JSON is always valid; the status is 255 if a file fails, else 1 if there are violations, else 0. The same holds for what is left after fixing, and the files end up the same in every format.",
  ["inputs"], "all ordered lists of up to two (thorough: three) of 24 kinds of files and names, trees of files, all corpus expressions in surroundings",
  "Tests print one file in one format.",
  [CLI + "output_format.rs", CLI + "statistics.rs", CLI + "commands/check.rs", CORE + "diagnostic.rs"], [("formats", CLI + "output_format.rs Emitter"), ("counts", CLI + "statistics.rs"), ("status", CLI + "commands/check.rs check")],
  *REPORTS, ENUM, "exploration", "Complete over the lists; the real program. The layout of the full format beyond titles, places and messages comes from a stand-in for annotate-snippets and is not judged." + TIER2)
P("P07", "Files do not affect each other",
  "What is reported for a file, what it contains after fixing or after inserting comments, and whether it fails are the same whichever other files are checked with it, in whichever order and by however many threads; a file that cannot be read or parsed is left as it is and keeps no other from being checked and fixed. (Rules about packages, which look at several files, aside.)",
  ["inputs", "schedules"], "all ordered lists of up to two (thorough: three) of 24 kinds of files, trees, all modes, one, three and eight threads, all corpus expressions in one tree",
  "Tests check one or two files in one mode.",
  [CORE + "check.rs", CORE + "fix.rs", CLI + "commands/check.rs"], [("parallel checking", CORE + "check.rs check_config"), ("inserting comments", CLI + "commands/check.rs add_jarl_ignore_comments")],
  *REPORTS, ENUM, "exploration", "Complete over the lists; the real program against itself on each file alone. Schedules are those that occur." + TIER2)
P("P08", "The published schema of jarl.toml describes what jarl accepts",
  "The JSON schema that jarl publishes for editors (artifacts/jarl.schema.json) accepts a configuration exactly if jarl accepts it, as far as names of fields and types of values go: every documented field of [lint] and of the options of rules is valid with values of its type and nothing else is, and what is not a field, in whichever spelling, is refused by both.",
  ["inputs", "configurations"], "every configuration with one or two entries: all fields, all names one step from one, all names jarl's own errors give and sixty that other tools have, 18 kinds of values, at the top, in [lint] and in the options of every rule",
  "No test compares the schema with what is accepted.",
  ["artifacts/jarl.schema.json", CORE + "toml.rs", CORE + "rule_options/assignment.rs"], [("fields", CORE + "toml.rs LinterTomlOptions"), ("published schema", "artifacts/jarl.schema.json")],
  *SETTINGS, ENUM, "exploration", "Complete over the lists; the published schema against the real program. Values that are wrong although their type is right are left out." + TIER2)
P("P09", "Warnings about deprecations are given exactly when due",
  "A report for people (full, concise) warns once that --assignment is deprecated if it is given, that the field assignment of [lint] is deprecated if a configuration in use holds it in the old form, and that a rule is deprecated if it is named where rules are selected or ignored, on the command line or in a configuration; not otherwise, and never in the reports for programs (json, github).",
  ["inputs", "configurations"], "all combinations of the option, the forms of the field in two configurations, a deprecated rule, others and groups named in eight places, four kinds of files, four formats",
  "Tests have one warning of each kind.",
  [CORE + "config.rs", CORE + "toml.rs", CLI + "commands/check.rs"], [("warnings", CORE + "config.rs"), ("report", CLI + "commands/check.rs")],
  *SETTINGS, ENUM, "exploration", "Complete over the lists; the real program." + TIER2)
P("P10", "Failing reads and writes are reported and harm nothing else",
  "If reading or writing a file fails at any point of a run (no permission, no space, an I/O error, a file that has vanished), jarl names the file in an error, exits 255 and does with every other file what it does otherwise (if only the excerpt of a report cannot be read, it says so); a configuration that cannot be read stops the run before anything is changed. Interrupted and short reads and writes make no difference. If jarl is ended between two operations while it fixes or inserts comments, every file that is not being written is whole, as before or after a pass, and the next run ends as the first would have.",
  ["inputs", "crash_points", "fault_sequences"], "all ordered pairs (thorough: triples) of eight kinds of files with four surroundings in nine modes, every operation on a file in each run, up to five outcomes each",
  "No test lets reading or writing fail.",
  [CORE + "check.rs", CORE + "toml.rs", CLI + "commands/check.rs", CLI + "output_format.rs"], [("fixing", CORE + "check.rs lint_fix"), ("inserting comments", CLI + "commands/check.rs add_jarl_ignore_comments")],
  "harness2", "faults", "complete enumeration of single faults and crash points of the real program", "fault_enumeration", "Complete over single faults at calls of open, read and write of the C library. Faults while walking through directories or reading the state of version control are outside: these are small stand-ins here." + TIER2)
P("P11", "Output that cannot be written stops no work and is no crash",
  "If writing to the standard output or error fails at any point of a run (the reader is gone as in `jarl check . | head`, no space, an I/O error), once or from then on, jarl does not panic, the files are fixed or get their comments as otherwise, and it exits as otherwise or, if the report could not be written, with 255; a failing standard error changes neither the report nor the status. Interrupted and short writes make no difference.",
  ["inputs", "fault_sequences"], "no file or all ordered pairs (thorough: triples) of eight kinds of files with three surroundings in thirteen modes, every write to either stream, up to seven outcomes each",
  "Tests always read all of the output.",
  [CLI + "commands/check.rs", CLI + "output_format.rs", CLI + "statistics.rs", CLI + "main.rs"], [("reports", CLI + "output_format.rs"), ("inserting comments", CLI + "commands/check.rs add_jarl_ignore_comments")],
  "harness2", "faults", "complete enumeration of single and lasting faults of output of the real program", "fault_enumeration", "Complete over single and lasting faults at calls of write and writev of the C library." + TIER2)
P("P12", "Colours and links only decorate the report",
  "For every set of files, output format and way of fixing: with NO_COLOR unset the output without its colours and links, the exit status and the files left are those with NO_COLOR=1, and in the full and concise formats each violation's rule name, and nothing else, links to that rule's page on https://jarl.etiennebacher.com/rules/. With NO_COLOR set to a value, even if CLICOLOR_FORCE is set too, nothing has an escape sequence, and reports in JSON and for GitHub never have one.",
  ["inputs", "configurations"], "all ordered lists of up to two (thorough: three) of 25 kinds of files, five formats, seven modes, six environments; every expression of the rules' tests as a tree",
  "Tests run with NO_COLOR only.",
  [CLI + "output_format.rs", CLI + "statistics.rs", CLI + "commands/check.rs"], [("links", CLI + "output_format.rs make_hyperlink"), ("emitters", CLI + "output_format.rs FullEmitter, ConciseEmitter, JsonEmitter, GithubEmitter")],
  "harness2", "reports", ENUM, "exploration", "Complete over the lists; the colours themselves come from a stand-in for the crate." + TIER2)
P("P13", "Threads, logs, timing and the environment change no result",
  "For every set of files, output format and way of fixing, the report, the exit status and the files left are the same whatever the number of threads, the log level, `--with-timing`, locale, time zone, terminal, backtrace or CI variables. Logs only add lines to the standard error, and timing one note to the full and concise formats.",
  ["inputs", "configurations"], "all ordered lists of up to two (thorough: three) of 24 kinds of files, with and without a configuration further up, five formats, seven modes, fourteen surroundings",
  "Tests run in one environment, without logs or timing.",
  [CLI + "commands/check.rs", CLI + "output_format.rs", CLI + "logging.rs", CORE + "check.rs"], [("logging", CLI + "logging.rs init_logging"), ("notes", CLI + "commands/check.rs check"), ("parallel checking", CORE + "check.rs")],
  "harness2", "reports", ENUM, "exploration", "Complete over the lists for each surrounding; the order in which threads run is that of the machine." + TIER2)
PACKAGES = ("harness2", "packages")
P("N01", "A function reported as unused is neither used nor exported",
  "With unused_function, a function of an R package is reported only if nothing in R/, src/, tests/, inst/tests or inst/tinytest mentions it (or, if it is defined in one of the last three, nothing in that directory) and NAMESPACE does not export it, directly, by a pattern or as a method, and it cannot be a method of a generic that the package uses; one that is simply defined and never mentioned is reported. It does not matter where the package lies, which of its files are checked, or from where; above the threshold nothing is reported unless the rule is selected by name.",
  ["inputs", "configurations"], "all pairs of 42 ways to use a function and 17 places, names and definitions in turn, 22 ways to export it, four surroundings of the package, nested packages, 16 ways to name the files, thresholds by counts by selections",
  "Tests have a few packages with one use each.",
  [CORE + "package.rs", CORE + "lints/base/unused_function/unused_function.rs"], [("cross-file analysis", CORE + "package.rs compute_package_analysis"), ("NAMESPACE", "unused_function.rs parse_namespace_exports"), ("symbols", "unused_function.rs scan_symbols")],
  *PACKAGES, ENUM, "exploration", "Complete over the lists; the real program on real packages." + TIER2)
P("N02", "Functions defined twice in a package are all reported, once each",
  "With duplicated_function_definition, a function that is defined k times in the files directly in R/ of a package is reported k-1 times, each at one of its definitions and naming the place of another; definitions elsewhere, in subdirectories, nested ones and other assignments do not count. Whichever of the files are checked, from wherever, the reports for each file are the same.",
  ["inputs"], "all ways to place up to seven definitions of two functions in five files, in four forms, among 14 other lines, and 11 ways to name the files",
  "Tests have two files with one function each.",
  [CORE + "package.rs", CORE + "lints/base/duplicated_function_definition/duplicated_function_definition.rs"], [("cross-file analysis", CORE + "package.rs compute_package_analysis"), ("definitions", "duplicated_function_definition.rs scan_top_level_assignments")],
  *PACKAGES, ENUM, "exploration", "Complete over the placements (quick: every fifth with each surrounding); the real program on real packages." + TIER2)
P("N04", "After fixing a package, jarl reports where things are then",
  "With --fix, with or without --unsafe-fixes, what `jarl check` says about a package, including functions that are unused or defined twice, is about the files as they are afterwards: every report is one that `jarl check` without fixing gives right after, with the same place and message; those about functions are all there, and with --unsafe-fixes all reports are.",
  ["inputs"], "all packages with up to three of ten parts in one file and up to two in another; the parts have violations whose fixes shift, join or remove lines, definitions and suppression comments; two modes",
  "Tests fix files without looking at the reports about packages.",
  [CORE + "check.rs", CORE + "package.rs", CORE + "fix.rs"], [("fixing rounds", CORE + "check.rs lint_fix, check_config"), ("cross-file analysis", CORE + "package.rs compute_package_analysis")],
  *PACKAGES, ENUM, "exploration", "Complete over the packages (quick: every fifth); the real program on real packages, compared with itself run again." + TIER2)
FLOW = ("harness2", "flow")
P("N03", "Code reported as unreachable cannot run, and what cannot run is reported",
  "With unreachable_code, what is reported are whole statements or a branch that no execution can reach; and every statement that no execution reaches is reported, if every condition that is not constant can be either, every loop can be left and only return() in a function, the configured stopping functions, break and next in a loop end a sequence. The reason that is given is the right one.",
  ["programs"], "all programs of up to four (thorough: five) statements out of calls, return(), stopping functions, break, next, if and if/else with open and constant conditions, loops and functions, in a function or at the top level, in many spellings",
  "Tests have one program for each kind of statement.",
  [CORE + "lints/base/unreachable_code/cfg/builder.rs", CORE + "lints/base/unreachable_code/cfg/reachability.rs", CORE + "lints/base/unreachable_code/unreachable_code.rs"], [("control flow graph", "cfg/builder.rs CfgBuilder"), ("reachability", "cfg/reachability.rs find_unreachable_code")],
  *FLOW, "explicit-state exploration of every enumerated program by a small-step semantics, compared with what the real rule reports", "model_checking", "Complete over the programs; the model is the semantics of the statements, bound to the rule by comparing every statement of every program." + TIER2)
