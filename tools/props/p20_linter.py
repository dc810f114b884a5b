CORE, LSP, CLI = "crates/jarl-core/src/", "crates/jarl-lsp/src/", "crates/jarl/src/"
STAND = "Runs the whole real linter over stand-ins for the missing parser, file walk and command-line crates (see DESIGN.md)."
PROPS = [
 dict(id="C20", title="Linting terminates without a crash or an error on every R program",
  statement="For every text that is valid R code, linting it with all rules ends with a list of diagnostics: it never panics, overflows the stack, hangs or aborts with an error in a rule, whatever the shape of the calls, literals, operators, names, comments and white space in it. For a text that is not valid R code the result is a parse error and nothing else, and it affects no other file.",
  over=["inputs"], quantifier="all texts, valid R or not", why="Each rule's tests hold the few shapes its author thought of; the unusual ones (empty arguments, hexadecimal numbers, reserved words called as functions, named or piped arguments) are unbounded.",
  files=[CORE+"lints", CORE+"check.rs", CORE+"analyze", CORE+"utils.rs"], mechanism=[("rules on every node kind", CORE+"lints"), ("file check", CORE+"check.rs")], observe=["outcome of linting a text: diagnostics, error or crash"],
  note="Generated programs cover every rule's vocabulary with random mutations and reduced failing inputs. "+STAND),
 dict(id="C21", title="Every diagnostic points exactly at the code it is about",
  statement="Every diagnostic's range lies within the file on character boundaries, is not empty unless the file is, and covers whole tokens; the row and column reported for it are those of its first character counted in characters from the start of the file, also for multi-byte characters, CRLF line ends, leading blank lines and code inside chunks of R Markdown files.",
  over=["inputs"], quantifier="all R programs and R Markdown/Quarto files that lint", why="Tests look at ASCII snippets; offsets, rows and columns go wrong with multi-byte characters, line ends and chunk offsets.",
  files=[CORE+"utils.rs", CORE+"check.rs", CORE+"diagnostic.rs", CORE+"rmd"], mechanism=[("location of diagnostics", CORE+"utils.rs"), ("chunk offset remapping", CORE+"check.rs")], observe=["range, row and column of each diagnostic"],
  note="Rows and columns are recounted from the text, tokens come from an independent tokenizer. One known finding about a column (see known_findings.json). "+STAND),
 dict(id="C24", title="Applying fixes changes exactly the reported code and keeps it valid",
  statement="Each pass of applying fixes replaces exactly the ranges of non-overlapping fixable diagnostics by their replacements and leaves every other byte as it was. The result is valid R whose structure is that of the original with each replaced expression put in as one unit, so that operators around or inside the replaced code keep their operands, and no comment is lost. Applying fixes terminates.",
  over=["inputs"], quantifier="all R programs, all subsets of rules", why="Tests apply one fix to one short line; precedence, overlap, several fixes on a line, comments and multi-byte text need combinations.",
  files=[CORE+"fix.rs", CORE+"utils.rs", CORE+"lints", CORE+"check.rs"], mechanism=[("fix application", CORE+"fix.rs"), ("replacement text", CORE+"lints"), ("repeated passes", CORE+"check.rs")], observe=["text before and after each pass and each single fix"],
  note="Replacement is checked structurally by an independent parser with every replaced expression in parentheses as reference. "+STAND),
 dict(id="C22", title="Suppression comments hide exactly what they say and nothing else",
  statement="A '# jarl-ignore <rule>: <reason>' comment above a statement hides only that rule's diagnostics within that statement; a start/end pair at the same nesting level hides them between the two; a file comment before any code (in R Markdown: in the first chunk) hides them in the whole file; a chunk option list in its chunk. End-of-line, blanket, unexplained, misnamed, misplaced, unmatched and single-line chunk comments hide nothing and each is reported at the comment. Suppressions that hide nothing are reported as outdated and those that are needed are not. All other diagnostics are the same as without any such comment.",
  over=["inputs"], quantifier="all programs with any number of suppression comments of any kind anywhere", why="Tests place one comment in one short snippet; nesting, overlap, several rules, several kinds at once and chunk borders are unbounded.",
  files=[CORE+"suppression.rs", CORE+"directive.rs", CORE+"check.rs", CORE+"lints/comments"], mechanism=[("suppression lookup", CORE+"suppression.rs"), ("directive parser", CORE+"directive.rs"), ("filtering and reports", CORE+"check.rs")], observe=["diagnostics with and without the comments"],
  note="The reference is a lint of the same text with the comments neutralised, filtered by a separate model of the documented rules. A comment at the very end of a block is outside the domain (its meaning is not documented). "+STAND),
 dict(id="C23", title="--add-jarl-ignore adds only comments and silences every diagnostic",
  statement="Running with --add-jarl-ignore[=REASON] only inserts '# jarl-ignore <rule>: <reason>' comments and white space: the code keeps its structure and existing comments, afterwards no diagnostic is left except those about suppression comments, none of which is new but for comments that are not needed, the reported number of comments is the number inserted, and a file with nothing to report is not touched. A reason with which comments would have no effect (an empty one, one of several lines) is refused, and nothing is changed.",
  over=["inputs"], quantifier="all R programs with any mix of diagnostics and rules", why="Where a comment has to be put depends on the nesting of the reported code (arguments, operators, pipes, one-line blocks, strings over several lines), which tests only sample.",
  files=[CORE+"suppression_edit.rs", CORE+"suppression.rs", CLI+"commands/check.rs"], mechanism=[("insertion points and edits", CORE+"suppression_edit.rs"), ("command", CLI+"commands/check.rs")], observe=["file before and after", "diagnostics afterwards", "exit code and message"],
  note="Runs the real command on files in a scratch directory. One known finding (see known_findings.json). "+STAND),
 dict(id="C25", title="Fixes are applied only when, where and as far as the user allows",
  statement="Files are only changed by --fix, --unsafe-fixes, --fix-only or --add-jarl-ignore. Fixes are refused, with an error and without changing anything, if a file is in no version control and --allow-no-vcs is missing or a repository has uncommitted changes (tracked or not, anywhere in it, worktrees and nested repositories included) and --allow-dirty is missing; the error says which, and names the changed files. Otherwise each R file ends up as the selected rules' safe fixes (unsafe ones only with --unsafe-fixes), restricted by 'fixable' and 'unfixable' of the nearest jarl.toml, make of it; R Markdown, unparsable and other files stay as they are, no file is created or removed, and what is reported, also by the exit code, is what is left.",
  over=["inputs", "histories"], quantifier="all projects, flags, settings and version control states", why="Tests try a few flags on one file; the combinations of flags, settings, several configurations and repository layouts are many, and a wrong one destroys work.",
  files=[CORE+"vcs.rs", CORE+"config.rs", CORE+"check.rs", CLI+"commands/check.rs"], mechanism=[("version control", CORE+"vcs.rs"), ("flags and settings", CORE+"config.rs"), ("fix loop", CORE+"check.rs"), ("groups of files", CLI+"commands/check.rs")], observe=["all files before and after a run", "report", "exit code"],
  note="Runs the real command in scratch projects with real git repositories (git2 is a stand-in over the git command). "+STAND),

 dict(id="C27", title="The rules in use are exactly those the user selected",
  statement="The rules that are run are those of --select, else of 'select' in jarl.toml, else the default ones; plus those of --extend-select, else of 'extend-select'; minus those of --ignore and of 'ignore'; minus those that need a newer R than --min-r-version, else the DESCRIPTION of the package, guarantees (without either: all rules that need some version). ALL, groups and names mean the rules of the documented table; an item that names none is refused with an error that shows it, and nothing is linted. Leaving out rules leaves out only their own reports.",
  over=["inputs"], quantifier="all selections by flags and settings, all DESCRIPTION files and versions", why="Tests check single flags; what they do in combination with each other, the settings and versions is a product of many cases.",
  files=[CORE+"config.rs", CORE+"rule_set.rs", CORE+"description.rs", CORE+"toml.rs"], mechanism=[("rule selection", CORE+"config.rs"), ("groups", CORE+"rule_set.rs"), ("minimum version", CORE+"description.rs")], observe=["set of rules of a configuration", "diagnostics of the real command", "refusals"],
  note="The expected set is computed from the table of docs/rules.qmd. "+STAND),
 dict(id="C28", title="Exactly the files meant are linted, with the settings of their jarl.toml",
  statement="Of the paths given, files are linted, and in folders all R, R Markdown and Quarto files that are not hidden, git-ignored (by .gitignore, .git/info/exclude or the user's ignore file) or excluded by 'exclude' and the default patterns (unless switched off), and that 'include', if given, names; each once however it is reached, and however the path is written or from wherever jarl runs. Each file is linted with the settings of the nearest jarl.toml or .jarl.toml in its folder or above, else those of the user's configuration folder, else the defaults; patterns are relative to the folder of their jarl.toml. A configuration that applies and cannot be read or understood ends the run with an error.",
  over=["inputs"], quantifier="all project layouts, configurations, patterns, arguments and working directories", why="Tests use one or two files and one configuration; nesting, several roots, negations and overlapping patterns are unbounded.",
  files=[CORE+"discovery.rs", CORE+"settings.rs", CORE+"toml.rs", CORE+"fs.rs", CLI+"commands/check.rs"], mechanism=[("discovery", CORE+"discovery.rs"), ("settings of a file", CORE+"settings.rs"), ("jarl.toml", CORE+"toml.rs")], observe=["file and rules of each diagnostic of the real command", "exit code"],
  note="Each file has one line for each of the rules that tell the configurations apart; git patterns are matched by an independent matcher. A folder named on the command line that is itself ignored or excluded is outside the domain. "+STAND),
 dict(id="C29", title="Runs are repeatable and files do not influence each other",
  statement="Running the same command on the same files gives the same output, exit code and resulting files byte by byte, whatever the number of threads, the order in which the file system lists files and the order of the arguments. Outside packages the diagnostics of a file are the same whether it is checked alone or with any other files, also if those cannot be parsed.",
  over=["inputs", "schedules"], quantifier="all projects and flags, all interleavings of threads and orders of the file walk", why="A test runs once in one order; dependence on hash seeds, threads or neighbours shows only now and then.",
  files=[CORE+"check.rs", CORE+"diagnostic.rs", CLI+"commands/check.rs", CLI+"statistics.rs", CLI+"output_format.rs"], mechanism=[("parallel check", CORE+"check.rs"), ("order of reports", CLI+"output_format.rs")], observe=["output, exit code and files of repeated runs with other thread counts and walk orders"],
  note="The stand-in for the file walk shuffles its order by a seed; each process has new hash seeds. "+STAND),
 dict(id="C30", title="All output formats report every diagnostic, and the exit code tells the result",
  statement="JSON, concise, GitHub, full and statistics output each contain exactly the diagnostics there are, with the same file, place, rule and message, in one order, and are well formed for every file name and message (valid JSON also when nothing is found, one line per diagnostic and workflow command, with special characters escaped). The summary counts and the counts by rule are right. Colours and links change nothing else in the text, and each link leads to the page of the rule it is on. A file that cannot be parsed or read is named, except in the GitHub format. The exit code is 0 when there is nothing to report, 1 with diagnostics, and another one when any file failed.",
  over=["inputs"], quantifier="all projects, formats, file names and messages", why="Tests look at one or two diagnostics in ASCII files; what breaks are odd names, several lines, errors next to diagnostics and empty results.",
  files=[CLI+"output_format.rs", CLI+"statistics.rs", CLI+"commands/check.rs", CLI+"status.rs"], mechanism=[("formats", CLI+"output_format.rs"), ("counts by rule", CLI+"statistics.rs"), ("exit code", CLI+"commands/check.rs")], observe=["standard output, error and exit code in each format"],
  note="The reference is a lint of each file in the same process through the library. "+STAND),
 dict(id="C35", title="Options of single rules do what they say",
  statement="The lists of functions of duplicated_arguments, implicit_assignment, unreachable_code and undesirable_function in jarl.toml replace the documented default lists, their 'extend-' forms add to them, and a function is affected exactly if its name is in the list, with or without a package prefix; 'assignment' (by --assignment, a table, or the old single value) decides which operator is reported. Both forms together, unknown fields and values of the wrong kind are refused with an error that names them.",
  over=["inputs"], quantifier="all rule options and calls", why="Tests try one list each; names that contain each other, empty lists, prefixes and combinations are not tried.",
  files=[CORE+"rule_options", CORE+"toml.rs", CORE+"lints"], mechanism=[("options", CORE+"rule_options"), ("use in rules", CORE+"lints")], observe=["rule and line of each diagnostic under a configuration", "refusals"],
  note="Programs are generated with the lines each option must and must not report. "+STAND),
 dict(id="C32", title="In packages exactly unused and repeated function definitions are reported",
  statement="In a package, a function defined at top level in R/ is reported as unused exactly if it is neither exported by NAMESPACE (in any layout it allows), a hook, a method of a generic the package mentions, nor skipped by the settings, and its name occurs nowhere else in R/, tests/, inst/tinytest/, inst/tests/ or src/ apart from comments; one defined in tests/ or inst/ exactly if it is not used there. Every definition in R/ after the first of its name is reported and refers to that first one. Excluded files count as uses, other packages do not, and the place of the package, the working directory and fixes applied in the same run make no difference. Above 'threshold-ignore' findings all are hidden unless the rule is selected by name.",
  over=["inputs"], quantifier="all packages, namespaces, settings and working directories", why="Both rules look at all files of a package at once; tests use two or three short ASCII files.",
  files=[CORE+"package.rs", CORE+"lints/base/unused_function", CORE+"lints/base/duplicated_function_definition", CLI+"commands/check.rs"], mechanism=[("package scan", CORE+"package.rs"), ("unused functions", CORE+"lints/base/unused_function/unused_function.rs"), ("repeated definitions", CORE+"lints/base/duplicated_function_definition/duplicated_function_definition.rs"), ("threshold", CLI+"commands/check.rs")], observe=["diagnostics of the real command on scratch packages"],
  note="Packages are generated from definitions and uses, so the expected report is known without reading R code. Definitions that are not at the start of a line are outside the domain (documented limitation). "+STAND),
 dict(id="C33", title="The editor shows exactly what the linter finds in the last saved text",
  statement="For every history of opening, changing, saving and closing documents and editing configuration files, the diagnostics the language server publishes for a document after a save are exactly those the linter finds, with the settings that apply to the file, in the text saved, each at its place in the position encoding agreed on; a later save is never followed by the result of an earlier one, a closed document keeps no diagnostics, files the settings exclude have none, text that cannot be parsed has none, and package rules see the other files of the package.",
  over=["inputs","histories","schedules"], quantifier="all histories of several documents and every timing of the background work", why="What is shown depends on histories and on background threads; the tests send one or two messages.",
  files=[LSP+"server.rs", LSP+"lint.rs", LSP+"session.rs", LSP+"document.rs"], mechanism=[("main loop and tasks", LSP+"server.rs"), ("linting of a document", LSP+"lint.rs"), ("documents and settings", LSP+"session.rs")], observe=["publishDiagnostics notifications of the real server on an in-memory connection"],
  note="The expected diagnostics are computed by the linter itself on the recorded text and converted to positions by the monitor's own code; settings are generated, so the selected rules and exclusions are known. "+STAND),
 dict(id="C34", title="Code actions do what they say and every request gets one response",
  statement="For every document, position, range and set of diagnostics, a quick fix offered by the language server changes the text exactly as the fix of its diagnostic does; each diagnostic that comments can suppress, and no other, has an action that does so: it inserts only comments, silences the diagnostic and no diagnostic of another rule, and leaves the parsed code alone, in R files and in R Markdown chunks; every request is answered exactly once, whatever its parameters and also after shutdown, notifications never are, and the server ends with status 0 after shutdown and exit and with an error status on exit without shutdown.",
  over=["inputs","histories"], quantifier="all documents, diagnostics and message sequences", why="Edits have to fit any text at any place; tests apply a few actions to short lines.",
  files=[LSP+"server.rs", LSP+"lint.rs", CORE+"suppression_edit.rs", LSP+"client.rs"], mechanism=[("code actions", LSP+"lint.rs"), ("suppression edits", CORE+"suppression_edit.rs"), ("requests and shutdown", LSP+"server.rs")], observe=["responses of the real server on an in-memory connection, edits applied by the monitor"],
  note="Actions are applied to the document by the monitor's own position conversion and the result is linted and parsed again. "+STAND),
 dict(id="C31", title="Code is reported as unreachable exactly if no execution reaches it",
  statement="For every function body and every top-level code, unreachable_code reports whole statements that no execution reaches, whatever the conditions that are not constant turn out to be and however often loops run, and it reports all of them (except within a bare block used as a statement): statements after return(), break, next or a call that stops, in branches with a constant condition, and after if/else or blocks that terminate in all ways. It says why, once per piece of code, and it takes the stopping functions from the configuration. The mere name of such a function (return, stop) or a call of something else does not end anything.",
  over=["inputs"], quantifier="all nestings of if, else, loops, blocks, functions and terminating calls", why="Reachability is a property of paths; tests hold about one path each, and combinations (constant conditions, terminating branches, loops in functions in loops) are unbounded.",
  files=[CORE+"lints/base/unreachable_code", CORE+"analyze"], mechanism=[("control-flow graph", CORE+"lints/base/unreachable_code/cfg.rs"), ("reports", CORE+"lints/base/unreachable_code/unreachable_code.rs")], observe=["diagnostics of unreachable_code, as sets of statements with their reason"],
  note="The reference is an executor of the generated program that takes both ways at every unknown condition and runs loops any number of times; diagnostics are matched to the statements of the program. "+STAND),
 dict(id="C36", title="What is reported does not depend on layout, place or unrelated code",
  statement="A program in another layout (line breaks where R ignores them, spaces, line ends) gets the same diagnostics at the same tokens, and the fix of each makes the same program of it. An expression that is linted gets the same diagnostics wherever else in the code it stands: in a function, a loop, a branch, an argument, an index, a default value, on either side of an operator. Statements of no concern to it, before or after, change nothing about it, and diagnostics of several statements are those of each.",
  over=["inputs"], quantifier="all R programs, layouts and places", why="Tests write each pattern once on one line at top level; rules that compare text, or walks that skip a kind of node, fail only elsewhere.",
  files=[CORE+"analyze", CORE+"lints", CORE+"utils.rs", CORE+"check.rs"], mechanism=[("walk over expressions", CORE+"analyze/expression.rs"), ("comparisons of code", CORE+"utils.rs"), ("rules", CORE+"lints")], observe=["diagnostics of pairs of texts as rule, tokens, message and program after the fix"],
  note="Metamorphic: both sides are the real linter's; rules about comments, files, packages and sequences of statements are compared only where their concern is kept. "+STAND),
 dict(id="C26", title="A fix makes what its rule documents, and loses nothing",
  statement="The code a fix leaves is equivalent, by what the rule documents, to the code it found: arguments are matched to parameters as R does (by name, then by position, the piped one first), whatever their order, names, quotes and number, and every argument, operator, negation and operand of the original is found again in the replacement in the place that means the same. Where the code of the rule's pattern has anything that the replacement could not carry over, no fix is offered. The fixed code calls no function with arguments that R would reject where the original was fine.",
  over=["inputs"], quantifier="all R expressions for which a rule offers a fix", why="Tests write the arguments of each pattern in the usual order without names; extra, named, reordered, duplicated, missing, piped and `...` arguments are where code is silently dropped or swapped.",
  files=[CORE+"lints", CORE+"utils.rs", CORE+"analyze"], mechanism=[("argument helpers", CORE+"utils.rs"), ("rules", CORE+"lints"), ("fix application", CORE+"fix.rs")], observe=["the replacement of every fix, in its place, and a normal form of the code before and after it"],
  note="Normal forms are computed from the syntax tree by an independent matcher of arguments and one documented equivalence per rule; code whose meaning the form cannot settle (constants compared with constants, partially matched names, ...) is counted as unclear and not judged. length_test is not judged (known finding of C24). "+STAND),
 dict(id="C37", title="Each rule reports the code it documents, all of it and nothing else",
  statement="For each rule about expressions, code of the shape that its documentation describes as a problem is reported by that rule, once and at the place of that code, whatever the operands are (names, calls, strings, functions, conditions, non-ASCII text), with arguments in the order or under the names R accepts, in functions, loops, blocks and at top level; and code of a similar shape that the documentation does not describe (another operator, another function, an additional argument that changes the meaning, operands swapped) is not reported by it. Where no comment is in the way, a report of a rule that is documented to have a fix comes with one, safe or not as documented, unless the fix would change the meaning, and one of another rule never does. For sprintf(), whether a format is invalid, constant, or takes another number of arguments than are given follows from the format as R defines it.",
  over=["inputs"], quantifier="all operands, names and formats in the shapes of each rule", why="Tests give each shape with one name or literal; a condition dropped or added in a rule shows only with another kind of operand or a near miss.",
  files=[CORE+"lints", CORE+"utils.rs", CORE+"analyze"], mechanism=[("rules", CORE+"lints"), ("dispatch of nodes to rules", CORE+"analyze"), ("arguments of calls", CORE+"utils.rs")], observe=["the ranges each rule reports in the text"],
  note="Oracle: a table of more than a thousand patterns with holes, written from the documentation, each saying what is reported, where, or that nothing is. "+STAND),
 dict(id="C38", title="What the command says about its own run is what it did",
  statement="In the full and concise formats, the summary gives the number of diagnostics, of those with a safe fix and of those with an unsafe one, and a hint when there are more than the limit; there is exactly one warning for each deprecated rule that the user names in an option or in a jarl.toml that is used, for each deprecated option, and for unused functions that are hidden because there are more than the threshold (with their number); the notes give the time if it is asked for, and the jarl.toml that was used if there is exactly one and it is not in the current folder (so do --statistics and --add-jarl-ignore). Nothing of that is printed in the json and github formats, nor on stderr unless a file has an error; 'All checks passed!' is said exactly if nothing was found and no file has an error, and 'No R files found' exactly if there was nothing to check.",
  over=["inputs"], quantifier="all projects, configurations, working folders, path arguments and options", why="The messages depend on combinations of options, configurations and numbers; tests show a few of them as snapshots.",
  files=["crates/jarl/src/commands/check.rs","crates/jarl/src/output_format.rs","crates/jarl/src/statistics.rs",CORE+"toml.rs"], mechanism=[("sections", "crates/jarl/src/commands/check.rs"), ("summary", "crates/jarl/src/output_format.rs"), ("deprecated syntax", CORE+"toml.rs")], observe=["stdout, stderr and exit code of the command in each format"],
  note="Oracle: the lines that follow from the diagnostics in JSON, the options and the configurations on the way to each path. "+STAND),
 dict(id="C39", title="An R Markdown or Quarto document is linted as the code of its chunks",
  statement="What is reported in a document is exactly what is reported in the code of each of its R chunks when that is an R file of its own, with the same rules and options, at the place where that code is in the document: each chunk counts whatever the prose, front matter, chunk options, fences, indentation, line endings and other chunks around it are; a chunk that is no valid R is left out and changes nothing for the others; what is in blocks of other languages, display blocks, tilde fences and prose is not looked at. Nothing in a document comes with a fix.",
  over=["inputs"], quantifier="all documents, chunks, surroundings, selections of rules and options", why="Tests lint a handful of documents with one or two chunks and one rule; what one chunk does to another shows only in combinations.",
  files=[CORE+"check.rs", CORE+"rmd/extraction.rs"], mechanism=[("linting of documents", CORE+"check.rs"), ("chunks", CORE+"rmd/extraction.rs")], observe=["the diagnostics of a document and of its chunks"],
  note="Oracle: the linter itself on each chunk as an R file; where the chunks are is known from how the document was made. "+STAND),
 dict(id="C40", title="What the language server announces is what it does",
  statement="In every session of the program `jarl server`: the version it gives is that of the command; the position encoding it announces is one the client offered, or UTF-16, and is the one used in what it publishes; a client that does what the announced capabilities ask for (open and close notifications, changes in the announced form, notifications of saves) gets its diagnostics at every save, with the version of the document; requests of announced capabilities are answered, code actions have the announced kinds and are complete, and other requests are refused as unknown. The user is told once per session, when the first such document is opened, that its configuration comes from a folder other than the working directory, with its path; unused_function diagnostics are hidden exactly when the package has more than the threshold and the rule is not named in the configuration, and their number is told once per session. There are no other messages.",
  over=["inputs","histories"], quantifier="all clients, projects, configurations, working directories and histories of a session", why="Messages and capabilities depend on the history and on what the client sent; the tests check the announced structure and call the functions one by one.",
  files=[LSP+"session.rs", LSP+"server.rs", LSP+"client.rs", LSP+"lint.rs"], mechanism=[("capabilities and configuration message", LSP+"session.rs"), ("hidden diagnostics", LSP+"lint.rs"), ("once per session", LSP+"client.rs")], observe=["every message the program writes to its standard output"],
  note="The monitor is a client that obeys what is announced; what it should be told follows from the generated packages, configurations and the history. "+STAND),
]
