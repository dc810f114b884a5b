CORE, LSP, CLI = "crates/jarl-core/src/", "crates/jarl-lsp/src/", "crates/jarl/src/"
PROPS = [
 dict(id="C01", title="Suppression comments mean exactly what the documentation says",
  statement="For every comment text, the reader of suppression comments answers exactly one of: not a suppression, a suppression of one documented rule for the next expression, the file, the chunk, or a region start or end, a blanket suppression, a missing reason, or an unknown rule, as the documented grammar says. Only a documented rule name followed by a colon and a non-blank reason suppresses (the end marker needs no reason); `#|` comments only ever suppress for the chunk. No text makes it crash.",
  over=["inputs"], quantifier="all comment texts, including Unicode white space, near-miss keywords and rule names",
  why="The unit tests sample a few dozen spellings; the grammar is a product of markers, keywords, delimiters, 64 rule names and reasons, and near-misses are where a reader goes wrong.",
  files=[CORE+"directive.rs", CORE+"rule_set.rs"], mechanism=[("comment directive parser", CORE+"directive.rs")], observe=["the parsed directive of a comment"],
  note="Explores all combinations of small sets and millions of random texts per run; the oracle is a second reader of the grammar that shares no code; rule names come from docs/rules.qmd."),
 dict(id="C02", title="Quarto chunk-option suppressions are recognised exactly",
  statement="A line is the header of a chunk-level suppression list exactly when, apart from surrounding white space, it is `#| jarl-ignore-chunk:`. A line is an item of such a list exactly when it is `#|`, optional blanks, a dash, at least one blank and a rule; it then suppresses that rule if the name is documented and a non-blank reason follows a colon, and otherwise reports the missing reason or unknown rule. No text makes either crash.",
  over=["inputs"], quantifier="all lines of text", why="Tests cover a handful of headers and items; indentation, dash spacing and near-miss headers form an unbounded input space.",
  files=[CORE+"directive.rs"], mechanism=[("array header and item readers", CORE+"directive.rs")], observe=["whether a line is a header, and what an item suppresses"],
  note="Exhaustive over small sets plus random lines, against an independent character-level reader."),
 dict(id="C03", title="R chunks of R Markdown and Quarto files are found exactly and in place",
  statement="In every text, the R code found is exactly the content of the closed fenced chunks whose opening line, after optional spaces or tabs, has three or more backticks directly followed by `{r}` or `{R}` with optional options after a blank or comma, up to the first following line consisting of the same number of backticks. Each chunk's code is byte-for-byte the slice of the file starting at the reported offset, chunks come in file order without overlap, and chunks of other engines, plain code blocks and unclosed chunks yield nothing.",
  over=["inputs"], quantifier="all texts, with LF or CRLF line ends and any characters", why="Tests try some ten documents; offsets and fence matching depend on arbitrary content between fences, multi-byte characters, line ends and nesting.",
  files=[CORE+"rmd/extraction.rs"], mechanism=[("line-by-line fence state machine and byte offset tracking", CORE+"rmd/extraction.rs")], observe=["the list of chunks with code and start offset"],
  note="Compares with a line-based model that uses no regular expression and checks every slice against the file."),
 dict(id="C04", title="The rule registry agrees with the published rule table",
  statement="The set of rules the linter knows is exactly the table in the documentation: same names, each once, with the documented groups, fix status (safe, unsafe or none), default status and minimum R version, and only the documented deprecation. Looking a rule up by name, filtering by group, fix status or default status, and converting groups to and from text give exactly the documented answers, and near-miss names are unknown. Sets of rules keep exactly the rules put into them under construction, filtering and membership tests.",
  over=["inputs", "configurations"], quantifier="all rules, groups and statuses, all names looked up, all sequences of rule-set operations", why="The tests check a few rules and counts by hand; nothing compares all 64 rules with the documentation or tries unknown names and operation sequences.",
  files=[CORE+"rule_set.rs", "docs/rules.qmd"], mechanism=[("rule declaration table", CORE+"rule_set.rs"), ("rule reference table", "docs/rules.qmd")], observe=["rule attributes, lookups, filters and set contents"],
  note="The rule part is exhaustive; lookups and set operations are explored randomly."),
 dict(id="C05", title="The R version a package requires is read correctly from DESCRIPTION",
  statement="For every well-formed DESCRIPTION file, the versions read are exactly those that its Depends field demands of R itself with `>=`, `>` or `==`, in order, whatever the spacing, line folding, line ends, position of the field and other fields; upper bounds, R without a version and packages whose name merely starts with R contribute nothing. No text, well-formed or not, makes the reader fail or crash.",
  over=["inputs"], quantifier="all well-formed DESCRIPTION files (exact answer) and all texts (no crash)", why="The tests hold seven files; spacing, folding, decoys in other fields and damaged files are unbounded.",
  files=[CORE+"description.rs"], mechanism=[("DCF field reader", CORE+"description.rs"), ("dependency splitter", CORE+"description.rs")], observe=["the list of versions"],
  note="Files are generated from the requirements they state, so the expected answer is known without parsing; damaged variants are checked for crashes only."),
 dict(id="C06", title="Positions and byte offsets convert exactly in every negotiated encoding",
  statement="For every text with LF or CRLF lines and each of UTF-8, UTF-16 and UTF-32, a position (line, column in code units) maps to the byte offset of that character, columns past the end of a line map to the end of the line before its line break, and lines that do not exist or columns inside a character are refused. Every offset on a character boundary maps back to its position and every other offset is refused, without ever crashing.",
  over=["inputs", "configurations"], quantifier="all texts, positions, offsets and the three encodings", why="Tests use ASCII lines and one emoji; the result depends on the mix of 1-4 byte characters, surrogate pairs, line ends and out-of-range values.",
  files=[LSP+"document.rs"], mechanism=[("line table and unit counting", LSP+"document.rs")], observe=["offset of a position, position of an offset, number of lines"],
  note="All positions and offsets of each generated text are tried in all encodings against a model that counts from scratch."),
 dict(id="C07", title="Document edits are applied in order, atomically and with the right version",
  statement="After each change notification the server's copy of a document equals the editor's: every change is applied to the result of the previous one, a change without a range replaces everything, and the version becomes the notification's. If any change of a notification is invalid, the notification is refused and text, version and line table stay as they were. Position lookups after an edit agree with a fresh document of the same text.",
  over=["histories", "inputs"], quantifier="all sequences of notifications with any number of changes, in all encodings", why="Tests apply one or two ASCII edits; drift appears only over histories of dependent multi-byte edits and invalid changes.",
  files=[LSP+"document.rs"], mechanism=[("change application on a copy", LSP+"document.rs"), ("line table rebuild", LSP+"document.rs")], observe=["text, version and line count after each notification"],
  note="Random editing sessions replayed on a character-list model, with hostile positions in a quarter of the notifications."),
 dict(id="C08", title="Messages to the editor are neither lost, duplicated, reordered nor mixed up",
  statement="When several threads send notifications, requests, responses and errors through clones of one connection handle, every message reported as sent arrives exactly once, unchanged, and in the order its thread sent them, and every request carries an id never used before. Once the editor is gone, sending reports an error instead of blocking, crashing or claiming success. The once-per-session notice is sent by at most one of them, once.",
  over=["schedules", "histories", "fault_sequences"], quantifier="all interleavings of any number of sending threads and any moment of disconnection", why="The tests are single-threaded and never look at what arrives; uniqueness and at-most-once only matter under concurrent schedules and disconnects.",
  files=[LSP+"client.rs"], mechanism=[("atomic id counter, pending map lock, once flag", LSP+"client.rs")], observe=["messages received on the connection; result of every send"],
  technique="offline checker over recorded message logs of stressed multi-threaded sessions", note="Explores thousands of real interleavings per run with injected yields, rendezvous channels and receivers that vanish; counts distinct interleavings."),
 dict(id="C09", title="Outstanding requests to the editor are tracked exactly",
  statement="A response is taken for exactly those requests that were sent and neither answered nor expired before; any other response is noted as unknown and ignored, and a failed response is reported as an error. Cleaning up expires exactly the requests older than the given limit, once. A request that could not be sent is not waited for.",
  over=["histories", "fault_sequences"], quantifier="all histories of requests, responses, clean-ups and failed sends", why="No test calls these paths; they are only observable over a history.",
  files=[LSP+"client.rs"], mechanism=[("pending request map with send times", LSP+"client.rs")], observe=["log events of the connection handle"],
  technique="online trace checker over log events", note="The monitor only uses the severity of the events; requests whose age is too close to a limit are treated as undecided."),
 dict(id="C10", title="Exit status and log output of the command line are what they promise",
  statement="A successful run without findings ends the process with code 0, one with findings with 1 and a failed one with 255. Log output appears on standard error only, exactly for events of the program itself at or above the chosen level, each once and labelled with its level, regardless of the environment. Exactly the five lower-case level names are accepted, and levels are ordered from error to trace with warn as default.",
  over=["inputs", "configurations"], quantifier="all statuses, levels, level names and relevant environment variables", why="No test observes a real process or the log filter.",
  files=[CLI+"status.rs", CLI+"logging.rs"], mechanism=[("status to exit code conversion", CLI+"status.rs"), ("log filter set-up", CLI+"logging.rs")], observe=["exit code, standard output and standard error of child processes"],
  technique="external monitor of child processes", note="Every status and level is run in a real process."),
 dict(id="C11", title="The Zed extension starts the right binary and deletes only its own leftovers",
  statement="The extension starts the user's configured path if there is one, else `jarl` from the PATH, else the binary it downloaded before if the file still exists, and only then asks for the latest release and downloads the asset published for the platform; the arguments are the user's or `server`, and the user's options are passed through unchanged. After a successful download it removes other directories of its own folder and nothing else; a failed step returns an error that names the cause, and no step crashes, deletes or remembers a binary it did not get.",
  over=["configurations", "histories", "fault_sequences"], quantifier="all user settings, platforms, releases, download outcomes and sequences of server starts", why="The only test checks three asset names; resolution, caching and clean-up need a host and are untested.",
  files=["editors/zed/src/lib.rs", "dist-workspace.toml"], mechanism=[("binary resolution chain and clean-up", "editors/zed/src/lib.rs")], observe=["started command, host calls, directory tree before and after"],
  technique="monitor of host calls and file-system effects with a scripted host", note="Runs the real extension as an unprivileged user in a scratch directory against a recording stand-in for the host API."),
 dict(id="C12", title="File kinds and path conversions are exact for every path",
  statement="A path counts as R code exactly when its extension is r or R, and as R Markdown/Quarto exactly when it is rmd, Rmd, qmd or Qmd. Making a path absolute resolves it lexically against the working directory without `.` or `..` left, and displaying it relatively strips the working directory exactly when the path lies in it, component by component. No path, including non-UTF-8 ones, crashes these.",
  over=["inputs"], quantifier="all paths", why="There are no direct tests of these helpers; near-miss extensions, sibling directories sharing a prefix and dot components are the interesting inputs.",
  files=[CORE+"fs.rs"], mechanism=[("extension tests, path normalisation", CORE+"fs.rs")], observe=["classification, absolute and relative form of a path"],
  note="Byte-level path model; Unix paths only."),
 dict(id="C13", title="Development-tool scopes restore the environment and commands run as written",
  statement="Leaving a directory or variable scope, normally or by a panic, restores exactly the working directory and the variable's previous value or absence, in any nesting. A command line is split at white space with single quotes grouping words, runs in the current directory scope with the current variables and the given input, returns its trimmed output, and fails exactly when the command fails. Recursive removal removes the named path and nothing else, and file helpers act like the standard ones with errors naming the path. Generated code is formatted by the stable rustfmt with the repository's settings, under the generated-file header, whatever toolchain the caller has set; afterwards the toolchain variable is as before.",
  over=["histories", "inputs"], quantifier="all nestings of scopes, command lines, inputs and exit codes", why="The glue has no tests; restoration matters across nested scopes and panics.",
  files=["xtask/src/glue.rs", "xtask/src/lib.rs"], mechanism=[("scope guards", "xtask/src/glue.rs"), ("command splitter", "xtask/src/glue.rs")], observe=["working directory, variables, child process view, scratch tree"],
  note="Commands run are a child that reports its own arguments, directory, variables and input; deletions stay in a scratch directory."),
 dict(id="C14", title="The VS Code extension runs only an executable the user's trust allows",
  statement="In a workspace that is not trusted the only executable ever used is the bundled one, and the PATH is not even searched. Otherwise the strategy decides: bundled then PATH, PATH then bundled, or exactly the configured existing path, and when none is available starting fails without a client. The server is started with the single argument `server` and with log settings taken from user-level configuration only, for the shortest existing workspace folder.",
  over=["configurations"], quantifier="all combinations of trust, strategy, configuration levels, workspace folders and available executables", why="The extension has no tests of this logic.",
  files=["editors/code/src/binary.ts", "editors/code/src/settings.ts", "editors/code/src/lsp.ts", "editors/code/src/workspace.ts", "editors/code/src/constants.ts"], mechanism=[("executable resolution", "editors/code/src/binary.ts"), ("user-level settings", "editors/code/src/settings.ts")], observe=["resolved executable, client options, PATH lookups"],
  technique="runtime monitor at the host API boundary with scripted stand-ins", note="The real TypeScript is bundled with scripted stand-ins for vscode and its libraries."),
 dict(id="C15", title="At most one language server session runs, in the order commands were given",
  statement="However start, stop and restart are interleaved, they take effect one after the other in call order: starting a running session and stopping a stopped one do nothing, restarting stops a running session before starting a new one, and at no time are two sessions alive or starting. A failed start leaves the session stopped and startable again, a failed stop leaves it stopped, and each caller learns whether its own operation failed.",
  over=["schedules", "fault_sequences"], quantifier="all schedules of overlapping calls with failures at any step", why="The extension has no tests; the guarantee is about interleavings of asynchronous calls and failures.",
  files=["editors/code/src/lsp.ts", "editors/code/src/commands.ts"], mechanism=[("state queue", "editors/code/src/lsp.ts")], observe=["events of the language clients created"],
  technique="trace checker over client events under randomized asynchronous schedules", note="Random pauses and injected failures in every client operation; the trace is replayed on a two-state model."),
]
