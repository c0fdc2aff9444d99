#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the single source of the property texts).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

PARSE = "The 8 existing tests only cover the parser on about a hundred hand-written inputs; "
NONE = "No existing test covers this: all 8 tests are parser unit tests on hand-written inputs; "

p("P01", "A command line splits into commands exactly at its separators",
  "For every list of words, the input is split into commands exactly at each separator colon: one that is neither escaped with a backslash nor part of an http/https URL scheme, wherever it stands inside or between words. An escaped colon becomes a literal colon in the word, a URL stays whole, all other characters are kept in order apart from surrounding blanks, and splitting always terminates.",
  ["inputs"], "all word lists up to the bound over an alphabet of separators, escapes, URL schemes, spaces and letters",
  PARSE + "how separators, escapes, URLs and word boundaries combine is a product space they sample at a few points, and no test checks that no character is lost.",
  ["pkg/core/parser/sequence.go", "pkg/core/parser/cmds.go"], [("separator normalisation", "SequenceParser.Normalize"), ("splitting", "SequenceParser.Parse")])

p("P02", "A command path reaches exactly the command its names or abbrs spell",
  "For every registered command tree, a dotted path of names and declared abbreviations, in any spelling with blanks or separate dots around the segments, resolves to exactly the one command those segments name, and environment settings written before, between or after the segments do not change which command is reached. A path with a segment that is not a name or abbreviation at that level is reported as an error and never resolves to another command.",
  ["inputs", "configurations"], "all small command trees with abbreviations and all path spellings and inline-env placements over them up to the bound",
  PARSE + "they use one fixed tree and do not compare alternative spellings of the same path.",
  ["pkg/core/parser/cmd.go", "pkg/core/model/cmds.go"], [("segment matching", "CmdParser.parse"), ("abbr lookup", "CmdTree.GetSub")])

p("P03", "All argument forms bind the same values, and bad arguments are rejected",
  "Positional words, name=value pairs in any order and with any spacing around the equals sign, bracketed name=value pairs, and abbreviated argument names all give a command the same argument values; arguments not given take their declared defaults and an empty default is allowed. An argument name the command does not declare, surplus words, or a malformed pair is reported as an error and never silently dropped or bound to another argument.",
  ["inputs"], "all argument declarations and argument word lists up to the bound (names, abbreviations, undeclared names, values, equals signs glued or separate, brackets)",
  PARSE + "argument words combine with spacing, abbreviations, brackets and defaults; the tests sample a few of these forms and none checks that surplus words are never lost.",
  ["pkg/core/parser/env.go", "pkg/core/parser/cmd.go", "pkg/core/model/args.go", "pkg/core/model/parsing.go"], [("argument parsing", "EnvParser.TryParseRaw"), ("argv generation", "ParsedCmd.ApplyMappingGenEnvAndArgv")])

p("P04", "A command sequence saved as a flow runs the same as the sequence itself",
  "For every parsed command sequence, the text written when it is saved as a flow parses back to the same commands with the same argument values, the same inline environment settings and the same background options. Values with blanks, quotes or colons keep their meaning.",
  ["programs", "inputs"], "all sequences up to the bound over commands, arguments, inline settings, background options and values with special characters",
  NONE + "text round trips must hold for every combination of value, quoting and position.",
  ["pkg/core/model/flow.go", "pkg/mods/builtin/flow.go", "pkg/core/model/parsing.go"], [("flow to text", "SaveFlow"), ("text to words", "FlowStrToStrs"), ("saving", "builtin SaveFlow")])

p("P05", "Metadata files keep every section and value across save and load",
  "Every set of sections, keys and values (values without surrounding blanks) written to a metadata file is read back equal, including values spanning several lines. Reading a file that a user wrote with blank lines, indentation, comments and continuation lines gives the values it states, in order, and loading always terminates.",
  ["inputs", "histories"], "all small metadata contents up to the bound, saved then loaded, and all small hand-written texts",
  NONE + "the file format mixes sections, comments, continuation and multi-line values, whose combinations are unbounded.",
  ["pkg/mods/persist/meta_file/meta_file.go"], [("load", "MetaFile.load"), ("save", "MetaFile.WriteTo")])

p("P06", "Environment lookups see the innermost layer, writes stay in their layer",
  "For every history of set, delete, layer creation, merge and clone on a layered environment, a lookup returns the value of the innermost layer that has the key, a write or delete in one layer never alters another environment it was not asked to alter, and a clone is independent of its original. Typed reads and writes of integers, booleans and durations return what was stored.",
  ["histories"], "all operation histories up to the depth bound over a few keys, values and layers",
  NONE + "shadowing and deletion across layers depend on the whole history.",
  ["pkg/core/model/env.go"], [("layered lookup", "Env.GetEx"), ("layered write", "Env.SetEx"), ("delete", "Env.Delete")])

p("P07", "Saved environment values are loaded back exactly; session values never are",
  "After environment values are saved, a new start loads exactly the values that were set and not later removed or reset, for every history of setting, saving, removing and resetting. Runtime and session-only keys are never written to the saved file, and loading never changes values the user gives in the current command line.",
  ["histories", "inputs"], "all histories up to the depth bound of set, save, remove, reset and reload over a few keys and values with special characters",
  NONE + "persistence must hold across every save/remove/reload history.",
  ["pkg/core/model/env_io.go", "pkg/mods/builtin/env.go"], [("write env file", "SaveEnvToFile"), ("read env file", "LoadEnvFromFile"), ("remove saved value", "RemoveEnvValAndSave")])

p("P08", "A crash while saving leaves the old or the new file, never a mix",
  "If the process dies at any point while the user's environment, a snapshot of it, the repository list or a saved flow is being written, or a system call of the write fails, the next start reads either the complete old content or the complete new content of each. A failed save is reported by the exit status. A leftover temporary file never prevents the next start or the next save from working.",
  ["crash_points"], "every prefix of the file-system operations of a save, including every partial write, for several old/new contents",
  NONE + "a unit test cannot stop the process between two system calls.",
  ["pkg/core/model/proto.go", "pkg/mods/persist/hub_meta/hub_meta.go", "pkg/mods/persist/meta_file/meta_file.go"], [("atomic env save", "SaveEnvToFile"), ("atomic repository list save", "WriteReposInfoFile"), ("atomic flow save", "MetaFile.Save")])

p("P09", "Repository-list commands change exactly the repositories they name",
  "For every history of adding, enabling, disabling, purging and clearing repositories and local directories, the stored list equals what the history implies: only matching entries change, enabled entries are never dropped by a purge, no entry is lost, duplicated or reordered with another's data. A local directory the user linked is never deleted from disk.",
  ["histories"], "all histories up to the depth bound of hub commands over a few local dirs and (fake) git repositories, from several initial lists",
  NONE + "list edits depend on the whole history and on which entries match.",
  ["pkg/mods/builtin/hub.go", "pkg/mods/persist/hub_meta/hub_repo.go"], [("purge", "purgeInactiveRepoFromHub"), ("disable", "disableRepoInHub"), ("match", "tryFindRepo")])

p("P10", "A sequence runs in order, each command once, and stops at the first failure",
  "For every sequence of commands, flows and nested flows, each command runs exactly once, in the written order with a flow's commands in place of the flow, and a command starts only after the previous one finished. If a command fails or panics, no later command runs and the run as a whole fails; if none fails the run succeeds.",
  ["programs"], "all sequences and flow trees up to the size and depth bound with every command failing by error, by panic or not at all",
  NONE + "order and failure propagation must hold for every shape of nested flow.",
  ["pkg/core/execute/executor.go", "pkg/core/model/cmd.go", "pkg/core/model/blender.go"], [("sequence execution", "Executor.executeFlow"), ("flow execution", "Cmd.executeFlow")])

p("P11", "Environment values have exactly the scope they are written for",
  "A value set by a command or in braces at the head of a sequence is visible to every later command of the sequence; a value set in braces for one command is visible to that command only; a value set at the head of a flow's body is visible to the rest of that flow only. After a command or flow ends, values limited to it are gone and everything it set for the session remains.",
  ["programs"], "all sequences and nested flows up to the bound with settings at every scope and reads in every position",
  NONE + "scoping depends on nesting and order of every command in the sequence.",
  ["pkg/core/execute/executor.go", "pkg/core/model/parsing.go", "pkg/core/model/cmd.go", "pkg/core/model/env.go"], [("command env", "ParsedCmd.GenCmdEnv"), ("global env", "ParsedCmds.GlobalEnv"), ("subflow layer", "Cmd.executeFlow")])

p("P12", "A sequence that reads an unset key is refused before anything runs",
  "Before running, every declared read of a key that no earlier command of the sequence (flows expanded) declares to write, and that has no value, makes the whole sequence refused and nothing runs. A sequence in which every declared read is satisfied by the environment, by inline settings or by an earlier declared write is never refused for this reason.",
  ["programs"], "all sequences and nested flows up to the bound over commands declaring read, may-read, write and may-write of a few keys, with every initial environment",
  NONE + "the analysis must agree with the declared effects for every order and nesting.",
  ["pkg/core/model/env_ops.go", "pkg/core/execute/executor.go"], [("checker", "EnvOpsChecker.OnCallCmd"), ("walk", "CheckEnvOps")])

p("P13", "Declared argument-to-env and value-to-env mappings apply exactly as declared",
  "When a command declares that an argument or a fixed value goes to an environment key, that key holds exactly the given argument, or the declared value, when the command runs and for the rest of the sequence; an argument that is not given and has no default leaves the key unchanged. A value already in the environment is kept when the user did not give the argument mapped to its key, even if that argument has a default.",
  ["programs", "inputs"], "all small declarations of arguments, defaults and mappings, with every choice of given arguments, initial environment and one following command",
  NONE + "defaults, given values, environment values and two mapping kinds combine.",
  ["pkg/core/model/parsing.go", "pkg/core/model/cmd.go", "pkg/core/model/arg2env.go"], [("mapping", "ParsedCmd.ApplyMappingGenEnvAndArgv"), ("value templates", "Val2Env")])

p("P14", "Flow and value templates expand exactly from arguments and environment",
  "Every template placeholder in a flow is replaced exactly by the value of the environment key of that name or, without one, of the argument of that name, placeholders inside values being expanded in turn, and all other text is kept; a multiplied placeholder repeats its line once per list item. A placeholder with no value, or whose value refers to itself, makes the run fail before any of that flow's commands runs, and expansion always terminates whatever the values contain.",
  ["inputs"], "all template texts up to the bound over literals, placeholders and multiplied placeholders, with all small argument and environment values including ones that contain placeholder text",
  NONE + "expansion must be exact and terminate for every text and value.",
  ["pkg/core/model/template.go", "pkg/core/model/cmd.go"], [("rendering", "renderTemplateStr"), ("multiply", "tryRenderMultiply")])

p("P15", "The session record survives a kill at any point and a retry resumes correctly",
  "For every flow and every point at which the process is killed, the recorded session status can be read back, never claims that a command finished which did not, and lists the commands that ran in order. Retrying a session skips exactly the commands recorded as succeeded and runs all others, once, in order, with the environment the succeeded ones left; a retry that fails can be retried in turn.",
  ["crash_points", "histories"], "every byte prefix of the status record of every flow shape up to the bound, with failures at every position, followed by a retry",
  NONE + "no test kills a run or retries one.",
  ["pkg/core/model/executing.go", "pkg/core/model/executed.go", "pkg/mods/builtin/sessions.go"], [("writing status", "ExecutingFlow"), ("reading status", "ParseExecutedFlow"), ("resume masks", "ExecutedFlow.GenExecMasks")])

p("P16", "Session cleaning never touches a running session and removes only what it should",
  "For every population of sessions and every cleaning or removal command, a session whose process is still running is never removed unless that is asked for explicitly, a finished session that is not selected is never removed, and foreign files in the session directory are left alone. Every start removes exactly the dead sessions older than the configured keep time and gives itself a session directory of its own. The listing commands show exactly the sessions in the state they name.",
  ["configurations", "histories"], "all populations of running, done, failed, expired and foreign entries up to the bound, and all cleaning commands over them",
  NONE + "which sessions may be removed depends on the whole population.",
  ["pkg/core/model/session.go", "pkg/mods/builtin/sessions.go"], [("startup cleaning", "SessionInit"), ("clean commands", "CleanSessions, CleanSession")])

p("P17", "Background commands run once, can be waited for in any order, and errors surface",
  "For every schedule, a command started in the background runs exactly once, waiting for it (all, by name, the latest) returns only after it finished and never hangs or crashes, and finished tasks stay listed until waited for. The run waits for the remaining background commands before it ends, and fails if any of them failed; the failure of one waited for explicitly is shown.",
  ["schedules", "programs"], "all interleavings of task start, finish and wait operations for up to the bound of tasks, in every wait order and failure assignment",
  NONE + "the outcome depends on goroutine schedules no test controls.",
  ["pkg/core/model/bg_tasks.go", "pkg/core/execute/executor.go", "pkg/mods/builtin/bg_tasks.go"], [("task table", "BgTasks"), ("async run", "asyncExecute"), ("waiting", "WaitBgTasks")])

p("P18", "Background output is shown completely, in order, exactly once",
  "For every interleaving of a background command writing output, being brought to the foreground and finishing, the user sees every byte the command wrote exactly once and in order, and nothing of it appears while another background command is shown in the foreground.",
  ["schedules"], "all interleavings of write, bring-to-front and finish operations of up to the bound of tasks and chunks",
  NONE + "loss or duplication only shows in specific schedules.",
  ["pkg/core/model/bg_tasks.go", "pkg/core/model/screen.go"], [("buffered stdout", "BgStdout"), ("foreground switch", "BgTasks.BringBgTaskToFront")])

p("P19", "Injected rules replace, remove or insert exactly around the commands they match",
  "For every set of replace, remove, insert-before and insert-after rules, each command of the sequence that matches a live rule is replaced, removed or surrounded exactly as the rule says, for as many times as the rule states, and every other command runs exactly once in its original order. Clearing the rules restores normal execution.",
  ["programs", "histories"], "all sets of up to the bound of rules over all sequences up to the bound",
  NONE + "several rules interact on one sequence.",
  ["pkg/core/model/blender.go", "pkg/mods/builtin/blender.go"], [("rule application", "Blender.Invoke")])

p("P20", "In forest mode each top-level command starts from the same environment",
  "In forest mode every top-level command of the rest of the sequence starts from the environment as it was when forest mode was entered, whatever the earlier ones changed, while changes inside one command's own flow stay visible within it. Without forest mode, or after the sequence ends, values pass along as usual.",
  ["programs"], "all sequences up to the bound mixing forest mode, setters, readers and flows",
  NONE + "isolation must hold for every sequence and nesting.",
  ["pkg/core/model/forest.go", "pkg/core/execute/executor.go", "pkg/mods/builtin/misc.go"], [("forest stack", "ForestMode"), ("env clone", "Executor.executeFlow")])

p("P21", "Asking about a sequence never runs it; trailing commands move to the front",
  "When a command that asks about the sequence, or lists or finds commands (such as =, -, +, desc, /, ~, cmds), is put at the end of a sequence, or applied to it with an empty command before it, the sequence itself is not executed, and no command of it, nested flow or background command has any effect. Several such trailing commands each apply to everything written before them, so the last one written runs first, and the rest of the sequence keeps its order.",
  ["programs"], "all sequences up to the bound of ordinary commands and flows, with every information command in trailing and tail-call form",
  NONE + "this must hold for each of the many information commands and for every sequence.",
  ["pkg/core/execute/executor.go", "pkg/mods/builtin/builtin.go", "pkg/mods/builtin/dump_flow.go"], [("reordering", "moveLastPriorityCmdToFront"), ("clearing the flow", "clearFlow")])

p("P22", "Breakpoints stop execution exactly where asked, and the answer is obeyed",
  "With breakpoints before or after commands, in steps, or at the end, the run stops and asks exactly at those places; continue, skip, step-over, step-in and quit have exactly their stated effect on which commands run afterwards. While no breakpoint is set the run never stops.",
  ["programs", "configurations"], "all breakpoint sets over all sequences and one-level flows up to the bound, with every sequence of answers",
  NONE + "answers and positions combine into a large tree of runs.",
  ["pkg/core/model/breakpoint.go", "pkg/core/execute/interactive.go", "pkg/core/execute/executor.go"], [("asking", "tryWaitSecAndBreakBefore"), ("step modes", "tryBreakInsideFileNFlow")])

p("P23", "Joined lists run the command once for every combination of values",
  "A joined run executes its command exactly once for each element of the product of the declared value lists and ranges, in lexicographic order with the values set, and a repeated run executes exactly the stated number of times. A malformed list or range is reported as an error, and building the combinations always terminates.",
  ["inputs", "programs"], "all lists of keys, values and ranges (every small start, end and step) up to the bound",
  NONE + "range ends, steps and list shapes combine.",
  ["pkg/mods/builtin/join.go", "pkg/mods/builtin/misc.go"], [("product", "JoinRun"), ("range", "JoinNew"), ("repeat", "Repeat")])

p("P24", "Names and abbreviations never become ambiguous",
  "For every order in which commands, sub-commands and abbreviations are registered, each name or abbreviation at one level refers to exactly one command, and a registration that would make it refer to two is refused without changing the existing command. The same holds for argument names and abbreviations within one command and for environment key abbreviations.",
  ["histories"], "all registration histories up to the depth bound over a few colliding names and abbreviations",
  NONE + "ambiguity arises from the order of several registrations.",
  ["pkg/core/model/cmds.go", "pkg/core/model/args.go", "pkg/core/model/env_abbr.go"], [("abbr registration", "CmdTree.addSubAbbrs"), ("arg registration", "Args.AddArg"), ("env abbrs", "EnvAbbrs.addSubAbbrs")])

p("P25", "Flow management changes exactly the flows it names",
  "For every history of saving, renaming or moving, describing and removing flows, the saved flows are exactly those the history implies: each command changes only the named flow, a saved flow can be run right after the next start under its path, and an existing flow or command is never overwritten without confirmation.",
  ["histories"], "all histories up to the depth bound of flow commands over a few paths",
  NONE + "the directory state depends on the whole history.",
  ["pkg/mods/builtin/flow.go", "pkg/mods/builtin/flow_store.go"], [("save", "SaveFlow"), ("remove", "RemoveFlow")])

p("P26", "External commands get their arguments in order and hand values back",
  "An external script command is started once, in the directory of its file, with the session directory first and then its arguments in declared order with defaults filled in, and finds every environment value in the session's file. Values it writes there are visible to the following commands, and a non-zero exit status makes the run fail at that command.",
  ["programs", "inputs"], "all small script modules and argument choices, with every value from a set of special values and every exit status class, in sequences up to the bound",
  NONE + "no test starts a script; the exchange must hold for all values and positions.",
  ["pkg/core/model/cmd.go", "pkg/core/model/env_io.go"], [("file execution", "Cmd.executeFile"), ("session env file", "saveEnvToSessionFile")])

p("P27", "Exit hooks run exactly once, for the right outcome, after everything else",
  "When a run that got as far as opening its session ends (an input that does not parse, and lookups that need no session, have no hooks), the success hook runs if and only if it succeeded, the failure hook if and only if it failed, and then the exit hook in both cases; each runs exactly once and after all commands of the run, those in the background and in program calls made by scripts included; this also holds when the run ends by a crash inside a command. A hook never changes whether the run is reported as success or failure when the hook itself succeeds.",
  ["programs", "configurations"], "all combinations of hook settings and run outcomes (success, command failure, panic with any value, refusal, tolerated failure, background failure, nested program call) up to the bound",
  NONE + "no test runs the program to its end.",
  ["pkg/ticat/ticat.go"], [("hooks", "TiCat.exitEventHook")])

p("P28", "Sensitive values are never shown",
  "Whatever command displays environment values, arguments or a flow, the value of a key or argument whose name marks it as sensitive is never printed in clear in any display, while other values are shown. The masking never alters the value commands receive.",
  ["inputs", "programs"], "all displaying commands over all small placements of a sensitive value as env value, argument, inline setting and nested flow argument",
  NONE + "every displaying command must mask at every place a value can occur.",
  ["pkg/cli/display", "pkg/core/model/sensitive.go"], [("masking", "mayMaskSensitiveVal")])

p("P29", "Environment snapshots restore exactly what was saved",
  "For every history of saving, overwriting, listing, loading and removing snapshots, loading a snapshot yields exactly the session values saved under that name, other keys untouched; an existing snapshot is not overwritten unless asked, and removing one leaves the others intact.",
  ["histories"], "all histories up to the depth bound of snapshot commands over a few names and values",
  NONE + "the state depends on the whole history.",
  ["pkg/mods/builtin/env_snapshot.go"], [("save", "EnvSaveToSnapshot"), ("load", "EnvLoadFromSnapshot")])

p("P30", "A sequence needing a missing operating-system command is refused before it runs",
  "If any command of the sequence, at any nesting depth, declares a dependency on an operating-system command that is not installed, nothing of the sequence runs and the missing command is named. If all are installed the check never refuses.",
  ["programs", "configurations"], "all sequences and nested flows up to the bound with every assignment of installed and missing dependencies",
  NONE + "dependencies nest through flows.",
  ["pkg/core/model/depends.go", "pkg/core/execute/executor.go"], [("collecting", "CollectDepends"), ("refusing", "verifyOsDepCmds")])

p("P31", "Every module file in a repository becomes exactly the command its path spells",
  "For every directory tree with module metadata, flow files, scripts and helper files, loading registers exactly one command per module or flow at the path its directories and file name spell, with its declared arguments, and nothing for other files or hidden directories. A faulty module is reported and never prevents the others from loading, and a disabled repository contributes no command.",
  ["configurations"], "all directory trees up to the bound over flow files, metadata files, executables, plain files and nested directories",
  NONE + "no test loads a directory.",
  ["pkg/mods/persist/mod_meta/mod_reg.go", "pkg/mods/builtin/mod.go"], [("walk", "loadLocalMods"), ("registration", "RegMod")])

p("P32", "Failures allowed for a command do not stop the run, all others do",
  "A command allowed to fail by its options does not stop the run and the following commands run, for every kind of failure it can have; the option affects that command only. The same failure without the option stops the run.",
  ["programs"], "all sequences and flows up to the bound with the option on or off at every command and every kind of failure",
  NONE + "the option must be isolated to its command in every position.",
  ["pkg/core/model/cmd.go", "pkg/core/model/sys_args.go"], [("allow error", "Cmd.Execute")])

p("P33", "Automatically collected arguments reach exactly the right inner commands",
  "A flow that collects its arguments automatically exposes, besides its own arguments and in the order of its selection, exactly the arguments of its inner commands that its selection names (a star: all of them, leaving out those whose key an inner command provides itself), each under its name and abbreviations. A value given to such an argument reaches exactly the inner commands it was collected from, unless the flow gives them their own value, with defaults kept when it is not given.",
  ["programs"], "all flows up to the bound over inner commands with overlapping arguments, and all selections and given values",
  NONE + "selection, fixed values and overlapping names combine.",
  ["pkg/core/model/args_auto_map.go", "pkg/core/model/cmd.go"], [("auto mapping", "ArgsAutoMapStatus")])

p("P34", "A line with any parse error runs nothing",
  "If any command of an input line cannot be parsed, no command of the line runs, no setting in the line takes effect beyond that failed run, and the run reports failure.",
  ["inputs"], "all lines up to the bound of valid commands, flows and every kind of invalid command at every position",
  NONE + "the tests stop at the parser and never look at what is executed.",
  ["pkg/core/execute/executor.go", "pkg/cli/display/parse_err.go"], [("refusal", "HandleParseResult")])

p("P35", "Finding commands returns exactly the commands that match all the words",
  "For every command set and every list of search words, the commands listed are exactly those for which each word occurs in its path, abbreviations, help text, arguments, environment keys and operations, tags, source, kind, executable or dependencies; the order of the words does not matter and a further word never adds a result.",
  ["inputs", "configurations"], "all small command sets and all word lists up to the bound",
  NONE + "matching must agree with the definition for all words and commands.",
  ["pkg/core/model/cmds.go", "pkg/core/model/cmd.go", "pkg/cli/display/cmds.go"], [("matching", "CmdTree.MatchFind")])

p("P36", "Updating the hub visits each reachable repository once and terminates",
  "For every graph of repositories that list other repositories, updating clones or updates each reachable repository exactly once, also with cycles, self references and duplicates, records each with the repository that first led to it, and never touches local directories. One failing repository is reported.",
  ["configurations"], "all repository graphs up to the bound on nodes, with every initial cloned state, against a fake git",
  NONE + "no test uses git; the graph shape is the input.",
  ["pkg/mods/persist/hub_meta/hub_repo.go", "pkg/mods/persist/hub_meta/hub_meta.go"], [("graph walk", "UpdateRepoAndSubRepos"), ("update one", "updateRepoAndReadSubList")])

p("P37", "A description shows the sequence which would run, and runs nothing",
  "Describing a sequence (`-`, `--`, `desc` with any depth and folding limits) shows, in order, every command the sequence would execute down to the requested depth, with its name, the arguments given to it with their values as they will be at that point, where a sub-flow is folded, repeated or goes to background, and nothing else; the values it shows are those a run would use, no matter what the display folds. It runs none of these commands. The fatal mark of a description, the check of environment reads and writes, and the list of dependencies announce a refusal exactly when running the sequence is refused, with the same report; when it is not refused the run executes exactly the described commands with the described values.",
  ["programs", "inputs"], "all sequences up to the bounds over commands, nested, folded, duplicated and quiet flows, templates, mappings, braces, background and missing dependencies, each described in several ways and run",
  NONE + "a description walks the tree by itself, apart from the executor; they differ only for particular nestings and limits.",
  ["pkg/cli/display/flow.go", "pkg/core/execute/executor.go", "pkg/mods/builtin/dump_flow.go"], [("description", "display.DumpFlow"), ("the check before a run", "verifyEnvOps"), ("execution", "Executor.executeFlow")])

p("P38", "No input, setting or damaged file makes ticat itself break",
  "Whatever a user types (any builtin command, with any number and form of arguments, at any place of a sequence; any line of odd words; any flow body), whatever value a display or system setting has, given in the line or saved by an earlier run, and whatever a damaged saved file or module description holds, a run ends, with success or with an error message, and the error is shown. It never ends in an internal fault: a nil or out-of-range access, an uncaught panic with a Go stack trace, a \"should never happen\", or an endless loop. Commands whose purpose is to crash, to watch or to read the terminal, and flows which contain themselves, are outside this statement.",
  ["inputs", "configurations", "fault_sequences"], "all builtin commands with all forms of arguments at all places of a line, all short lines of odd words and short flow texts, all settings with odd values, all cuts and line damages of each saved file, up to the bounds",
  NONE + "robustness is about the inputs nobody thought of: argument forms, positions and settings multiply.",
  ["pkg/mods/builtin/builtin.go", "pkg/core/execute/executor.go", "pkg/cli/display/err.go", "pkg/ticat/ticat.go"], [("entry", "TiCat.run"), ("refusal", "checkTailModeCalls"), ("showing errors", "display.PrintError")])

p("P39", "A tail-mode call does what the command does with the words as arguments",
  "For every command which takes words in a tail-mode call (words, an empty command, then the command: finding commands, tags, environment keys, flows, repositories or sessions, showing a command, changing the hub, removing keys, flows or sessions), the call shows the same, changes the same files and values, and succeeds or fails as the direct call with these words as arguments does, also when some words are given each way. When a command takes one word only, more words are refused and nothing is changed.",
  ["inputs"], "all these commands x all word lists up to the bound x all ways to split them between both places",
  NONE + "each command reads the words by itself, and the forms differ only for particular numbers and places of words.",
  ["pkg/mods/builtin/utils.go", "pkg/core/execute/executor.go", "pkg/mods/builtin/builtin.go"], [("collecting the words", "tailModeCallArgs"), ("recognising the form", "moveLastPriorityCmdToFront"), ("searching", "getFindStrsFromArgvAndFlow")])

p("P40", "A report on a session shows exactly what happened in it",
  "For every sequence run (commands, scripts, flows in flows, flows with a script, failures, tolerated failures, values in braces, background commands), the descriptions of its session, short and full, asked for in any of the ways there are, list exactly the commands which began, in order, nested as they ran, with their results, their times, the values before them and the values they changed, their error messages and their output; then the first command which was not run; nothing else. The lists of sessions show it with the line given and with its result, and the last, the last failed and the last succeeded sessions are the ones they say. When the record ends early because the program was killed, what is in it is shown in the same way and an unfinished command is never shown as succeeded.",
  ["histories", "crash_points"], "all sequences up to the bound over a set of words which fail, nest, change and delete values and run in the background x the ways to ask x the points where the record ends",
  NONE + "the report is made from a record in a text format parsed together with the current commands, and goes wrong only for particular nestings, failures and deletions.",
  ["pkg/cli/display/flow.go", "pkg/core/model/executed.go", "pkg/core/model/executing.go", "pkg/mods/builtin/sessions.go"], [("the description", "dumpFlowCmd"), ("what changed", "dumpExecutedModifiedEnv"), ("reading the record", "parseExecutedCmd"), ("choosing the session", "getLastSessionEx")])

p("P41", "The built-in environment tools change exactly the values they name",
  "For every sequence of the built-in environment commands (set, add, update, map, remove, remove by prefix, reset with and without exceptions, assert equal, assert absent, show a value, mark a time, begin and end a timer, save, clear what was saved), each of them changes exactly the keys it names, in the running session, whatever layer (default, saved, session) the key lives in: adding fails and changes nothing when the key has a value, updating fails when it has none, mapping copies the visible value, removing makes the default visible again (or nothing), removing by prefix takes all the keys with the prefix and no other, resetting leaves the saved values and the excepted keys as they were and makes no key, an assertion fails exactly when it is false, a shown value is printed exactly, times are the times of the run. Nothing changes what is saved but saving and clearing, which the next start sees. A line which reads a key after such a command removed it is refused as a whole.",
  ["histories"], "all short sequences of these commands over set, saved, defaulted and absent keys, some of them prefixes of others",
  NONE + "each tool works on several layers at once and has a second version of itself in the static check of the sequence; which combinations disagree is not known in advance.",
  ["pkg/mods/builtin/env.go", "pkg/mods/builtin/misc.go", "pkg/core/model/env.go"], [("removing", "removeEnvVal"), ("resetting", "ResetSessionEnv"), ("the static versions", "EnvOpCmds"), ("timers", "TimerElapsed")])

p("P42", "Repeat and selftest run exactly the commands they name",
  "Repeating a command runs it (with its arguments, a flow too) exactly the given number of times, one after another, each round seeing what the earlier ones changed, stops at the first failure, and the rest of the line follows only when all rounds succeeded; a number of times which is not a positive whole number, or a command which is not there, runs nothing. The selftest runs exactly the commands which carry the asked tag and whose source holds the asked text and does not hold the excluded text, each once, in the order of the command tree, each starting from the same environment; it stops at the first failure. In parallel each is still run exactly once, the rest of the line waits for all of them, and a failure is shown.",
  ["programs", "configurations"], "all repeats over a set of commands, numbers, argument forms and places; all small command trees with all tags and sources x all selections x each command failing",
  NONE + "the commands to run are made up at run time from the tree, the tags, the sources and the arguments, and then parsed again.",
  ["pkg/mods/builtin/misc.go", "pkg/core/model/cmd.go", "pkg/mods/builtin/builtin.go"], [("repeat", "Repeat"), ("selftest", "Selftest"), ("choosing", "findAllCmdsByTag")])

p("P43", "Display settings never change what runs; frames show each command in place",
  "Whatever display settings are set, by commands in the line or as values, a line runs the same commands with the same arguments and values, ends the same way and leaves the same environment. Unless displaying is off, before each command of a sequence runs (quiet commands and a single command left out, if not asked for) one frame shows it marked as the current one, at its place among the sequence's other commands, with the given arguments and no more rows than the configured count; results, when asked for, follow the command.",
  ["programs", "configurations"], "all sequences of command kinds up to the bound under every display setting, pairs of settings and the commands which change them",
  NONE + "no test looks at frames; settings and programs combine.",
  ["pkg/cli/display/executor.go", "pkg/cli/display/render.go", "pkg/mods/builtin/display.go", "pkg/mods/builtin/verb.go"],
  [("which commands are framed and how", "PrintCmdStack"), ("drawing", "RenderCmdStack"), ("results", "PrintCmdResult"), ("verbosity", "IncreaseVerb")])

p("P44", "Lines given in the interactive mode run like commands of the same run", "In the interactive mode (entered by the command for it, in the main sequence or in a flow, or chosen at a break point) every line is executed as one sequence of commands by the same rules as a command line: its commands run in order with the env values of the run and of the earlier lines, a value set by a line is seen by the later ones and by the rest of the run after leaving, values limited to a command stay limited. A failing, panicking, unknown or empty line executes nothing after its failure and doesn't end the mode, nor does a line which is only shown. No break point pauses inside the mode; break points set there hold afterwards. Leaving goes on with the run exactly where the mode was entered (at a break point: with the command paused at), as often as it is entered. The record of the run lists the commands of the run, not of the lines.", ["inputs", "programs", "histories"], "bounded runs x bounded sequences of lines, all choices", NONE + "line editing, completion and the history file (they need a terminal).", ["pkg/mods/builtin/interactive.go", "pkg/core/execute/interactive.go"], [("the mode", "InteractiveMode"), ("executing a line", "executorSafeExecute"), ("choosing it at a break point", "readUserBPAChoice")])

p("P45", "What is told about a command is what its files declare", "For every command of a module (script, nested script, flow, flow with a script, directory with or without a script) with any combination of declarations, asking for its usage or full details by any of its names (abbreviations of it and of its parents) shows exactly the declared help text, tags, names, arguments with their other names and defaults, keys written, mapped, read and written, needed system commands, kind, flow lines, files - and nothing else, in the declared order; the api commands print its kind, metadata file, directory and executable, and the list of all commands names every executable command once.", ["configurations", "inputs"], "checks/p45", NONE + "the declarations a command may combine are a product of a dozen choices.", ["pkg/cli/display/cmds.go", "pkg/mods/builtin/api.go", "pkg/mods/builtin/dump_cmds.go", "pkg/mods/persist/mod_meta/mod_reg.go"], [("full details", "dumpCmd"), ("api", "ApiCmdType"), ("api", "ApiCmdDir"), ("list", "cmdDumpName")])

p("P46", "The running options a module declares have exactly their effect",
  "A module file can declare that a command is quiet while executing, keeps no output, explains no failure, needs no session, does not make its session the last one, or packs what its flow does inside; under every spelling and boolean value of these options exactly that effect is seen and nothing else changes: which commands run and in which order, whether a failure stops the line, which frames the execution shows for the other commands, whose output is kept in the session directory, whether the line gets a session and which session is the last.",
  ["configurations", "programs"], "every set of options of two scripts and the flows around them, failing or not, in every line shape of a list; every spelling and value of every option",
  NONE + "the options meet each other, flows, failures and sessions in combinations.",
  ["pkg/mods/persist/mod_meta/mod_reg.go", "pkg/core/model/cmd.go", "pkg/cli/display/executor.go", "pkg/core/execute/cmd_type.go"], [("declared options", "regUnLog"), ("lines without a session", "noSessionCmds"), ("kept output", "shouldWriteLogFile"), ("last session", "isSessionShouldHideInLast")])

p("P47", "A script calling the program again in its session shares the values",
  "A script may call the program with the session it was given, at any depth: the commands of that call find every value of the session and what the script itself changed before, values given by the call win, what they set or delete is found by the script, by the calls after and by the commands following the script in the outer run, also when the call fails half way; the outer run goes on as if the script had done the changes itself, and no other session is made. A call without the session shares nothing and has its own.",
  ["programs", "histories"], "every script of up to the depth bound of changes, deletions and calls (modules, flows, natives, failing, refused, nested twice), in several lines around it",
  NONE + "the calls, changes and lines meet in every order.",
  ["pkg/core/model/cmd.go", "pkg/core/model/proto.go", "pkg/core/model/session.go", "pkg/core/execute/executor.go"], [("run a script", "executeFile"), ("write the session's values", "saveEnvToSessionFile"), ("join a session", "SessionInit")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
