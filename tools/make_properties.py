#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    a = {
        "files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mechanism],
        "observe_at": observe,
        "hook_needed": None,
    }
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why,
            "anchors": a,
        }
    )


CTX = "src/wizard/contexts/contexts.py"
FAC = "src/wizard/contexts/factory.py"
KW = "src/wizard/contexts/keywords.py"
EXPR = "src/wizard/expr.py"
VAL = "src/wizard/value.py"
FUN = "src/wizard/functions.py"
RUN = "src/wizard/runner.py"
SR = "src/wizard/scriptrunner.py"

prop(
    "C01",
    "Structured control flow runs exactly the prescribed statements",
    "Running a script executes exactly the statements that a reading of its If/Elif/Else, While, For, Break, Continue, "
    "Return and Cancel statements prescribes, in that order, whatever the nesting: the first branch whose condition is "
    "true is taken, loops repeat while their condition holds, Break and Continue act on the innermost enclosing loop, and "
    "nothing runs after a Return, a Cancel or the end. The variables at the end are those of the executed assignments, "
    "and the end reports its cause (Return, Cancel with its message, or completion). Break or Continue outside any loop "
    "is reported as a parse error of that statement and only when it is reached.",
    ["programs"],
    "all scripts built from the control-flow statements, nested in any way, for all values of their conditions",
    "The tests run about a dozen hand-written scripts with at most two nested constructs and never use Continue; they "
    "cannot cover the combinations of nesting, branch outcome and jump target.",
    [CTX, FAC, "src/wizard/interpreter.py"],
    [("one context per construct, returning the next context to execute", CTX), ("copy_parent/copy_context carry the state outward", FAC)],
    ["the sequence of notes/callbacks", "final variables", "termination cause"],
    [("context chain", "position in every enclosing block", CTX)],
)
prop(
    "C02",
    "For loops visit exactly the denoted values, in order",
    "A range loop visits start, start+step, ... up to and including the end bound, in either direction and for every "
    "non-zero step (step 1 if omitted), and a collection loop visits every character of a string, every sub-package, or "
    "every file of a sub-package once, in order. Bounds, step and collection are evaluated once, on entry, so assigning "
    "to the loop variable or to variables used in the header does not change the iteration, and the loop variable is set "
    "at the start of each iteration and keeps its last value. A range may be of any size if the loop is left early. Non-integer bounds, a zero step or a non-iterable "
    "collection are reported as an error at the loop instead of iterating.",
    ["inputs", "programs"],
    "all integer starts, ends and steps (both signs), all collections, all assignments made in the body",
    "The tests use three upward ranges and one collection loop; no downward range, no empty or single range, no body that "
    "writes the loop variable, no nested loop re-entry.",
    [CTX],
    [("values materialised when the loop is entered", CTX), ("index advanced on a copy of the loop", CTX)],
    ["values seen by the loop body", "final loop variable", "error class and position"],
)
prop(
    "C03",
    "Menus offer what the script says and answers run the matching cases",
    "A SelectOne/SelectMany presents its description and its options (name without the default mark, description, image "
    "or none when blank) in order, with exactly the options marked by a leading | as defaults, SelectOne falling back to "
    "the first option; a menu executed without an answer takes its defaults. For every answer, the cases whose label equals a selected option's name run in script order - only "
    "the first for SelectOne, all of them for SelectMany; without Break execution falls through into the following cases "
    "and the default, a Break ends the current case only, and the default case otherwise runs only when no case matched. "
    "Every run of a select ends and resumes after it, at most one execution per case.",
    ["programs", "inputs"],
    "all menus with any option and case order, defaults, presence of Break and of a default case, nesting in loops, and all user answers",
    "Tests sample five menus with two options and a few answers; fall-through into the default case, Break inside nested "
    "constructs, repeated or missing labels and multiple defaults are not reached.",
    [CTX, "src/wizard/manager.py", SR],
    [("option parsing and defaults", CTX), ("case iteration with found/fallthrough flags", CTX)],
    ["arguments of the selectOne/selectMany callbacks", "options/default(s) of the select context", "cases executed"],
    [("found, fallthrough, index", "progress through the case list", CTX)],
)
prop(
    "C04",
    "Exec(text) behaves as if the text stood in its place",
    "A statement Exec(s) has the same effect as the statements contained in s written at that place: the same variables, "
    "notes, selections, loop jumps (Break, Continue), Return, Cancel and menus, then execution continues after the Exec, "
    "for any nesting of Exec and of control flow around and inside it. Side effects of evaluating the argument are kept. "
    "A missing, extra or non-string argument, or use of Exec inside a larger expression, is reported as an error.",
    ["programs"],
    "all statement sequences wrapped in Exec at every position and depth of a script",
    "The only Exec test runs one assignment at top level; no Exec inside loops, branches or cases, none with jumps, "
    "termination, menus or nested Exec.",
    [CTX, FAC, EXPR],
    [("Exec body runs with the enclosing body as parent", CTX)],
    ["trace, state and status of the script with and without Exec"],
)
prop(
    "C05",
    "Execution never alters a past context: every step can be re-run",
    "Executing a context leaves that context, and every context reached before it, observably unchanged: its variables, "
    "selections, renames, notes and INI tweaks stay what they were. Hence re-executing or rewinding to any previously "
    "seen context, any number of times and in any order, from any later point, yields exactly the continuation it would "
    "have had the first time given the same answers. Choosing an option in a menu context likewise leaves that menu "
    "context unchanged and re-usable with another answer; the list of options given stays the caller's.",
    ["histories", "programs"],
    "all scripts, all pairs (rewind target, point from which the rewind happens), all repetitions, all answers after the rewind",
    "Two tests rewind one straight-line script; nothing checks that states are not shared between contexts for loops, "
    "selects, Exec, keywords or runner state.",
    [CTX, FAC, KW, "src/wizard/state.py", RUN, SR],
    [("state copied whenever a context is derived", FAC), ("copy() of the interpreter and runner state", "src/wizard/state.py, " + RUN)],
    ["state of every context kept from the history, compared before and after later execution"],
    [("state", "variables and runner results held by each context", "src/wizard/state.py, " + RUN)],
)
prop(
    "C06",
    "Expressions evaluate to their defined value",
    "Every well-typed expression over literals, variables and operators evaluates to the mathematically defined value with "
    "the grammar's precedence, associativity and parentheses: arithmetic + - * / % ^ on numbers, + on strings, comparisons "
    "on numbers or on strings, == and != on anything of the same kind, case-insensitive variants with a colon, and/or/not "
    "giving booleans by truthiness, and ++/-- updating the variable. Operands are evaluated exactly once, and compound "
    "assignments x op= e equal x = x op (e). Reading a variable yields the last value assigned to it.",
    ["inputs", "programs"],
    "all expression trees over the operators and operand types, all operand values",
    "The tests evaluate some forty fixed expressions; they have no mixed-precedence tables, no comparison operators on "
    "boundaries, no case-insensitive operator, and no and/or.",
    [EXPR, VAL, CTX, "src/wizard/antlr4/wizardParser.py"],
    [("visitor per expression kind", EXPR), ("typed operators", VAL)],
    ["value and type of every expression result", "variables after evaluation"],
)
prop(
    "C07",
    "Script errors are Wizard errors located at the failing construct",
    "Any operation that a script may not perform - an operator or function on operand types it is not defined for, an index "
    "out of range, a division by zero or other undefined arithmetic, an unknown function or method, a wrong number of arguments, "
    "a compound assignment or increment of an unset variable - is reported as an error of the Wizard error family carrying the "
    "line and column of the construct that failed, never as a silent wrong value or an unrelated internal exception. Its kind "
    "tells type, name, index and parse errors apart, name errors tell the name and index errors the index that was not found, and formatting it as text always works. A step that fails changes nothing: "
    "the state before it is intact.",
    ["inputs", "programs"],
    "all combinations of operators, functions, keywords and operand types, at every nesting position of the script",
    "The tests check ten failing scripts and two locations; the operator x type matrix and failures nested in other "
    "constructs are unexplored.",
    [EXPR, VAL, "src/wizard/errors.py", "src/wizard/contexts/utils.py", FUN, CTX],
    [("conversion of Python errors into Wizard errors", EXPR + ", src/wizard/contexts/utils.py"), ("type checks in operators", VAL)],
    ["class, line, column, str() of the raised error", "state of the failing context"],
)
prop(
    "C08",
    "String literals, indexing and slicing preserve characters",
    "A string literal denotes exactly the characters between its quotes, for any character including non-ASCII ones, with "
    "only the documented backslash escapes replaced (an escaped quote or other non-escape character stands for itself). "
    "s[i] and s[a:b:c], with any part omitted or negative, yield the same characters as counting positions from the start or, "
    "when negative, from the end; an index outside the string or the sub-package list is an index error and a slice never is.",
    ["inputs"],
    "all literals over an alphabet with quotes, backslashes, escapes and non-ASCII characters; all index/slice bounds of both signs, present or omitted",
    "Tests use about twenty literals and slices, all ASCII.",
    [EXPR, VAL, "src/wizard/antlr4/wizardLexer.py"],
    [("unescaping of literals", EXPR), ("index/slice operators", VAL)],
    ["value of the literal/index/slice expression"],
)
prop(
    "C09",
    "Built-in functions compute their definition in both call forms",
    "str, int, float, len, lower, startswith, endswith, find and rfind return what their definition gives for every "
    "argument: all prefixes/suffixes passed are considered, optional positions default to the whole string, and the "
    "documented neutral result is returned for values they do not apply to. The method form v.f(args) equals the function form f(v, args) "
    "wherever a method is defined for the type of v. Too few or too many arguments, and methods not defined for a type, are errors.",
    ["inputs"],
    "all functions x argument counts x argument values and types x call form",
    "The tests call int() and len() three times; startswith, endswith, lower, find, rfind, float are never called.",
    [FUN, EXPR],
    [("argument checking and wrapping", FUN)],
    ["result value/type or error of a call expression"],
)
prop(
    "C10",
    "Manager queries receive exactly the script's arguments",
    "A call of a game/manager query function in a script (version comparisons, data file existence, plugin load order and "
    "status, file and folder name), under each of its names, invokes the corresponding manager method exactly once per evaluation with exactly the "
    "script's arguments in order, including variable and optional ones (a boolean counts as an integer), and its result is the value of the call. "
    "RequireVersions invokes the version-requirement callback exactly once with the given versions, omitted or empty "
    "optional ones as none. Arguments of a wrong type or number are reported as errors without invoking the manager.",
    ["inputs", "programs"],
    "all query functions, argument lists and manager answers",
    "Tests only observe one RequireVersions call and dataFileExists with one argument.",
    [FUN, KW, SR, "src/wizard/manager.py"],
    [("table of manager functions and wrapping", FUN), ("RequireVersions keyword", KW + ", " + SR)],
    ["calls received by a recording manager", "value of the call"],
)
prop(
    "C11",
    "Selected sub-packages and plugins follow the select keywords",
    "After any sequence of the sub-package and plugin (de)selection keywords, under each of their names, the selected sub-packages and the selected "
    "plugins are exactly the sets obtained by applying each keyword to sets of case-insensitive names: SelectAll everything, "
    "SelectSubPackage adds it with its plugins, SelectAllPlugins the plugins of the selected sub-packages only, DeSelectSubPackage and "
    "DeSelectPlugin remove the named element entirely, DeSelectAll/DeSelectAllPlugins clear. Each element is reported once, in sorted order; "
    "selecting something that does not exist changes nothing and is reported according to the severity policy, and de-selecting it is a no-op. The keyword visitor lists the available sub-packages, their plugins (each name once) and the plugins of a sub-package, unaffected by what is selected.",
    ["histories"],
    "all sequences of selection keywords over a package layout with shared and case-variant names",
    "The tests run complete installer scripts that mostly select each sub-package once; re-selection, case variants, "
    "shared plugins and de-selection after it are not covered.",
    [RUN, KW, VAL],
    [("keyword visitor updating the runner state", RUN), ("case-insensitive names", VAL)],
    ["subpackages and plugins of the resulting state"],
    [("selected sub-packages, selected plugins", "the installation result", RUN)],
)
prop(
    "C12",
    "Notes, plugin renames and INI tweaks record the script's requests",
    "After any sequence of Note, RenamePlugin, ResetPluginName, ResetAllPluginNames, EditINI and DisableINILine, under each "
    "of their names, the result holds all notes in order, "
    "for each plugin (names compared case-insensitively) the last new name given since it was last reset, and all INI "
    "edits and disabled lines in order with exactly the given file, section, setting, value and comment. Querying the tweaks of a file returns its edits "
    "then its disabled lines whatever the letter case, and the list of files names every file with a tweak, sorted.",
    ["histories"],
    "all sequences of these operations over names, files and values that collide up to case",
    "Only Note is observed by tests; renames and INI tweaks are never checked.",
    [RUN, "src/wizard/tweaks.py", KW, EXPR],
    [("runner keyword and expression visitors", RUN), ("tweak container", "src/wizard/tweaks.py")],
    ["notes, renames and tweaks of the resulting state"],
)
prop(
    "C13",
    "A run reports its outcome and honours abort, rewind and errors",
    "Running a script through the script runner calls the user callbacks for exactly the menus, queries and ends reached, and returns "
    "CANCEL, RETURN or COMPLETE according to what ended it, with the state at that point. abort() "
    "from any callback, including the error and end-of-script callbacks, asks cancel() and ends with CANCEL and the state before the interrupted step; rewind(c) from any "
    "callback resumes at c and execution proceeds from c's state; any other exception in a step reaches the error callback exactly once, and "
    "if that returns the run ends with ERROR and the state before the failing step. While a step runs, the current context "
    "is available, and cancel() and complete() answering true stop the run, answering false continues it after the Cancel or Return statement.",
    ["programs", "histories", "fault_sequences"],
    "all scripts with callbacks, all callback points, all injected reactions (answer, abort, rewind to any earlier context, exception), up to several injections per run",
    "Tests abort once and rewind twice from a plain function in straight-line scripts; no callback other than a custom "
    "function is used and the error path is never exercised with a non-raising handler.",
    [SR, CTX],
    [("run loop with rewind/cancel exceptions", SR)],
    ["status, state and sequence of callbacks of a run"],
)
prop(
    "C14",
    "All ways of supplying and driving a script agree",
    "The same script given as text, character stream, text file object, binary file object or file path (plain or with a "
    "byte-order mark, with LF, CRLF or CR line ends, even empty) gives the same execution. Driving it step by "
    "step, with the until-target driver, or with the callback runner reaches the same contexts, answers and final state; "
    "the until-target driver stops at the first context of a target kind or at the end, returning immediately if already there.",
    ["inputs", "programs", "configurations"],
    "all scripts x input forms x drivers x target sets",
    "Tests read files into text first and use exec_until on two scripts with one target.",
    ["src/wizard/utils/__init__.py", "src/wizard/interpreter.py", SR],
    [("stream construction", "src/wizard/utils/__init__.py"), ("exec_until", "src/wizard/interpreter.py")],
    ["variables, notes, menus and status for each form and driver"],
)
prop(
    "C15",
    "The severity policy decides the reaction to each issue",
    "For each tolerated issue (unset variable, several defaults in SelectOne, non-string Note, missing sub-package, missing "
    "plugin) the effective severity is the one set for that issue, else the default one, else warning: error raises the corresponding error, warning "
    "emits exactly one warning per occurrence and continues, allow continues silently. Continuing has the documented fallback (0, the first default, the text form, no "
    "selection), the same for warning and allow. Settings of one severity context never affect another one or another issue.",
    ["configurations", "histories"],
    "all sequences of severity settings on several contexts x all issues x occurrences",
    "No test sets a severity at all.",
    ["src/wizard/severity.py", EXPR, KW, RUN, CTX],
    [("raise_or_warn", "src/wizard/severity.py")],
    ["warnings received, error raised, resulting state"],
)
prop(
    "C16",
    "Runs are independent of one another",
    "A run depends only on its script, its packages, its initial state and the answers it receives: running scripts earlier on the same "
    "runner or interpreter, running others on other instances, interleaving their steps in any order, or running another script while a step is in progress "
    "(inside a function it calls, or in another thread) never changes its contexts, "
    "callbacks, warnings or result. Neither the initial state passed in nor the mapping it was built from is changed by the run. Fresh runs start with nothing selected, no variables and no notes.",
    ["schedules", "histories"],
    "all interleavings of the steps of two or three runs, on the same or different instances, and all orders of complete runs",
    "Tests re-use a runner for several scripts but never interleave and never compare with a fresh instance.",
    [FAC, EXPR, RUN, SR, "src/wizard/severity.py", "src/wizard/state.py"],
    [("all run data lives in the context's state", "src/wizard/state.py")],
    ["trace, warnings, state of each run compared with the run alone"],
)
prop(
    "C17",
    "A broken statement only matters if it is reached",
    "When one statement inside the block of an If, loop or case breaks off inside an index or slice (so that skipping or "
    "inserting a single token cannot repair it), a run that does not enter that block behaves as if the block were intact, and a "
    "run that enters it reports a parse error, after at most the statements that precede the broken one in the block, instead of "
    "silently skipping or executing something else. Blocks before, beside, around and after the broken one keep their meaning, "
    "also when the broken block itself contains further blocks after the broken statement, and when a broken case has no Break.",
    ["programs", "inputs"],
    "all nestings of blocks x place of the broken statement in its block x kinds of unfinished index x branch outcomes",
    "Two tests break one statement in an If; loops, selects, nested blocks and several broken blocks are not covered.",
    ["src/wizard/utils/error_strategy.py", CTX, EXPR],
    [("recovery to the end of the enclosing block", "src/wizard/utils/error_strategy.py"), ("error marked on the rule context and raised when executed", CTX)],
    ["trace, final state or parse error of the run"],
)
prop(
    "C18",
    "No input text can crash or corrupt the interpreter",
    "For every text, however malformed, interpreting it ends in a normal termination or in an error of the Wizard error "
    "family that carries a position and can be formatted (the text of a parse error at a token shows this token) - or keeps executing a loop of the script -, never in another exception. "
    "Names that are not functions of the language cannot be called from a script, in particular none of the interpreter's own internals.",
    ["inputs"],
    "all token sequences up to a bound, and all callable names",
    "Tests contain a handful of malformed scripts.",
    ["src/wizard/utils/error_strategy.py", CTX, KW, EXPR, "src/wizard/errors.py", "src/wizard/contexts/utils.py"],
    [("error strategy and parse error reporting", "src/wizard/utils/error_strategy.py, " + CTX)],
    ["class and text of the exception, if any"],
)
prop(
    "C19",
    "The stacked mapping is a mapping layered over its parent",
    "For every sequence of set, delete, lookup, iteration and bulk operations, a stacked mapping behaves like an ordinary "
    "dictionary initialised with its parent's content and kept in step with later changes of the parent for keys it has neither set nor deleted: same membership, "
    "values, keys without duplicates, length and missing-key errors. Its parent is never modified through it.",
    ["histories"],
    "all operation sequences on a stack of up to three layers over two or three keys",
    "No test uses the class.",
    ["src/wizard/utils/mappings.py"],
    [("own values and deleted set over the parent", "src/wizard/utils/mappings.py")],
    ["the mapping interface on every layer"],
    [("variables, deleted", "own entries and masked parent keys", "src/wizard/utils/mappings.py")],
)
prop(
    "C20",
    "Package, plugin and value comparison follows one consistent law",
    "Sub-packages and plugins compare, order and hash by their name ignoring case, against each other and against strings, "
    "consistently as a total order, and comparison with anything else is rejected; their display keeps the original letter "
    "case. A sub-package's plugins are exactly its files with a plugin extension, named by base name. Values are equal exactly when type and "
    "content are equal, membership in sub-packages and files compares full names with the optional ignore-case form, and options are equal exactly when all their fields are.",
    ["inputs"],
    "all pairs and triples of names over an alphabet with case variants, all pairs of values of all types",
    "The tests only rely on equality of a few values and sorted plugin lists.",
    [VAL, "src/wizard/manager.py"],
    [("case-folded comparison base class", VAL), ("contains / equality of values", VAL)],
    ["comparison operators, hash, str, plugins(), value operators"],
)
prop(
    "C21",
    "Layout, comments and line continuations do not change meaning",
    "Changing indentation, blank lines, spaces and tabs between tokens, comments at line ends, line continuations, the kind of line end, or the "
    "quote style of a string leaves the meaning of a script unchanged: same execution and same result. Text inside string literals, including "
    "semicolons, backslashes and keywords, is never treated as layout. Positions reported in errors follow the layout.",
    ["inputs", "programs"],
    "every token boundary of a set of scripts covering every statement, x every kind of layout insertion",
    "Tests use one layout per script.",
    ["src/wizard/antlr4/wizardLexer.py", "src/wizard/antlr4/wizardParser.py", "src/wizard/utils/__init__.py"],
    [("skipped tokens", "src/wizard/antlr4/wizardLexer.py")],
    ["trace and state compared with the canonical layout"],
)

prop(
    "C22",
    "Custom states, visitors and functions receive exactly what the script does",
    "An interpreter can be assembled from a custom state type, keyword visitor, expression visitor and function table. Every executed keyword statement, under each "
    "of its names, calls the method of its keyword exactly once, in script order, with the context of the statement, a state to change and exactly the evaluated arguments "
    "(omitted or empty optional versions as None, the text form of a Note); every call of a function of the table, of a method of a value's type, or of a visitor method "
    "named visit<Name> is made exactly once per evaluation with the state and the arguments in order, and its result is the value of the call. What these change in the state "
    "is found in the contexts that follow and in no earlier one; a variable changes only by the set() of the state; every context of the run has a state of the custom type, copied by its own copy(), and every context is made or copied by the factory, which can be a custom one. A call that raises any "
    "exception stops the step with that exception and leaves the context as it was, so that it can be run again. A RequireVersions context tells its versions before it is "
    "executed. The basic visitors do nothing for keywords.",
    ["programs", "faults"],
    "all pairs (triples) of keyword statements and calls in all control contexts x a failing call at every position x kinds of assembled parts",
    "The tests use one custom keyword visitor on one script each and never let a visitor fail.",
    ["src/wizard/keywords.py", KW, EXPR, FUN, FAC, "src/wizard/state.py", "src/wizard/utils/__init__.py"],
    [("one visitor call on a copy of the state", KW), ("function lookup in table, then visitor methods", EXPR)],
    ["calls received by the visitors and functions, states of the contexts"],
)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
