"""Writes properties.jsonl and MANIFEST.json (run by hand after an edit)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/wizard/"
CTX, FAC, EXP, VAL, RUN, SRU, FUN, KW, CKW, MAN, SEV, ERR, STA, TWK, UTI, STR, MAP, INT, CUT = (
    S + "contexts/contexts.py", S + "contexts/factory.py", S + "expr.py", S + "value.py", S + "runner.py", S + "scriptrunner.py", S + "functions.py",
    S + "keywords.py", S + "contexts/keywords.py", S + "manager.py", S + "severity.py", S + "errors.py", S + "state.py", S + "tweaks.py",
    S + "utils/__init__.py", S + "utils/error_strategy.py", S + "utils/mappings.py", S + "interpreter.py", S + "contexts/utils.py",
)

# id, title, statement, over, quantifier, why tests can't, files, [(mechanism, where)], [(state, meaning, where)], technique, level note
P = []


def prop(id, title, statement, over, text, why, files, mech, state, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append((id, title, statement, over, text, why, files, mech, state, technique, note))


MODEL = "online monitor of every call, step and final state of real runs, against an independent reference interpreter, on generated programs"

prop(
    "C01", "Every expression evaluates to the value its operators define",
    "For every expression, the value and the type given to a variable are those defined by the operators it is made of: arithmetic, comparison (case-sensitive or with ':'), logic, membership, increments and compound assignments, with the precedence and associativity of the language. Combinations of types for which an operator is not defined fail with a type error, and never give a value.",
    ["inputs", "programs"], "all expressions, over operands of all types and values, with any nesting and parentheses",
    "the tests evaluate some dozens of fixed expressions; precedence, typing and nesting combine without bound",
    [EXP, VAL], [("one visitor method per operator", EXP), ("type-checked operators of Value", VAL)], [("state.variables", "values of the variables", STA)],
    MODEL, "random expressions of up to depth 7 over operands of every type",
)
prop(
    "C02", "Each expression in a statement is evaluated exactly once, in order",
    "Whenever a statement is executed, each expression it contains is evaluated exactly once and from left to right (operands, arguments, conditions, loop headers, options of a choice, tests of its cases, slices), whatever side effects they have: increments, INI tweaks, calls to the mod manager. 'and' and 'or' evaluate both sides, the right operand of 'in' comes first, and no effect is lost or repeated.",
    ["programs", "inputs"], "all positions of all statements, over expressions with side effects and a manager whose answers depend on the calls before",
    "a test sees the final value, not how many times or in which order something was evaluated",
    [CTX, CKW, EXP], [("contexts evaluate in the state which is passed on", CTX), ("arguments of keywords evaluated in the state of the step", CKW)],
    [("state of the context passed on", "carries the effects of an evaluation", CTX)],
    MODEL, "a manager whose answers depend on the history distinguishes lost, repeated and reordered evaluations",
)
prop(
    "C03", "Literals denote exactly the text or number which is written",
    "A string literal denotes exactly the characters written between its quotes, for any Unicode character, with its escape sequences (\\n, \\t..., \\xHH, \\uHHHH, \\UHHHHHHHH, octal, escaped quotes and backslashes) decoded once and the backslash of any other escape dropped; a number denotes its decimal value, without loss for integers of any size. This holds wherever the literal is: assigned, noted, compared, passed to the manager, or within the text given to Exec at any level.",
    ["inputs"], "all literals, over all of Unicode and all spellings",
    "the tests have a few ASCII literals; the escapes interact with each other and with the encoding",
    [EXP], [("decoding of escape sequences", EXP + " visitString"), ("numbers", EXP + " visitInteger, visitDecimal")], [],
    "monitor of the values received by variables, notes and the manager, against an independent scanner (round trips and raw literals)",
    "random texts over all of Unicode, encoded with random escapes, and random literal bodies",
)
prop(
    "C04", "If, While and For execute exactly the blocks they should",
    "An If executes the block of the first condition which holds, else its Else, evaluating no condition beyond; a While executes its block as long as its condition holds; a For goes once through each integer of the range, both bounds included and in either direction and with any step, or through each subpackage, file or character, in order. Any nesting of those behaves likewise, and the loop variable keeps its last value after the loop.",
    ["programs", "inputs"], "all nestings of control structures, bounds, steps and collections",
    "the tests run a few fixed loops; the interaction of nested, empty, descending and re-entered loops is unbounded",
    [CTX, FAC], [("If chain", CTX + " WizardIfContext"), ("For", CTX + " WizardForLoopContext"), ("While", CTX + " WizardWhileLoopContext"), ("next statement of a block", CTX + " WizardBodyContext")],
    [("index in a loop or a block", "what remains to be executed", CTX)],
    MODEL, "random nests of up to 12 levels and loops of up to 300 iterations",
)
prop(
    "C05", "Break, Continue, Return and Cancel jump exactly where they should",
    "Break leaves the innermost enclosing loop or case, Continue goes on with the next iteration of the innermost enclosing loop (even from within a case), from any depth of If or Exec, keeping every effect so far; outside of any such construct they are errors. Return and Cancel end the whole script at once, from any depth, with the corresponding status, Cancel giving its message (or none).",
    ["programs"], "all jumps at all depths of all nests of constructs",
    "the tests have about one jump per construct; which construct is innermost depends on arbitrary nesting",
    [CTX, SRU], [("search of the enclosing construct", CTX + " WizardBreakContext, WizardContinueContext"), ("termination", CTX + " WizardTerminationContext")],
    [("chain of the parents", "the enclosing constructs", CTX)],
    MODEL, "random nests of all the constructs with jumps of all kinds",
)
prop(
    "C06", "SelectOne and SelectMany show the options and run the chosen cases",
    "The manager is shown once the description, the options in order (name without the '|' of defaults, description, image or none if blank) and the defaults: the options marked, or for SelectOne the first marked one, or the first option. Then exactly the cases labelled with the names answered run, in the order of the script, going on into the next case (or the Default) until a Break; the Default runs as well when no case did, and never twice.",
    ["programs", "inputs", "histories"], "all choices, options, labels, answers and placements of Break",
    "the tests answer a few fixed choices; options, answers, labels and fallthroughs combine freely",
    [CTX, SRU], [("options", CTX + " parse_select_options"), ("cases", CTX + " WizardSelectCasesContext"), ("call of the manager", SRU)],
    [("found, fallthrough, index", "progress among the cases", CTX)],
    MODEL, "random options, defaults, labels, answers (also equal options which are other objects) and fallthroughs",
)
prop(
    "C07", "Exec behaves as if its text were written in its place",
    "Executing a text with Exec has the same effects, calls, termination and failures as the same statements written in its place, wherever it is and at any depth of Exec in Exec; the text is computed once, from the values of that time. A text which cannot be parsed or fails is an error, with the state before the failing statement, and Exec within an expression is refused.",
    ["programs"], "all texts and places of Exec, computed texts included",
    "the tests execute a couple of one-line texts",
    [CTX, UTI], [("parsing and top-level context of the text", CTX + " WizardExecContext, WizardTopLevelContext")], [],
    "comparison of real runs with the reference interpreter and with the same script inlined",
    "random programs placed in Exec, nested and computed; failing texts",
)
prop(
    "C08", "Builtin functions and methods compute what is documented",
    "str, int, float, len, lower, startswith, endswith, find and rfind, called as functions or as methods of a string (str also of numbers and booleans), give the documented result for every argument: any number of prefixes, optional bounds, negative ones, and the defined neutral result for a value which is not a string. A wrong number of arguments is a type error and an unknown function or method a name error.",
    ["inputs"], "all builtin functions and methods, over all types, values and numbers of arguments",
    "the tests call each function a few times with usual arguments",
    [FUN, EXP], [("implementations", FUN + " WizardFunctions"), ("arity and types", FUN + " wrap_function")], [],
    MODEL, "random calls with arguments of all types and numbers, nested",
)
prop(
    "C09", "Functions answered by the manager are passed through exactly",
    "Each call of CompareGameVersion, CompareSEVersion, CompareGEVersion, CompareWBVersion, GetPluginLoadOrder, GetPluginStatus (GetEspmStatus), GetFilename, GetFolder or DataFileExists results in exactly one call of the corresponding method of the mod manager, with exactly the arguments written and in order, and gives exactly its answer. Calls with a wrong number or type of arguments are type errors and do not reach the manager.",
    ["programs", "histories"], "all calls, arguments and answers, in loops and nested in each other",
    "the tests mock a manager for a few calls",
    [FUN, MAN], [("table of the functions", FUN + " make_manager_functions"), ("arity and types", FUN + " wrap_function")], [],
    MODEL, "random calls with right and wrong arguments, answers depending on the history",
)
prop(
    "C10", "Selected subpackages and plugins follow the keywords, whatever the case",
    "At any time, the selected subpackages and plugins are those which result from the sequence of selection keywords executed, names being compared without case: selecting a subpackage also selects its plugins (files ending with .esp, .esm or .esl), selecting everything selects all subpackages and their plugins, deselecting removes what is named. Nothing is selected twice, the lists are sorted without case, and a missing name changes nothing but is reported. The visitor lists the subpackages and plugins which are available, in order and each plugin once, and those of one subpackage.",
    ["histories", "inputs"], "all sequences of selections and deselections, over all sets of subpackages, shared plugins included",
    "the tests run a few sequences; case, duplicates and shared plugins need specific histories",
    [RUN, VAL, KW, CKW], [("visitor of the selection keywords", RUN + " WizardRunnerKeywordVisitor"), ("comparison without case", VAL + " CaseFoldNamedObject")],
    [("subpackages, plugins", "what is selected", RUN + " WizardRunnerState")],
    MODEL, "random sequences over up to 9 subpackages with shared plugins and names in any case",
)
prop(
    "C11", "Renames and notes are recorded exactly",
    "The renames are those which result from the sequence of RenamePlugin, ResetPluginName and ResetAllPluginNames (and their Espm spellings) executed, the last one winning, names of plugins being compared without case. The notes are exactly the texts noted, in order, repeated ones included, other values than texts being converted.",
    ["histories", "inputs"], "all sequences of renames, resets and notes",
    "the tests rename and note a couple of times",
    [RUN, KW], [("visitor of the keywords", RUN)], [("renames, notes", "what was recorded", RUN + " WizardRunnerState")],
    MODEL, "random sequences, names in any case, lookups in any case",
)
prop(
    "C12", "INI tweaks are recorded exactly and found whatever the case",
    "EditINI and DisableINILine record exactly their file, section, setting, value (with its type) and comment, in order, in the tweaks of the result and nowhere else. The files of the tweaks, the tweaks of a file (asked in any case: modified then disabled ones, in order), and whether there is any, are consistent with what was recorded.",
    ["histories", "inputs"], "all sequences of tweaks and queries on their result",
    "the tests record a few tweaks for one file",
    [TWK, RUN], [("recording", RUN + " WizardRunnerExpressionVisitor"), ("queries", TWK + " WizardINITweaks")], [("disabled, modified", "the tweaks", TWK)],
    MODEL, "random sequences over files whose names differ by case, values of all types",
)
prop(
    "C13", "Executing a context never changes it, nor any earlier one",
    "Every context met during an execution stays as it was when it was met (state, options, defaults, parent), whatever is executed from it or from later contexts; what is returned by a step is a new context. Executing any earlier context again, with the same answers, gives the same calls and the same outcome, and with other answers only changes what depends on them.",
    ["histories", "programs"], "all contexts of all executions, executed again any number of times and in any order",
    "the tests never execute a context twice, and do not look at earlier contexts",
    [CTX, FAC, STA, RUN], [("copy before modification", FAC + " copy_context, copy_parent"), ("copies of the state", STA + ", " + RUN)], [("state of each context", "variables, selections, renames, notes, tweaks", RUN)],
    "monitor which fingerprints every context visited, then executes random ones again and compares fingerprints and outcomes",
    "random programs, all contexts fingerprinted, several branches per program",
)
prop(
    "C14", "After a rewind, only what precedes and what follows it counts",
    "Rewinding a running execution to a context seen earlier, from any callback (a choice, a manager function, a warning, required versions, an error, the end), and any number of times, resumes exactly there: the calls and the final result are those of one execution without the discarded parts. The current context given to a callback is the one being executed, and aborting ends with the cancelled status and the state of that time.",
    ["histories", "fault_sequences"], "all rewinds, from all callbacks, to all contexts seen, on the current branch or a discarded one",
    "the tests rewind once or twice from one callback of fixed scripts",
    [SRU, CTX], [("rewind by exception", SRU + " rewind, abort, run"), ("immutability of contexts", CTX)], [("current context", "where the execution is", SRU)],
    "log of the calls of each branch, and offline replay of the branch which remains by the reference interpreter",
    "random programs, up to 6 rewinds each from random callbacks; the state during every call is compared",
)
prop(
    "C15", "A run always ends with one status, whatever the callbacks do",
    "Every run calls, after the effects of the script, either complete, cancel or error, once, with the status and the state which correspond: normal end, Return, Cancel, error of the script, exception of a callback, abort from any callback. When error() raises (as it does by default) that exception leaves the run; when it returns, the result is the error status with the state before the failing step.",
    ["fault_sequences", "programs"], "all exceptions and aborts, in all callbacks, with all behaviours of error()",
    "the tests have a couple of failing scripts and no failing callback",
    [SRU, MAN], [("main loop", SRU + " run")], [("current context", "where the execution is", SRU)],
    "fault injection in every callback of real runs, with an online monitor of the protocol of the calls",
    "random programs with an exception or an abort injected at a random call",
)
prop(
    "C16", "Severities decide exactly what an issue does",
    "Each issue (variable used before it is set, several defaults in a SelectOne, a note which is not a text, a missing subpackage, a missing plugin) is silently allowed, reported by exactly one warning and continued, or raised as an error, according to the severity set for it, or to the default severity. The severities of one object never affect another, and changing them during an execution applies to what follows.",
    ["configurations", "programs"], "all assignments of severities to issues, changed at any time",
    "the tests check the default severity for one or two issues",
    [SEV, EXP, KW, CKW, RUN, CTX], [("decision", SEV + " raise_or_warn")], [("severities", "of each issue", SEV)],
    MODEL, "random severities per issue, changed during the execution",
)
prop(
    "C17", "An error has the right class and says exactly where and what",
    "When the execution of a statement fails, the error has the class of the mistake (name, type, index, missing subpackage or plugin, misplaced statement), the line and column in the script (or in the text of the Exec) of the construct which fails, and the name or index at fault; its text says so. The state which remains is the one before the failing step.",
    ["programs", "inputs"], "all mistakes at all places of all layouts of programs",
    "the tests check the class of a few errors, and one or two positions",
    [ERR, EXP, CTX, CUT], [("conversion of exceptions at each expression", EXP + " visitExpr"), ("conversion at each step", CUT + " wrap_exceptions"), ("classes", ERR)], [],
    MODEL, "one random mistake at a random place, in layouts with comments, continuations and parentheses",
)
prop(
    "C18", "Broken scripts fail cleanly, and only when what is broken is executed",
    "Any text can be run: it ends normally or with an error of the documented classes (or of a number operation), never with an internal one, and a syntax error is located within the script and its text, of one line, quotes what was found there. An expression, an assignment or the header of a block which is broken (without leaving brackets or quotes open) within a block, a case included, that is not executed has no influence on the rest of the script; executed, it is a syntax error with the state before.",
    ["inputs", "programs"], "all texts: correct scripts with tokens, lines or characters removed, added, moved, or truncated",
    "the tests have a handful of broken scripts",
    [STR, ERR, CTX, EXP, CUT], [("recovery within blocks", STR), ("deferred errors of broken constructs", CTX + " exec")], [],
    "mutation fuzzing of scripts with an oracle on the classes, rendering and location of errors, and comparison with the reference interpreter around broken lines",
    "random mutations; broken lines and headers of a fixed list at random places",
)
prop(
    "C19", "The form in which a script is given does not matter",
    "The same program behaves the same whatever its layout (spaces, line breaks \\n or \\r\\n, comments, continuations, alternative spellings of operators, superfluous parentheses) and whatever the form in which it is given: text, stream of text or bytes, or path of a file in ASCII, UTF-8 with a mark, UTF-16 or UTF-32, texts and comments of any characters included. Empty scripts are accepted, the file is neither modified nor left open, and a file which is missing is an error.",
    ["inputs", "configurations"], "all layouts, sources and those encodings of all programs",
    "the tests use one layout and paths of a few files",
    [UTI, SRU], [("reading and decoding", UTI + " make_parse_wizard_context")], [],
    "comparison of the traces of real runs of the same program in different layouts, sources and encodings; monitor of open files",
    "random programs, layouts, sources and encodings",
)
prop(
    "C20", "Executions are deterministic and isolated from each other",
    "The same script with the same answers always gives the same calls, status, final state (orders included) and errors: in a new runner or in one already used, after failures and aborts, interleaved step by step with other executions on the same or on other runners, in several threads, and whatever the hash seed. A state given by the caller, or the mapping of variables it was made from, is never modified, and variables it holds are used as if the script had set them.",
    ["schedules", "histories", "configurations"], "all interleavings of executions, reuses of runners, threads and hash seeds",
    "the tests use a new runner for each script and one thread",
    [SRU, INT, CTX, STA, RUN, SEV], [("no state but in the contexts", CTX), ("state per instance", SEV + ", " + SRU)], [("current context", "of the runner", SRU)],
    "differential monitor: outcomes of interleaved, reused, threaded and re-seeded executions compared with the same alone",
    "random programs, random interleavings, 4 threads, 4 hash seeds",
)
prop(
    "C21", "Time, memory and depth do not grow with what has been executed",
    "The number of steps is proportional to the iterations executed, and neither the contexts, states and options which stay alive, nor the length of the chain of parents, nor the depth of the stack grow with the number of iterations, statements, cases or rewinds already executed. Deep nesting and long scripts of at least some hundreds of levels or thousands of statements work.",
    ["programs", "histories"], "all loops, rewinds and long scripts, over the number of iterations",
    "the tests run short scripts; a leak or a growing chain is invisible before thousands of steps",
    [CTX, FAC, SRU], [("return to a copy of the parent", FAC + " copy_parent"), ("flat loop of the runner", SRU + " run")], [("chain of the parents", "of the current context", CTX)],
    "monitor of live objects, parent chains, stack depth and steps, after N, 2N and 3N iterations of random blocks",
    "random blocks in every kind of loop; exact equality of the counts",
)
prop(
    "C22", "Names of plugins and subpackages compare without case, coherently",
    "Names of plugins and subpackages compare with each other and with texts without case: equality, order and hashing are coherent (equal names have equal hashes, the order is total), whatever Unicode characters they have, and the original spelling is kept. The plugins of a subpackage are exactly its files ending with .esp, .esm or .esl, in order, without their folder.",
    ["inputs"], "all names and lists of files",
    "the tests compare a few ASCII names",
    [VAL], [("comparison", VAL + " CaseFoldNamedObject"), ("plugins", VAL + " SubPackage.plugins")], [],
    "monitor of algebraic laws on values created by random generators",
    "random names over Unicode with special foldings; lists of files",
)
prop(
    "C23", "A layered mapping behaves as one mapping and never changes its base",
    "The layered mutable mapping behaves as a dictionary initially equal to its base for every sequence of operations: reading, setting, deleting (an error if absent), membership, length, iteration, updates, clear; also when the base is itself layered. It never modifies its base, and shows a base modified in between wherever it has not been overridden.",
    ["histories"], "all sequences of operations on stacks of mappings",
    "the tests try a few operations on one layer",
    [MAP], [("overrides and deletions", MAP)], [("overrides, deleted keys", "differences with the base", MAP)],
    "random sequences of operations compared with a dictionary model after each one",
    "random sequences on up to several layers, bases modified in between",
)
prop(
    "C24", "Stepping by hand sees the same execution as a run",
    "Executing step by step, or until chosen kinds of contexts (which then are exactly the first ones met, the start included), goes through the same calls and reaches the same termination and final state as a run. Choices show their description, options and defaults, a choice which is not answered takes its defaults, answering gives a copy without changing the original, and terminations tell which kind they are, with the message of Cancel.",
    ["programs", "histories"], "all programs, all targets, all ways of answering",
    "the tests step through a few scripts to fixed targets",
    [INT, CTX, FAC, CKW], [("exec_until", INT), ("select", CTX + " WizardSelectContext"), ("termination", CTX)], [],
    "comparison of executions stepped with the public API with the reference interpreter; monitor of the chain of parents at each step",
    "random programs, targets and answers",
)
prop(
    "C25", "Each keyword calls its visitor once, with the values of its arguments",
    "Executing a keyword, in any of its spellings, calls the method of that keyword of the keyword visitor exactly once, in the order of the script, with the values of its arguments in order (missing or empty versions of RequireVersions as none, notes as texts), the context of that keyword, and a state which has the effects of everything before and keeps what the visitor changes. A wrong number of arguments is a type error and calls nothing; what the visitor raises reaches the caller.",
    ["programs", "fault_sequences"], "all keywords, spellings, numbers and types of arguments, in all sequences, with visitors which change the state or raise",
    "the tests look at the effects of some keywords in one visitor",
    [CKW, KW], [("table of the keywords", CKW + " make_keyword_context"), ("default visitor", KW)], [],
    "recording keyword visitor, whose log is compared with the expected calls",
    "random sequences of keywords, right and wrong",
)
prop(
    "C26", "Functions, states and contexts of the embedder are used faithfully",
    "Functions added to the table (builtin names replaced and methods of a type included) or as methods of an expression visitor are called once per call of the script with its arguments and the current state, and give their result (nothing being void), the table coming first; a wrapped function is only called with as many arguments as declared, of the declared types, anything else being a type error. A state class of the embedder with its own copy is used by all contexts, with the persistence of the others, and contexts made by its factory are used throughout.",
    ["configurations", "programs", "inputs"], "all signatures and arguments of wrapped functions, all programs using components of the embedder",
    "the tests extend a runner in one way",
    [FUN, EXP, FAC, STA, UTI], [("calls", EXP + " visitFunctionCall, visitDotFunctionCall"), ("arity and types", FUN + " wrap_function"), ("creation and copies of contexts", FAC)], [],
    "monitor of the calls of random signatures against their contract; comparison with a reference interpreter extended alike",
    "random signatures, programs and subsets of own context classes",
)
prop(
    "C27", "Operators on values follow their laws and never change operands",
    "For all pairs of values of all types, each operator, index, slice, membership test and comparison of value objects gives the result which the same operation has on the values themselves, of the right type, or fails with a type error (or index error with the index) when not defined for them. Operands never change, and equality of value objects distinguishes types.",
    ["inputs"], "all pairs of values of all types, all operators and slices",
    "the tests try a few operators on a few values",
    [VAL], [("operators", VAL + " Value")], [],
    "monitor of every operator on all pairs of a list of boundary values, and on random pairs, against the operation on the values",
    "exhaustive over 43 values of all types, and random",
)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fp:
        for id, title, st, over, text, why, files, mech, state, tech, note in P:
            fp.write(json.dumps({
                "id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                "anchors": {
                    "files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                    "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state], "hook_needed": None,
                },
            }, ensure_ascii=False) + "\n")
    py = "/opt/venv/bin/python -B -m wv.run "
    man = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -B -c 'import wv.harness'",
        "checks": [
            {
                "property": p[0], "quick_cmd": py + p[0] + " --tier quick", "thorough_cmd": py + p[0] + " --tier thorough",
                "technique": "runtime monitoring: " + p[9], "level": "exploration",
                "level_note": p[10] + "; holds for the executions observed (see the evidence), trusting the monitors and models in /verif/wv and CPython, antlr4 and chardet",
            }
            for p in P
        ],
        "not_applicable": [],
        "notes": "The code under test is pure Python imported from /repo/src at each run: nothing is built and no hooks are needed.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fp:
        json.dump(man, fp, indent=1, ensure_ascii=False)
        fp.write("\n")
    print(len(P), "properties")


main()
