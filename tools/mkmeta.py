#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SMT = ("symbolic execution of the real compiler (from source) + symbolic "
       "interpretation of its output, z3 equivalence query per path")
UNIT = ("symbolic execution of the real code (from source) with z3; "
        "assertion decided per path")
P = []


def prop(id, title, statement, qover, qtext, why, files, mech, observe,
         technique=SMT, level="translation_validation", note=""):
    P.append(dict(id=id, title=title, statement=statement, qover=qover,
                  qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, level=level,
                  note=note))


TESTS = ("The existing tests compile a handful of fixed sources and compare "
         "text or only check that compiling succeeds; they never execute the "
         "generated commands. ")

prop("P01", "Compiled int arithmetic computes the source expression",
     "For every program, running the generated commands leaves in every int "
     "variable the value its source expression denotes: + - * / % and unary "
     "minus on int32 with wrap-around, / and % truncating toward zero, in any "
     "nesting, with any mix of variables and literals, in plain and augmented "
     "assignments and swap. Evaluating an expression never changes a variable "
     "other than the assignment's target.",
     ["programs", "inputs"],
     "every int expression, every literal and every initial variable value",
     TESTS + "Wrong code for one operand shape or one value needs all shapes "
     "and all int32 values.",
     ["acaciamc/objects/integer.py", "acaciamc/mccmdgen/cmds.py",
      "acaciamc/mccmdgen/generator.py"],
     [("operation groups and their merging", "acaciamc/objects/integer.py"),
      ("scoreboard command emission", "acaciamc/mccmdgen/cmds.py"),
      ("aug-assign", "acaciamc/mccmdgen/generator.py:visit_AugmentedAssign")],
     ["generated .mcfunction files"])

prop("P02", "Comparisons and boolean operators keep their meaning",
     "Every boolean expression built from comparisons (including chained "
     "ones), and, or, not, bool variables and literals has, in the generated "
     "commands, the truth value its source has, wherever it is used: "
     "assigned, passed, converted to int, or tested by if/while. Comparing "
     "with literals at the ends of the int range is included.",
     ["programs", "inputs"],
     "every boolean formula, every literal and every variable value",
     TESTS + "Range merging and negation go wrong only for particular "
     "relations between literals.",
     ["acaciamc/objects/boolean.py", "acaciamc/objects/integer.py",
      "acaciamc/mccmdgen/cmds.py"],
     [("and/or groups, range merging", "acaciamc/objects/boolean.py"),
      ("comparison with literals", "acaciamc/objects/integer.py")],
     ["generated .mcfunction files"])

prop("P03", "Control flow: the right branch runs, exactly once",
     "For every if/elif/else, while and for statement the generated commands "
     "execute exactly the statements the source semantics selects, in source "
     "order: one branch per if even when it changes the variables of the "
     "condition, the loop body once per iteration with the condition "
     "re-evaluated before each.",
     ["programs", "inputs"],
     "every nesting of control statements, every variable value, loops up to "
     "the stated unrolling",
     TESTS + "Executing both branches, or evaluating a condition once, only "
     "shows when the commands are run.",
     ["acaciamc/mccmdgen/generator.py", "acaciamc/mccmdgen/cmds.py",
      "acaciamc/mccmdgen/optimizer.py"],
     [("visit_If / visit_While / visit_For",
       "acaciamc/mccmdgen/generator.py")],
     ["generated .mcfunction files"])

prop("P04", "Function calls pass arguments and results by value",
     "Calling a function binds each argument to the right parameter "
     "(positional, keyword or default), runs its body and yields the value "
     "given by its result statement. Parameters, locals and results of one "
     "call are never disturbed by another call, in the same expression or "
     "elsewhere, and callers' variables are not changed except through "
     "assignments to globals in the body.",
     ["programs", "inputs"],
     "every set of non-recursive functions and calls, every argument value",
     TESTS + "Clobbered temporaries need particular combinations of calls in "
     "one statement.",
     ["acaciamc/objects/functions.py", "acaciamc/mccmdgen/generator.py",
      "acaciamc/compiler.py"],
     [("AcaciaFunction.call", "acaciamc/objects/functions.py"),
      ("temporary score allocation", "acaciamc/compiler.py")],
     ["generated .mcfunction files"])

prop("P05", "Inline and const functions behave as their call semantics say",
     "An inline function's body acts as if executed at the call: reference "
     "parameters and reference results alias the caller's variable, value "
     "parameters are copies, const parameters are compile-time constants. A "
     "const function yields exactly the constant its body computes, for all "
     "constant arguments.",
     ["programs", "inputs"],
     "every inline/const function, every argument kind and value",
     TESTS + "Aliasing mistakes depend on which variables are passed and on "
     "later assignments.",
     ["acaciamc/objects/functions.py", "acaciamc/mccmdgen/ctexecuter.py",
      "acaciamc/mccmdgen/generator.py", "acaciamc/mccmdgen/ctexpr.py"],
     [("InlineFunction.call", "acaciamc/objects/functions.py"),
      ("compile-time executer", "acaciamc/mccmdgen/ctexecuter.py")],
     ["generated .mcfunction files"])

prop("P06", "Structs are values: construct, copy and inherit field-wise",
     "A struct variable holds exactly the field values last stored in it: "
     "construction sets the named fields, assignment copies every field of "
     "the static type (including nested and inherited ones), and changing a "
     "copy never changes the original, through variables, arguments and "
     "results alike.",
     ["programs", "inputs"],
     "every set of struct types and every sequence of struct operations, "
     "every field value",
     TESTS + "Sharing between copies needs a copy followed by a mutation for "
     "each way of copying.",
     ["acaciamc/objects/struct.py", "acaciamc/objects/struct_template.py"],
     [("StructTemplate / Struct", "acaciamc/objects/struct_template.py"),
      ("assign", "acaciamc/objects/struct.py")],
     ["generated .mcfunction files"])

prop("P07", "Constant folding equals run-time evaluation or is rejected",
     "A constant expression computed by the compiler has the value that the "
     "same expression has over exact integers and booleans; if a result does "
     "not fit the target's int range, or divides by zero, the program is "
     "rejected with a compile error. No constant expression makes the "
     "compiler emit an out-of-range number or end with an internal failure.",
     ["programs", "inputs"],
     "every constant expression over all int literals",
     TESTS + "Boundaries (int range ends, negative divisors, zero) lie in a "
     "2^64 space of operand pairs.",
     ["acaciamc/objects/integer.py", "acaciamc/objects/boolean.py",
      "acaciamc/mccmdgen/ctexpr.py"],
     [("IntLiteral operators", "acaciamc/objects/integer.py"),
      ("ctexpr", "acaciamc/mccmdgen/ctexpr.py")],
     ["generated .mcfunction files", "compile errors"])

prop("P08", "The optimizer never changes what the program does",
     "With the optimizer on, and for every inlining size limit, the generated "
     "functions have the same observable effects, from every initial state, "
     "as with the optimizer off: the same scores of the program, the same "
     "outside commands in the same order.",
     ["programs", "configurations", "inputs"],
     "every program, both optimizer settings, every inline size limit and "
     "every initial score",
     TESTS + "The optimizer is exercised only as a side effect; equivalence "
     "of its output is never examined.",
     ["acaciamc/mccmdgen/optimizer.py", "acaciamc/mccmdgen/cmds.py",
      "acaciamc/compiler.py"],
     [("function inlining, dead-function removal, execute merging",
       "acaciamc/mccmdgen/optimizer.py"),
      ("inline_execute / RunFunction", "acaciamc/mccmdgen/cmds.py")],
     ["generated .mcfunction files"])

prop("P09", "Every emitted line is one well-formed command",
     "Whatever the source, each line of each generated function file is a "
     "complete command or comment that the game can parse: numbers and ranges "
     "lie within int32 and are not empty, selectors, JSON texts and quoted "
     "names are closed, and no value coming from the source can split or join "
     "lines.",
     ["programs", "inputs", "configurations"],
     "every program, every literal, every string character",
     TESTS + "Ill-formed output depends on literal values and characters the "
     "tests do not contain.",
     ["acaciamc/mccmdgen/cmds.py", "acaciamc/mccmdgen/mcselector.py",
      "acaciamc/objects", "acaciamc/modules"],
     [("command resolution", "acaciamc/mccmdgen/cmds.py"),
      ("selector building", "acaciamc/mccmdgen/mcselector.py")],
     ["generated .mcfunction files"])

prop("P10", "Generated functions are closed and entry points are kept",
     "Every function that a generated command calls exists in the output "
     "under the path used, every interface that has commands, main, init and tick entry is "
     "present, no two functions share a file, and tick.json names exactly the "
     "tick function when one is needed. This holds with the optimizer on or "
     "off and for every naming configuration.",
     ["programs", "configurations"],
     "every program and every configuration of folder and file names",
     TESTS + "Reachability of removed or inlined functions is never checked.",
     ["acaciamc/compiler.py", "acaciamc/mccmdgen/optimizer.py",
      "acaciamc/mccmdgen/cmds.py"],
     [("Compiler.output / file naming", "acaciamc/compiler.py"),
      ("dead-function removal", "acaciamc/mccmdgen/optimizer.py")],
     ["output folder"])

prop("P11", "Initialisation: nothing is read before it is set",
     "Running main on a fresh world (or init then main when init is split) "
     "creates every scoreboard objective before it is used and sets every "
     "internal constant and variable before the first command that reads it. "
     "Running it again gives the same results as the first time.",
     ["programs", "configurations", "histories"],
     "every program, with and without split init, any number of runs",
     TESTS + "Use before initialisation only shows when commands are "
     "executed from an empty world.",
     ["acaciamc/compiler.py", "acaciamc/mccmdgen/generator.py",
      "acaciamc/mccmdgen/cmds.py"],
     [("init command generation", "acaciamc/compiler.py")],
     ["generated .mcfunction files"])

prop("P12", "Modules run once and their names mean one thing",
     "However often and from wherever a module is imported, its top-level "
     "statements run exactly once per run of main, before the first use of "
     "its names, and every importer sees the same variables. Importing under "
     "an alias, or from-importing names, refers to the same objects.",
     ["programs"],
     "every import graph without cycles and every use of imported names",
     TESTS + "Order and multiplicity of module initialisation are run-time "
     "effects.",
     ["acaciamc/compiler.py", "acaciamc/mccmdgen/generator.py",
      "acaciamc/objects/module.py"],
     [("module loading", "acaciamc/mccmdgen/generator.py:visit_Import"),
      ("module cache", "acaciamc/compiler.py")],
     ["generated .mcfunction files"])

prop("P13", "Tokens mean what the source text says",
     "For every source text, integer and float literals in all their "
     "notations denote their mathematical value, string literals denote "
     "exactly their characters with every escape decoded, identifiers and "
     "keywords are told apart, and indentation and line joining give the "
     "block structure. A malformed literal, escape or indentation is "
     "reported as an error, never silently accepted or crashing.",
     ["inputs"],
     "every source text up to the stated length",
     "The tests tokenize a few fixed files; all characters at all positions "
     "are needed.",
     ["acaciamc/tokenizer.py"],
     [("Tokenizer", "acaciamc/tokenizer.py")],
     ["tokens", "compile errors"], UNIT, "model_checking")

prop("P14", "Operator precedence and grouping follow the documentation",
     "For every expression, the parse tree groups operators by precedence "
     "and associativity (power above unary above * / % above + - above "
     "comparisons above not above and above or, chained comparisons "
     "together), parentheses override it, and every statement form is parsed "
     "into what it denotes or reported as a syntax error.",
     ["inputs", "programs"],
     "every sequence of operators and operands up to the stated length",
     "Tests parse fixed files; the space of operator sequences is "
     "combinatorial.",
     ["acaciamc/parser.py", "acaciamc/ast.py"],
     [("Parser expression levels", "acaciamc/parser.py")],
     ["syntax tree", "generated .mcfunction files"], UNIT, "model_checking")

prop("P15", "Call arguments bind by one rule, bad calls are rejected",
     "Positional arguments bind left to right, keyword arguments by name, "
     "defaults fill the rest, and every call with a missing, surplus, "
     "doubled, unknown or wrongly typed argument is rejected with a compile "
     "error. The rule is the same for functions, inline functions, const "
     "functions, constructors, methods and library functions.",
     ["programs", "inputs"],
     "every signature and every call shape up to the stated sizes",
     "Tests make a few correct calls; bad calls and all mixtures of binding "
     "are not tried.",
     ["acaciamc/tools/axe.py", "acaciamc/mccmdgen/utils.py",
      "acaciamc/objects/functions.py"],
     [("axe argument declarations", "acaciamc/tools/axe.py"),
      ("ArgumentHandler", "acaciamc/mccmdgen/utils.py")],
     ["compile errors", "generated .mcfunction files"])

prop("P16", "Entity variables and fields refer to the right entities",
     "An entity variable denotes exactly the entity last assigned to it: "
     "construction summons one new entity and binds it, assignment makes "
     "both variables denote the same entity, and reading or writing a field "
     "or running a command through the variable affects that entity and no "
     "other.",
     ["programs", "inputs", "histories"],
     "every program over entities, every world of up to the stated number of "
     "entities with any tags and scores",
     TESTS + "Which entity a selector reaches depends on the world's tags.",
     ["acaciamc/objects/entity.py", "acaciamc/objects/entity_template.py",
      "acaciamc/mccmdgen/mcselector.py"],
     [("TaggedEntity", "acaciamc/objects/entity.py"),
      ("entity construction", "acaciamc/objects/entity_template.py")],
     ["generated .mcfunction files"])

prop("P17", "Entity groups behave as sets",
     "Engroup operations (add, remove, clear, copy, union, difference, "
     "intersection, size, membership, emptiness, selection by filter) have "
     "exactly their set meaning over the entities of the world, the "
     "operands other than the target stay unchanged, and a for loop over a "
     "group visits each member once.",
     ["programs", "inputs"],
     "every sequence of group operations, every assignment of entities to "
     "groups up to the stated number of entities",
     TESTS + "Set semantics depends on overlaps between groups.",
     ["acaciamc/objects/entity_group.py", "acaciamc/objects/extern_egroup.py"],
     [("EGroup", "acaciamc/objects/entity_group.py")],
     ["generated .mcfunction files"])

prop("P18", "Method calls run the body the entity's template selects",
     "Calling a virtual method runs exactly the implementation of the "
     "entity's run-time template, a non-virtual call the one of the static "
     "template found by the method resolution order, with self bound to the "
     "receiver, and its result is the caller's value.",
     ["programs", "inputs"],
     "every hierarchy of entity templates, every receiver's run-time "
     "template, every argument",
     TESTS + "Dispatch depends on the run-time template of the receiver.",
     ["acaciamc/objects/entity_template.py", "acaciamc/objects/entity.py",
      "acaciamc/objects/functions.py"],
     [("method dispatchers", "acaciamc/objects/entity_template.py")],
     ["generated .mcfunction files"])

prop("P19", "Entity filters select exactly the entities they describe",
     "An entity filter selects the entities that satisfy all its conditions "
     "(tags, types, names, scores, distance, volume, sort and limit, and "
     "their negations), whatever order the conditions were chained in and "
     "whether the same condition is given more than once. Building a filter "
     "from another one never changes the other.",
     ["programs", "inputs"],
     "every chain of filter conditions up to the stated length, every "
     "entity's tags and scores",
     TESTS + "Negations and repeated conditions combine in ways a sample "
     "does not cover.",
     ["acaciamc/objects/entity_filter.py", "acaciamc/mccmdgen/mcselector.py"],
     [("EntityFilter", "acaciamc/objects/entity_filter.py"),
      ("MCSelector", "acaciamc/mccmdgen/mcselector.py")],
     ["generated .mcfunction files"])

prop("P20", "Positions, offsets and rotations denote what was composed",
     "A Pos, Offset or Rot value built by any sequence of constructors, "
     "offsets, local offsets, alignment and context operations yields the "
     "execute context that sequence denotes, applied in order, and never "
     "changes the value it was built from.",
     ["programs", "inputs"],
     "every sequence of position operations up to the stated length, every "
     "coordinate",
     TESTS + "Order of composition and copying errors need sequences of "
     "operations.",
     ["acaciamc/objects/position.py", "acaciamc/objects/position_absolute.py",
      "acaciamc/objects/position_offset.py", "acaciamc/objects/rotation.py"],
     [("Position", "acaciamc/objects/position.py"),
      ("Offset", "acaciamc/objects/position_offset.py")],
     ["generated .mcfunction files"])

prop("P21", "Version and edition options gate features exactly",
     "A feature that needs a minimum game version or the education edition "
     "is accepted exactly when the configured version and edition provide "
     "it, for every version, and the command syntax emitted is the one of "
     "the configured version.",
     ["configurations", "programs"],
     "every version tuple and both edition settings",
     "Tests run with the default version only.",
     ["acaciamc/tools/versionlib.py", "acaciamc/compiler.py",
      "acaciamc/cli.py", "acaciamc/mccmdgen/cmds.py"],
     [("version requirements", "acaciamc/tools/versionlib.py"),
      ("Config", "acaciamc/compiler.py")],
     ["compile errors", "generated .mcfunction files"])

prop("P22", "Scheduled tasks run at the promised ticks",
     "A registered loop runs its target every interval ticks; a task started "
     "with after(d) runs its target exactly once, d ticks later, unless it "
     "is cancelled or restarted first, and reports whether it is pending. "
     "Tasks never disturb one another or the program's variables.",
     ["programs", "inputs", "histories"],
     "every interval and delay, every interleaving of after/cancel calls and "
     "ticks up to the stated number",
     TESTS + "Timing only exists over several ticks of execution.",
     ["acaciamc/modules/schedule.py", "acaciamc/compiler.py"],
     [("Task, register_loop", "acaciamc/modules/schedule.py"),
      ("tick file", "acaciamc/compiler.py")],
     ["generated .mcfunction files", "tick.json"])

prop("P23", "math module functions compute their mathematical result",
     "pow, min, max, mod, floordiv and randint of the math module leave the "
     "mathematically defined result (floor division and modulo, maximum, "
     "power with wrap-around, random values within the bounds) for all "
     "argument values, whether constant or not, and do not modify their "
     "arguments.",
     ["programs", "inputs"],
     "every argument value (pow exponents up to the unrolling bound)",
     TESTS + "Sign combinations and overflow boundaries need all values.",
     ["acaciamc/modules/math.py", "acaciamc/modules/_math.aca"],
     [("math functions", "acaciamc/modules/math.py"),
      ("run-time power", "acaciamc/modules/_math.aca")],
     ["generated .mcfunction files"])

prop("P24", "Lists and maps behave as their abstract data types",
     "Every operation on lists (indexing, slicing, append, insert, extend, "
     "pop, index, count, copying, ranges, repetition) and maps (lookup, set, "
     "get, keys, values, updates) in const contexts and at top level yields "
     "the contents its meaning defines; out-of-range indexes and missing "
     "keys are compile errors. Copies are independent and aliases are not.",
     ["programs", "inputs"],
     "every sequence of operations up to the stated length, every index and "
     "element value",
     TESTS + "Boundary indexes and aliasing need sequences over all index "
     "values.",
     ["acaciamc/objects/list_.py", "acaciamc/objects/map_.py",
      "acaciamc/mccmdgen/ctexecuter.py"],
     [("AcaciaList / CTDataList", "acaciamc/objects/list_.py"),
      ("Map", "acaciamc/objects/map_.py")],
     ["generated .mcfunction files", "compile errors"])

prop("P25", "Printed text shows exactly the formatted values",
     "A formatted string shows its literal parts and the values of its "
     "expressions in source order, with those values as they were when the "
     "output command runs, for every mixture of literals, ints, booleans and "
     "strings, for concatenation, and for every output function of the print "
     "library with its target and mode.",
     ["programs", "inputs"],
     "every formatted string up to the stated number of parts, every value",
     TESTS + "Escaping and evaluation order depend on content and values.",
     ["acaciamc/objects/string.py", "acaciamc/modules/print.py"],
     [("FString", "acaciamc/modules/print.py"),
      ("string formatting", "acaciamc/mccmdgen/generator.py")],
     ["generated .mcfunction files"])

prop("P26", "Interfaces and files appear at the configured paths",
     "Each interface is callable at exactly its declared path and runs its "
     "body each time it is called; main, init, internal files and the "
     "scoreboard and tag names follow the configuration. Invalid or "
     "colliding paths are rejected instead of overwriting another function.",
     ["programs", "configurations"],
     "every interface path up to the stated length, every configuration",
     "Tests use one configuration and one valid interface path.",
     ["acaciamc/compiler.py", "acaciamc/mccmdgen/generator.py",
      "acaciamc/cli.py"],
     [("interface registration",
       "acaciamc/mccmdgen/generator.py:visit_InterfaceDef"),
      ("path validation", "acaciamc/mccmdgen/utils.py")],
     ["output folder", "compile errors"])

prop("P27", "Raw commands and strings reach the output unchanged",
     "A raw command statement emits exactly its text, with every ${...} "
     "replaced by the value of the expression and escapes decoded; a string "
     "used inside a command or JSON text is quoted so that the game reads "
     "back exactly the original characters.",
     ["programs", "inputs"],
     "every command text and string up to the stated length over all "
     "characters",
     TESTS + "Quoting mistakes need particular characters at particular "
     "places.",
     ["acaciamc/tokenizer.py", "acaciamc/parser.py",
      "acaciamc/mccmdgen/generator.py", "acaciamc/mccmdgen/cmds.py"],
     [("command tokens", "acaciamc/tokenizer.py"),
      ("quoting", "acaciamc/mccmdgen/cmds.py")],
     ["generated .mcfunction files"])

prop("P28", "Names resolve to the innermost visible definition",
     "Every use of a name refers to the definition that lexical scoping "
     "selects (block-free statements share the enclosing function, module or "
     "template scope; functions nest; assignment creates locals), constants "
     "and references cannot be reassigned, and use of an undefined name is a "
     "compile error.",
     ["programs"],
     "every nesting of scopes and definitions up to the stated size",
     TESTS + "Captured or shadowed names only differ in what the commands "
     "do.",
     ["acaciamc/mccmdgen/symbol.py", "acaciamc/mccmdgen/generator.py"],
     [("SymbolTable", "acaciamc/mccmdgen/symbol.py")],
     ["generated .mcfunction files", "compile errors"])

prop("P29", "Ill-typed programs are rejected, well-typed ones accepted",
     "A program in which some value of one type is used where another type "
     "is required (assignment, argument, operand, condition, result, element "
     "access, call) is rejected with a compile error, a well-typed one is "
     "compiled, and the compiler never fails internally on either.",
     ["programs"],
     "every pair of value kind and use, at every nesting up to the stated "
     "size",
     "Tests contain mostly well-typed programs and a few fixed errors.",
     ["acaciamc/mccmdgen/datatype.py", "acaciamc/mccmdgen/generator.py",
      "acaciamc/objects"],
     [("data type matching", "acaciamc/mccmdgen/datatype.py"),
      ("operator resolution", "acaciamc/mccmdgen/generator.py")],
     ["compile errors"])

prop("P30", "world library functions emit the command they describe",
     "Each function of the world library emits the command it is documented "
     "to emit with exactly the given arguments, executed at the given "
     "position or on the given entities, and rejects arguments the game "
     "would refuse.",
     ["programs", "inputs"],
     "every library function, every combination of optional arguments, every "
     "value",
     TESTS + "Optional arguments combine; values are never varied.",
     ["acaciamc/modules/world.py", "acaciamc/objects/position.py"],
     [("world functions", "acaciamc/modules/world.py")],
     ["generated .mcfunction files"])

NA = {}


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            if not built(p) and p["id"] not in NA:
                pass
            f.write(json.dumps({
                "id": p["id"], "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["qover"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [
                    {"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    checks = []
    na = []
    for p in P:
        if built(p):
            checks.append({
                "property": p["id"],
                "quick_cmd": "python3 run.py check %s --tier quick" % p["id"],
                "thorough_cmd": "python3 run.py check %s --tier thorough"
                % p["id"],
                "technique": p["technique"], "level": p["level"],
                "level_note": p["note"] or NOTE[p["level"]]})
        else:
            na.append({"property": p["id"], "reason": NA.get(
                p["id"], "planned; its solver-based check is not built yet")})
    m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks,
         "not_applicable": na,
         "notes": "see DESIGN.md; VP_REPO selects another tree, VP_JOBS the "
                  "number of worker processes"}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


NOTE = {
    "translation_validation":
        "bounded: for each program shape, all literal values and initial "
        "scores are decided by z3; shapes are generated (seeded) plus "
        "templates; loops are unrolled to the stated bound",
    "model_checking":
        "bounded: all inputs up to the stated size are decided by z3 over "
        "the real code's paths",
}


def built(p):
    return os.path.exists(os.path.join(ROOT, "checks",
                                       p["id"].lower() + ".py"))


if __name__ == "__main__":
    main()
