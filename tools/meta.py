#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (only
properties that have a check, plus the not-applicable ones)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import checks

L = "src/lib/"
TESTS = "The test suite runs 253 fixed programs and compares their result; "
P = {}


def prop(pid, title, statement, over, text, why, files, mech, note=None, state=None):
    P[pid] = dict(id=pid, title=title, statement=statement, over=over, text=text, why=TESTS + why, files=files, mech=mech, note=note, state=state)


prop("C01", "Operators compute the documented value for every combination of operands",
     "Every unary and binary operator applied to any pair of values gives the value the language defines for their kinds, or ends the program with the error for unsupported operands. `and` and `or` evaluate their right operand only when the left one does not decide the result, and operands are otherwise evaluated left to right.",
     ["inputs", "programs"], "all operators x all pairs of kinds of values, and nested expressions over them",
     "operators are sampled on a few operand pairs; mixed kinds, zero signs and evaluation order are not covered.",
     [L + "run.c", L + "compiler/codegen.c"], [("arithmetic, relational, equality and jump instructions", L + "run.c"), ("short-circuit code", L + "compiler/codegen.c")])
prop("C02", "Integers are exact signed 64-bit numbers",
     "Integer addition, subtraction, multiplication, division, remainder, negation, comparison and printing are exact for every pair of signed 64-bit operands whose result fits in 64 bits; division truncates toward zero and the remainder has the sign of the dividend. Division or remainder by zero is a runtime error and never ends the host, and integers keep their value through variables, lists, map keys and calls.",
     ["inputs"], "all pairs of 64-bit integers, boundary values and random ones",
     "only small integers are used.",
     [L + "run.c", L + "objects/o_int.c"], [("integer arithmetic", L + "run.c"), ("integer objects and hashing", L + "objects/o_int.c")])
prop("C03", "Exactly the texts of the grammar are programs, with the stated precedence",
     "A text is accepted exactly when it is a sentence of the language's grammar, and it means what precedence, associativity and the nesting of statements say: postfix over unary over the comma of multiple values over multiplicative over additive over comparisons (ordering and equality alike) over `and` over `or` over the type union `|` over assignment, binary ones grouping to the left and assignment to the right. Everything else is refused as an error before it runs.",
     ["programs"], "all token sequences: small enumerated statement shapes, operator chains, one-token edits of valid programs",
     "hardly any refused text and few operator combinations are tried.",
     [L + "compiler/parse.c", L + "compiler/codegen.c"], [("recursive descent parser", L + "compiler/parse.c")])
prop("C04", "Lexical structure: layout, comments, names, numbers, string literals",
     "White space and comments between tokens never change what a program does, tokens are the longest possible, and keywords are recognised only as whole words. String literals denote exactly the characters written, with \\n \\t \\r \\\\ \\' \\\" as the only escapes; number literals denote their decimal value; unknown characters, unknown escapes and unterminated strings are refused.",
     ["programs", "inputs"], "all character sequences: every printable character, escape, literal form and layout, character-level edits of programs",
     "one layout per program and a handful of literals are tried.",
     [L + "compiler/parse.c"], [("tokenizer", L + "compiler/parse.c"), ("literal decoding", L + "compiler/parse.c")])
prop("C05", "Control flow: if, else, while, do-while, break and return",
     "Conditions decide which statements run, an else belongs to the nearest if, while tests before and do-while after each pass, break leaves exactly the innermost enclosing loop, and return leaves the function (or program) with the given values. A condition that is not a boolean is a runtime error, and statements leave nothing behind however often or deeply they are nested or repeated.",
     ["programs"], "all nestings of control statements with all outcomes of their conditions",
     "nested loops with breaks at every level are not enumerated.",
     [L + "compiler/codegen.c", L + "run.c"], [("jump generation and loop labels", L + "compiler/codegen.c"), ("operand cleanup", L + "compiler/codegen.c")])
prop("C06", "Names resolve lexically; closures keep their scopes",
     "A name refers to the innermost enclosing function scope that has it at the time of use, then to the built-in names, and assignment always creates or changes the variable of the running function's own scope (blocks are not scopes). A function value keeps the scope it was defined in alive and sees later changes to it, whoever calls it and whenever; each call has variables of its own.",
     ["programs", "schedules"], "all nestings of functions and orders of definition, assignment and call; any number of variables; any garbage collection schedule",
     "a few closure examples are run, with no forced collection.",
     [L + "run.c", L + "objects/o_closure.c", L + "runtime.c"], [("variable lookup", L + "run.c"), ("closure objects", L + "objects/o_closure.c")])
prop("C07", "Calls: arguments, defaults, results, order of evaluation",
     "Missing arguments are none, surplus ones are dropped, a default replaces an argument that is none, and arguments are evaluated before the function value. A call delivers exactly as many results as are wanted (missing ones are none, surplus ones dropped), methods receive their object first, and only functions can be called.",
     ["programs"], "all argument and parameter counts, defaults, result counts and contexts of use, native and user functions",
     "a few fixed argument counts are used.",
     [L + "run.c", L + "compiler/codegen.c", L + "runtime.c"], [("call and return", L + "run.c"), ("parameter prologue", L + "compiler/codegen.c")])
prop("C08", "Declared parameter types are enforced on every call",
     "A call whose argument, after defaults, does not belong to the declared type of its parameter stops with a runtime error naming the parameter's position, name, type and the value given, before the body runs; all other calls run. Types are ordinary values evaluated at each call in the scope of the definition.",
     ["programs", "inputs"], "all type expressions x all values",
     "only a few annotated parameters are exercised.",
     [L + "run.c", L + "compiler/codegen.c", L + "objects/objects.c"], [("type assertion", L + "run.c"), ("type membership", L + "objects/objects.c")])
prop("C09", "Assignment, multiple assignment and stores into containers",
     "An assignment stores the value into exactly its target and is itself worth that value; chains assign from right to left, and a multiple assignment gives the i-th target the i-th of the values (none when there are fewer). Anything that is not a variable, member or element is refused as a target, and sides are evaluated in a fixed order.",
     ["programs"], "all target forms, counts of targets and values, and chains",
     "destructuring is tested with two or three plain variables.",
     [L + "compiler/codegen.c", L + "run.c"], [("assignment code", L + "compiler/codegen.c"), ("insertion instructions", L + "run.c")])
prop("C10", "Lists behave as growable sequences",
     "After any history of creations, stores, appends and reads a list holds exactly the elements stored in order; reading outside of it gives none, storing at its length appends, and storing elsewhere outside, or with a key that is not an integer, is a runtime error that changes nothing. Length, keys and iteration agree with that content at every size, under any garbage collection schedule.",
     ["histories", "schedules"], "all operation histories over lists, sizes through several growth steps, all index values",
     "a few short lists are checked.",
     [L + "objects/o_list.c"], [("list storage, growth and copying collection", L + "objects/o_list.c")])
prop("C11", "Maps behave as finite functions in insertion order",
     "After any history of stores a map gives for each key the value last stored under an equal key and none for absent keys; its count and key list contain each key once, in order of first insertion. Integers, floats, booleans, none and strings are keys by value (0.0 and -0.0 are one key, 1 and 1.0 and '1' three); functions, types and buffers read as none and cannot be stored as keys; all of this holds at every size and under any garbage collection schedule.",
     ["histories", "schedules", "inputs"], "all insertion orders, key kinds and sizes through several growth steps",
     "maps of a few keys are checked.",
     [L + "objects/o_map.c", L + "objects/objects.c", L + "utils/hash.c"], [("open addressing and growth", L + "objects/o_map.c"), ("hashing and equality", L + "objects/objects.c")])
prop("C12", "Containers are shared by reference with stable identity",
     "Assigning, passing, returning or storing a list, map, buffer or function shares it: a change through one reference is seen through all, and through no other object. Every evaluation of a literal makes a new object, cyclic structures are allowed, and the shape of the object graph is unaffected by garbage collection.",
     ["histories", "schedules"], "all small object graphs built by any history of stores, under forced collections",
     "aliasing and cycles are hardly covered and collections do not happen in such short programs.",
     [L + "run.c", L + "objects/heap.c", L + "objects/o_list.c", L + "objects/o_map.c"], [("copying collector", L + "objects/heap.c"), ("reference walking", L + "objects/objects.c")])
prop("C13", "Strings are immutable sequences of Unicode characters",
     "Length, indexing, equality, concatenation, trimming, slicing (by bytes), character codes and integer parsing of strings treat them as sequences of Unicode characters whatever their length and encoding width. Strings never change once made, and positions outside of them read as none or are reported as errors.",
     ["inputs", "histories"], "all strings over one- to four-byte characters, lengths and positions",
     "mostly ASCII strings are used.",
     [L + "objects/o_string.c", L + "builtins/string.c", L + "utils/utf8.c"], [("string objects", L + "objects/o_string.c"), ("string library", L + "builtins/string.c")])
prop("C14", "Buffers are bounded byte arrays and slices are windows on them",
     "A buffer holds exactly its size in bytes, initially zero or the bytes of a string; only positions inside it and values 0 to 255 can be stored, anything else is a runtime error that changes nothing. A slice, also a slice of a slice, is a window on the same bytes bounded by its own range, and keeps them alive by itself.",
     ["histories", "inputs", "schedules"], "all histories of creation, slicing, stores and reads with all boundary arguments",
     "one or two buffer programs are tested.",
     [L + "objects/o_buffer.c", L + "builtins/buffer.c"], [("buffer objects and slices", L + "objects/o_buffer.c"), ("buffer library", L + "builtins/buffer.c")])
prop("C15", "UTF-8 encoding and decoding are exact inverses; malformed bytes are reported",
     "Converting a string to bytes gives its UTF-8 encoding, and converting bytes to a string succeeds exactly for well-formed UTF-8, giving the string with those characters; all other byte sequences give none and an error text. Every Unicode character survives literals, concatenation, conversion and indexing.",
     ["inputs"], "all byte sequences of length one and two, boundary sequences of three and four bytes, all classes of code points",
     "no malformed sequence is tried.",
     [L + "utils/utf8.c", L + "builtins/buffer.c", L + "objects/o_string.c"], [("UTF-8 codec", L + "utils/utf8.c")])
prop("C16", "Printing shows every value completely and always terminates",
     "Printing writes the text of each argument in order with nothing added: numbers in decimal (floats with two decimals), strings as they are, containers with all their elements in order, types by their description. A container met inside itself is shown as `...`, so printing ends for every value, and printing changes nothing.",
     ["inputs", "histories"], "all values, including nested, shared and cyclic structures",
     "printed output is checked for a few programs.",
     [L + "objects/objects.c", L + "objects/o_list.c", L + "objects/o_map.c", L + "builtins/basic.c"], [("object printing", L + "objects/objects.c")])
prop("C17", "The bundled library: toString, iterators and helpers",
     "Converting a value to a string gives its decimal digits, itself, or the bracketed texts of its elements (a map's own `toString` method taking precedence), for every integer and any nesting. Iterators visit every element of a list or map exactly once in order, with value, key and index, then give none; min, max, abs, append, isCallable and integerFromDigit satisfy their definitions.",
     ["inputs", "histories"], "all integers and nested values; all lists and maps and iterator interleavings",
     "each helper is called on one or two values.",
     [L + "builtins/start.noja", L + "builtins/basic.c"], [("prelude written in Noja", L + "builtins/start.noja")])
prop("C19", "Types are values and membership is decided structurally",
     "The type of a value, type names, type equality, and membership in plain, nullable, sum, list and map types are as defined for every type and value: a list of types describes lists that begin with such elements, a map of types describes maps that have each of its keys with a value of that type, a nullable type adds none and a sum type is satisfied by either side.",
     ["inputs"], "all type terms x all values up to a nesting depth",
     "a few membership queries are tested.",
     [L + "objects/objects.c", L + "objects/o_nullable.c", L + "objects/o_sum.c", L + "objects/o_list.c", L + "objects/o_map.c"], [("membership operations", L + "objects/objects.c")])
prop("C20", "Built-in functions validate their arguments",
     "Called with any number of arguments of any kinds, every built-in function either does what it is defined to do or stops the program with a runtime error describing the unacceptable argument; it never ends the host or returns something undefined. Sizes, offsets and codes outside the allowed range are errors for every 64-bit integer.",
     ["inputs"], "all built-in functions x all kinds of arguments x boundary integers",
     "built-ins are called with acceptable arguments only.",
     [L + "builtins/basic.c", L + "builtins/string.c", L + "builtins/buffer.c", L + "builtins/math.c", L + "builtins/utils.c"], [("argument parsing", L + "builtins/utils.c"), ("native functions", L + "builtins/basic.c")])
prop("C21", "A runtime error ends the program exactly there, with its category and message",
     "The first operation that fails ends the whole program at once: everything evaluated before it has taken effect, nothing after it does, and the host receives one error with the right category and a message naming what failed. This holds wherever the failure happens, in nested calls, loops, methods, defaults or library code.",
     ["programs", "fault_sequences"], "all failing operations in all contexts, and random programs with failing operations",
     "few failing programs exist and earlier effects are not compared.",
     [L + "run.c", L + "utils/error.c", L + "builtins/basic.c"], [("error propagation", L + "run.c"), ("error values", L + "utils/error.c")])
prop("C22", "Stack traces name the failing line and every active call",
     "When a program fails, the stack trace lists the active calls from the innermost to the program itself, each with its source and the line of the failing expression or of the call being executed, and native functions marked as such. This holds for any layout of the program over lines.",
     ["programs", "fault_sequences"], "all failing operations at all depths, any layout",
     "stack traces are not compared.",
     [L + "run.c", L + "runtime.c", L + "compiler/parse.c", L + "compiler/codegen.c"], [("source positions of nodes and instructions", L + "compiler/parse.c"), ("stack snapshot", L + "runtime.c")])
prop("C23", "Nesting limits are enforced exactly and recoverably",
     "At most 16 calls can be active, 16 intermediate values can be held by one call and 8 results can be returned; a program within the limits never fails because of them and one that exceeds a limit stops with an error instead of misbehaving. Returning from calls and finishing expressions gives the capacity back, however often it is used.",
     ["programs"], "all depths, widths and result counts around each limit, repeated use",
     "limits are not tested.",
     [L + "runtime.c", L + "run.c", L + "utils/stack.c"], [("frame and operand limits", L + "runtime.c")])
prop("C24", "Any text is either run or refused as a whole",
     "For every input text the host gets either a run or an error, never a crash or a hang: a text that is not a valid program (including break outside a loop or an invalid assignment target anywhere) is refused before any part of it has run. This includes truncated programs, arbitrary bytes and extreme nesting.",
     ["programs", "inputs"], "all texts: truncations, random token and byte sequences, deep nesting",
     "invalid texts are almost absent.",
     [L + "compiler/parse.c", L + "compiler/compile.c", L + "compiler/codegen.c", "src/cli/main.c"], [("parser error handling", L + "compiler/parse.c"), ("semantic checks", L + "compiler/codegen.c")])
prop("C39", "Floating point arithmetic and the math library",
     "Arithmetic and comparisons involving a float are done in double precision after converting integers, keep the sign of zero, and are exact where the result is representable; floor and ceil give the nearest integers below and above. The other math functions give the exact value where there is one and otherwise a value within a few units of the last place of the mathematical one, not a number where it is undefined, and all accept floats only.",
     ["inputs"], "grids of dyadic floats and integers for every operation; exactly representable results of the math functions; recorded results of the others against their power series",
     "floats appear in a few additions.",
     [L + "run.c", L + "objects/o_float.c", L + "builtins/math.c"], [("float arithmetic", L + "run.c"), ("math functions", L + "builtins/math.c")],
     note="Magnitudes within 2^+-400; math functions without exact results are judged by spec/NojaMath.tla (power series in 32-place fixed point) for arguments up to 12 (trigonometric) or results up to e^25.")

exec(open(os.path.join(HERE, "tools", "meta_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "meta_more.py")) else None

NA = [
]

NOTE = ("Exhaustive over the combinations TLC enumerates for this run and sampled beyond them; the specification (spec/*.tla) is written from the documentation and the code and is trusted as the meaning of the language; "
        "programs it does not determine are counted as 'no_claim' in the evidence.")


def main():
    rows = []
    for pid in sorted(P):
        p = P[pid]
        if pid not in checks.CHECKS:
            continue
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
             "observe_at": ["results, printed output, error and stack trace of a run through the public interface"], "hook_needed": None}
        if p["state"]:
            a["state"] = p["state"]
        rows.append({"id": pid, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                     "why_tests_cant": p["why"], "anchors": a})
    for pid, title, st, files, why in NA:
        rows.append({"id": pid, "title": title, "statement": st, "quantifier": {"over": ["inputs", "schedules"], "text": "all exchanges"},
                     "why_tests_cant": "no test covers it", "anchors": {"files": files, "mechanism": [{"name": title, "where": files[0]}]}})
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for r in rows:
            f.write(json.dumps(r) + "\n")
    man = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [{"property": n[0], "reason": n[4]} for n in NA],
           "notes": "One TLA+ specification of the language, its machine and its libraries (spec/); TLC derives what each generated program must do, the real library built from /repo is held to it. No hooks: the public API is enough."}
    for r in rows:
        if r["id"] not in checks.CHECKS:
            continue
        lvl = checks.CHECKS[r["id"]][1]
        man["checks"].append({"property": r["id"], "quick_cmd": "python3 check.py %s quick" % r["id"], "thorough_cmd": "python3 check.py %s thorough" % r["id"],
                              "technique": "TLA+ specification executed by TLC; conformance replay of its behaviours on the real library" if r["id"] not in TECH else TECH[r["id"]],
                              "level": lvl, "level_note": NOTE + (" " + P[r["id"]]["note"] if P[r["id"]]["note"] else "")})
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(man["checks"]), "checks")


TECH = globals().get("TECH", {})
if __name__ == "__main__":
    main()
