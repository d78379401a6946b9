#!/usr/bin/env python3
# Writes /verif/properties.jsonl (single source for the property texts).
import json
P=[]
def p(id,title,statement,over,q,why,files,mech,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))

p("C01","Basic-type arithmetic, comparison and conversion give the defined value",
 "For every built-in numeric type, every arithmetic, bitwise, shift, comparison, logical, increment, compound-assignment and conversion operation yields the value defined by the language (operands narrower than int are promoted, mixed operands are widened to the larger type, integers wrap, stores to a narrower variable truncate), whatever the operand values and wherever the operands live (constant, local, global, array element, class member, behind a reference, captured, argument). Integer division and modulo by zero stop the program with an error instead of producing a value.",
 ["inputs","programs"],"all (operator, operand types, operand storage, operand value) combinations",
 "Tests assert a few sums per operator on ordinary values; overflow edges, every type pair and every operand location are not reachable by listing examples.",
 ["NULLC/ExpressionTree.cpp","NULLC/InstructionTreeVm.cpp","NULLC/InstructionTreeRegVmLower.cpp","NULLC/Executor_RegVm.cpp","NULLC/CodeGenRegVm_X86.cpp"],
 [("binary operation typing and conversions","NULLC/ExpressionTree.cpp CreateBinaryOp/CreateCast"),("RegVM arithmetic instructions","NULLC/Executor_RegVm.cpp"),("lowering to register instructions","NULLC/InstructionTreeRegVmLower.cpp")],["nullcRun results and globals"])

p("C02","Interpreter and JIT execute every program identically",
 "For every program, running it with the bytecode interpreter and with the x86 JIT gives the same outcome: the same success or the same run-time error, the same result, the same sequence of host-function calls with the same arguments, and the same final values of global variables. This includes nested calls between script and host, indirect calls, exceptions raised in the middle of nested calls and values of every size and type.",
 ["programs","inputs"],"all programs and inputs, on both execution back ends",
 "The suite runs each example on both back ends but the examples exercise few register/operand/instruction-order combinations of the JIT code generator, whose state (cached registers, flags, spilled values) depends on the instruction sequence.",
 ["NULLC/CodeGenRegVm_X86.cpp","NULLC/CodeGen_X86.cpp","NULLC/Translator_X86.cpp","NULLC/Executor_X86.cpp","NULLC/Executor_RegVm.cpp"],
 [("x86 code generation per VM instruction","NULLC/CodeGenRegVm_X86.cpp"),("register caching and peephole in code generator","NULLC/CodeGen_X86.cpp"),("interpreter loop","NULLC/Executor_RegVm.cpp RunCode")],["nullcRun, nullcGetResult, host call trace, nullcGetGlobal"])

p("C03","Optimization level never changes what a program does",
 "For every program, compiling it with any optimization level gives the same observable behaviour: the same result, the same run-time error if one occurs, the same sequence of host-function calls and the same final global values. Stores that can be observed through references, captured variables, arrays, aliases, host calls or later iterations are never dropped, duplicated or reordered.",
 ["programs","inputs"],"all programs, for all pairs of optimization levels",
 "Optimization passes interact with aliasing, loops and block structure; a hand-written example fixes one combination of those while a miscompilation needs a specific combination.",
 ["NULLC/InstructionTreeVm.cpp","NULLC/InstructionTreeVmCommon.cpp","NULLC/InstructionTreeRegVmLower.cpp","NULLC/Compiler.cpp"],
 [("peephole, constant propagation, dead code, control flow simplification, load-store propagation, CSE, mem2reg, phi handling","NULLC/InstructionTreeVm.cpp RunVmPass"),("register allocation and copy coalescing","NULLC/InstructionTreeRegVmLower.cpp")],["nullcSetOptimizationLevel + nullcRun"])

p("C04","Compile-time evaluation agrees with run-time evaluation",
 "Whenever the compiler evaluates code at compile time (constant expressions, array sizes, enumeration and class constants, static conditions, whole-program expression or instruction evaluation), the value equals the one the same code produces at run time. Code that would fail at run time is never given a value at compile time.",
 ["programs","inputs"],"all pure expressions and programs over all basic types",
 "There are three separate evaluators with their own implementation of every operator, conversion, array/class access and control statement; tests only compare results of sample programs.",
 ["NULLC/ExpressionEval.cpp","NULLC/InstructionTreeVmEval.cpp","NULLC/InstructionTreeVm.cpp","NULLC/ExpressionTree.cpp"],
 [("expression tree evaluator","NULLC/ExpressionEval.cpp"),("instruction tree evaluator","NULLC/InstructionTreeVmEval.cpp"),("constant folding in analysis and peephole","NULLC/ExpressionTree.cpp, NULLC/InstructionTreeVm.cpp")],["nullcTestEvaluateExpressionTree","nullcTestEvaluateInstructionTree","constants used as array sizes / enum / static if"])

p("C05","Invalid memory accesses stop the program with an error and change nothing",
 "Every array access with an index outside the array, every access or call through a null reference, null function or null dynamic reference, and every failed dynamic conversion stops execution with an error at that access; valid accesses never report an error. The failing access itself neither reads nor modifies memory outside the accessed object, all effects before it are kept, no effect after it happens, and the next run is unaffected.",
 ["inputs","programs"],"all access forms, element types and sizes, array kinds and index values on either executor",
 "Tests probe a few out-of-range indices on one array type; each access form and element size is a separate bounds-check implementation.",
 ["NULLC/Executor_RegVm.cpp","NULLC/CodeGenRegVm_X86.cpp","NULLC/Executor_X86.cpp","NULLC/StdLib.cpp"],
 [("index and null checks in VM instructions","NULLC/Executor_RegVm.cpp rviIndex/rviGetAddr/rviFuncAddr/..."),("JIT checks and signal handler","NULLC/CodeGenRegVm_X86.cpp, NULLC/Executor_X86.cpp"),("auto[] runtime functions","NULLC/StdLib.cpp")],["nullcGetLastError, globals after failure"])

p("C06","Garbage collection never frees or alters reachable objects",
 "At whatever allocation or explicit collection point a garbage collection happens, every object reachable from global variables, local variables, parameters, temporaries, captured variables or coroutine state of any active call keeps its identity and contents. This holds for every kind of holder: references, arrays of any kind and nesting, dynamic references, dynamic arrays, function values, class members including inherited ones, and references to the inside of an object.",
 ["histories","programs","schedules"],"all allocation/assignment/collection histories and all holder shapes, with a collection at every possible allocation point",
 "A premature free only shows when a collection hits between two specific operations for a specific holder kind; tests collect at a few chosen points.",
 ["NULLC/Executor_Common.cpp","NULLC/StdLib.cpp","NULLC/Linker.cpp","NULLC/Executor_RegVm.cpp","NULLC/Executor_X86.cpp"],
 [("marking of globals, stack frames and types","NULLC/Executor_Common.cpp MarkUsedBlocks/CheckVariable/..."),("allocator pools and sweep","NULLC/StdLib.cpp"),("register kill lists / pointer locals information","NULLC/InstructionTreeRegVmLower.cpp")],["graph contents read back after collection"])

p("C07","Unreachable objects are reclaimed and finalized exactly once",
 "After a collection, every object no longer reachable from any variable (including members of unreachable cycles) is reclaimed, so a program with bounded live data runs in bounded memory; reported memory use returns to that of the live data. An unreachable object with a finalizer has it run exactly once, with its contents still intact, before its memory is reused, and reachable objects are never finalized.",
 ["histories"],"all allocation/link/unlink/collect histories up to reachability isomorphism",
 "Tests check a handful of finalizer and memory-usage scenarios; leaks and double finalization depend on graph shape, object size class and history.",
 ["NULLC/StdLib.cpp","NULLC/Executor_Common.cpp","NULLC/includes/gc.cpp"],
 [("sweep of pools and big blocks, finalizer queue","NULLC/StdLib.cpp"),("memory accounting","NULLC/StdLib.cpp UsedMemory")],["finalizer trace, GC.UsedMemory()"])

p("C08","Captured variables behave as shared variables with the lifetime of their users",
 "A local function or lambda that captures variables observes and modifies the very same variable as the enclosing function and its sibling closures while the scope of the variable is alive. When the scope ends in any way (end of a block, case or iteration, break, continue, return), every closure keeps the value the variable had at that moment as its own persistent copy, shared with the closures created inside of it. Every scope activation (each call, each loop iteration, each recursion level, each coroutine instance) has its own instance of the variables.",
 ["programs","histories"],"all combinations of capture depth, sharing, scope exit kind and call order",
 "Closing of captured variables happens on every exit path and for every scope kind; tests contain a limited set of shapes.",
 ["NULLC/ExpressionTree.cpp","NULLC/InstructionTreeVm.cpp","NULLC/StdLib.cpp"],
 [("upvalue creation and closing","NULLC/ExpressionTree.cpp CreateFunctionContextVariableDefinition, CreateUpvalueClose, ClosePendingUpvalues"),("detaching closures","NULLC/StdLib.cpp CloseUpvalue")],["host call trace"])

p("C09","Coroutines and generators resume exactly where they left off",
 "Every coroutine instance keeps its own local state and position: each call continues after the last yield executed by that instance with all its local variables intact, independently of other instances, of the point in any nesting of loops, conditions and scopes where the yield occurs, and of garbage collections in between; a return resets it to the beginning. Generators and iteration over them deliver exactly the yielded values in order.",
 ["schedules","histories","programs"],"all coroutine bodies up to a size and all interleavings of calls to several instances",
 "The set of yield positions times interleavings is combinatorial; tests sample single interleavings.",
 ["NULLC/ExpressionTree.cpp","NULLC/InstructionTreeVm.cpp","NULLC/StdLib.cpp","NULLC/ExpressionEval.cpp"],
 [("coroutine state switch and variable relocation into context","NULLC/ExpressionTree.cpp, NULLC/InstructionTreeVm.cpp")],["values returned by each call"])

p("C10","Standard containers and algorithms behave as the abstract data types they implement",
 "For every sequence of operations, the standard vector, list, map/hashmap, range, event, stream and algorithm modules return the same values as the abstract sequence, linked list, mapping, multiset of handlers or sorted sequence they implement, including iteration order, sizes, duplicates, removal, growth boundaries and error reporting for invalid positions.",
 ["histories","inputs"],"all operation sequences up to a depth over a small key/value domain that forces collisions and growth",
 "Tests use each container on one or two fixed histories.",
 ["Modules/std/vector.nc","Modules/std/list.nc","Modules/std/hashmap.nc","Modules/std/map.nc","Modules/std/algorithm.nc","Modules/std/range.nc","Modules/std/event.nc","NULLC/includes/vector.cpp"],
 [("container implementations","Modules/std/*.nc"),("native part of std.vector","NULLC/includes/vector.cpp")],["container contents after each operation"])

p("C11","Any source text compiles or is rejected with a located error, never a crash",
 "Compiling any text at all terminates and either succeeds or reports a non-empty error message that carries a source position inside that text; it never crashes, corrupts memory or hangs. The outcome depends only on the text: compiling it again, or after any number of other successful or failed compilations, gives the same outcome, and a failed compilation leaves the compiler fully usable.",
 ["inputs","histories"],"all token sequences up to a length and all small edits of valid programs, in any order of compilation",
 "The failure tests list known malformed programs; malformed input space is open-ended and error recovery paths multiply.",
 ["NULLC/Lexer.cpp","NULLC/ParseTree.cpp","NULLC/ExpressionTree.cpp","NULLC/TypeTree.cpp","NULLC/Compiler.cpp","NULLC/nullc.cpp"],
 [("lexer, parser with error recovery","NULLC/Lexer.cpp, NULLC/ParseTree.cpp"),("semantic analysis errors","NULLC/ExpressionTree.cpp Report/Stop")],["nullcCompile result and nullcGetLastError"])

p("C12","Splitting a program into modules or binary form does not change it",
 "A program whose declarations are moved into imported modules behaves the same as the single-file program, whether the modules are compiled from source or loaded from saved bytecode, imported directly or through other modules, once or several times, in any order. Saved bytecode reloaded into the same or a fresh environment exposes exactly the same types, functions, generics, constants, aliases and variables.",
 ["programs","configurations"],"all partitions of a set of declaration kinds over an import graph and all load forms",
 "Tests import a few modules with fixed content; every declaration kind has its own export/import code whose index remapping depends on what else was imported.",
 ["NULLC/Compiler.cpp","NULLC/Linker.cpp","NULLC/Bytecode.cpp","NULLC/BinaryCache.cpp","NULLC/ExpressionTree.cpp"],
 [("bytecode generation and module import","NULLC/Compiler.cpp GetBytecode/ImportModule*"),("linking and index remapping","NULLC/Linker.cpp LinkCode")],["results with module vs single file"])

p("C13","Each run through the host API is independent of earlier ones",
 "After any history of building, linking, running, calling functions, failing compilations, run-time errors, executor switches and cleaning through the public API, building and running a program behaves exactly as in a fresh environment, and API calls that are invalid in the current state return failure without damage. Global variables keep their values between function calls of the same program and are re-initialised by a new run.",
 ["histories","fault_sequences"],"all API call sequences up to a depth over a small alphabet of programs and calls",
 "Leftover state only matters after particular sequences of calls; tests always build, run, and clean in the same order.",
 ["NULLC/nullc.cpp","NULLC/Linker.cpp","NULLC/Executor_RegVm.cpp","NULLC/Executor_X86.cpp","NULLC/Executor_Common.cpp","NULLC/StdLib.cpp"],
 [("state reset in clean/link/run","NULLC/nullc.cpp nullcClean/nullcBuild/nullcRun"),("executor reset","NULLC/Executor_RegVm.cpp InitExecution/ClearBreakpoints, NULLC/Executor_X86.cpp")],["API return values, results, globals, last error"])

p("C14","Module lookup follows the loaded modules and import paths",
 "An import resolves to the module currently loaded under that name or, if there is none, to the file found first along the import paths in the order they were added; adding, removing and clearing paths, loading from source or binary, removing and enumerating modules are reflected exactly by subsequent queries and imports. A failed load leaves the set of modules unchanged apart from dependencies that compiled successfully.",
 ["histories","configurations"],"all sequences of path and module operations up to a depth",
 "The tests set the import path once and never remove modules or permute operations.",
 ["NULLC/BinaryCache.cpp","NULLC/nullc.cpp","NULLC/Compiler.cpp"],
 [("module cache and import path list","NULLC/BinaryCache.cpp")],["nullcEnumerateModules, nullcHasImportPath, imported behaviour"])

p("C15","Debugging a program does not change it and reports the true execution",
 "Breakpoints hit exactly when execution reaches their instruction, one-shot breakpoints once, and removed or cleared breakpoints never; stepping into, over and out stops at the points that follow in the actual execution, and a stop request ends the run with an error. With any set of breakpoints and any sequence of debugger answers that let it continue, the program's result, output and errors are the same as without a debugger.",
 ["programs","histories","schedules"],"all breakpoint subsets and all answer sequences up to a depth on small programs",
 "Breakpoints patch the instruction stream; no unit test covers the debugger at all.",
 ["NULLC/Executor_RegVm.cpp","NULLC/nullc.cpp","NULLC/Executor_X86.cpp"],
 [("breakpoint patching and break handler","NULLC/Executor_RegVm.cpp AddBreakpoint/RemoveBreakpoint/rviNop")],["break callback sequence, call stack queries"])

p("C16","Statements and expressions are executed in the defined order",
 "Conditionals, all loop forms, switch, multi-level break and continue, early return and nested blocks execute exactly the statements the language defines, the right number of times; operands and call arguments are evaluated once each, in the defined order, with short-circuit operators and conditional expressions skipping what they must skip.",
 ["programs"],"all statement trees up to a size with all condition outcomes",
 "Tests contain typical loops; interactions of jumps, nesting and conditions grow combinatorially.",
 ["NULLC/ParseTree.cpp","NULLC/ExpressionTree.cpp","NULLC/InstructionTreeVm.cpp"],
 [("control flow analysis and lowering","NULLC/ExpressionTree.cpp, NULLC/InstructionTreeVm.cpp CompileVm*")],["host call trace"])

p("C17","Function selection is the best match and independent of declaration order",
 "A call selects the visible function whose parameter types fit the arguments best, with implicit conversions, default, named and variadic arguments and generic functions applied as documented; it is rejected when there is no match or several equally good ones. The selection does not depend on the order of unrelated declarations, and the selected function receives each argument converted to its parameter type.",
 ["programs"],"all overload sets and argument lists up to a size over a set of representative types",
 "Overload ranking is a function of a pair of type lists; tests cover single instances.",
 ["NULLC/ExpressionTree.cpp","NULLC/TypeTree.cpp"],
 [("overload rating and selection","NULLC/ExpressionTree.cpp GetFunctionRating/SelectBestFunction/GetCallArgumentMatch"),("generic instantiation","NULLC/ExpressionTree.cpp")],["which overload was called and argument values"])

p("C18","Dynamic references and dynamic arrays always know their exact type",
 "A dynamic reference or dynamic array remembers the exact type of the value it was made from; converting it back, comparing types, calling methods or functions through it, copying, assigning and replacing through it work exactly when the types match as documented and report an error otherwise. Conversions along an inheritance chain succeed exactly for the object's own class and its ancestors, and overridden behaviour is that of the object's real class.",
 ["programs","inputs"],"all (source type, target type, operation) triples over a representative type universe",
 "Tests exercise selected pairs; each pair uses run-time type tables that are also remapped by linking.",
 ["NULLC/StdLib.cpp","NULLC/Executor_Common.cpp","NULLC/ExpressionTree.cpp","Modules/std/typeinfo.nc"],
 [("runtime type checks","NULLC/Executor_RegVm.cpp rviConvertPtr, NULLC/StdLib.cpp"),("base class table and typeid functions","NULLC/Linker.cpp, NULLC/StdLib.cpp")],["result or error of each conversion"])

p("C19","Values cross the host boundary unchanged in both directions",
 "A host function bound to a script function receives exactly the argument values the script passed and the script receives exactly the value it returned, for every signature over basic types, references, arrays, strings, functions and structures by value, for direct and wrapper bindings; host calls into script functions pass arguments and return results equally exactly. Errors and nested calls across the boundary propagate without loss.",
 ["programs","inputs"],"all signatures up to a number of parameters over the supported types, both binding forms, both executors",
 "Argument classification (integer/floating registers, stack, struct) depends on the whole signature; tests list particular signatures.",
 ["NULLC/Executor_Common.cpp","NULLC/nullbind.h","NULLC/Executor_RegVm.cpp","NULLC/Executor_X86.cpp","NULLC/nullc.cpp","external/dyncall/dyncall_callvm.c"],
 [("external call marshalling","NULLC/Executor_Common.cpp RunRawExternalFunction"),("nullcRunFunction/nullcCallFunction argument packing","NULLC/nullc.cpp, NULLC/Executor_Common.cpp")],["argument trace in host function, results in script"])

p("C20","String and number text is interpreted and produced exactly",
 "Every number, character and string literal (decimal, hexadecimal, octal and binary notation, suffixes, exponents, escapes, raw strings) denotes exactly the value written, and conversions between numbers and text, string comparison, concatenation, searching, slicing and formatting give the exact text or value for all inputs. Parsing back what was printed returns the original value for all integers.",
 ["inputs"],"all strings over a small alphabet up to a length and all boundary numbers",
 "Literal scanning and text routines have per-length and per-digit edge cases that sampled literals miss.",
 ["NULLC/Lexer.cpp","NULLC/StrAlgo.cpp","NULLC/ExpressionTree.cpp","NULLC/StdLib.cpp","Modules/std/string.nc","NULLC/includes/string.cpp"],
 [("literal analysis","NULLC/ExpressionTree.cpp AnalyzeNumber/ParseEscapeSequence, NULLC/StrAlgo.cpp"),("string runtime","NULLC/StdLib.cpp, Modules/std/string.nc")],["literal values, string function results"])

p("C21","Reflection describes exactly the declared types and functions",
 "For every declared type the reflection facilities report its name, kind, size, alignment-correct member names, types and order, element types, array sizes, function argument and result types, base class and hash consistently with the declaration, and values read or written through reflection or host variable access are those of the described member. Members never overlap and respect the declared alignment.",
 ["programs"],"all type declarations up to a size over all member types and alignments",
 "Layout depends on the sequence of member types and alignments; tests query a few types.",
 ["NULLC/includes/typeinfo.cpp","NULLC/TypeTree.cpp","NULLC/ExpressionTree.cpp","NULLC/Linker.cpp","NULLC/Compiler.cpp"],
 [("class layout","NULLC/ExpressionTree.cpp AnalyzeClassElements/GetAlignmentOffset"),("type information","NULLC/includes/typeinfo.cpp")],["std.typeinfo results, nullcDebugTypeInfo, member access"])

p("C22","A fault at any point ends the run with an error and leaves the system usable",
 "If a host function raises an error, memory or stack space runs out, or recursion is too deep at any point of an execution, the run stops with an error describing it (or the script catches it where the language lets it), no statement after the fault is executed, the host process is not harmed, and subsequent runs, calls and collections work as if the fault had not happened.",
 ["fault_sequences","programs"],"every allocation, host call and call depth of a program as the fault point, and pairs of faults",
 "Faults must be injected at each individual operation; tests trigger one out-of-memory and one overflow.",
 ["NULLC/StdLib.cpp","NULLC/Executor_RegVm.cpp","NULLC/Executor_X86.cpp","NULLC/Executor_Common.cpp","NULLC/includes/error.cpp"],
 [("allocation failure reporting","NULLC/StdLib.cpp AllocObject"),("stack limit checks","NULLC/Executor_RegVm.cpp, NULLC/Executor_X86.cpp"),("error propagation through nested calls","NULLC/Executor_Common.cpp")],["return codes, last error, trace, following run"])

p("C23","Class features follow the object model",
 "Member access, constructors (default, custom, generic), member functions and properties, operators defined by the user, inheritance with overriding, static-typed and dynamic calls, by-value copies and assignment behave as documented for every combination: a copy is independent of its original, every object is constructed exactly once before use, and the overriding member of the dynamic class is the one called for extendable classes.",
 ["programs","histories"],"all class declarations and usage sequences up to a size over a feature alphabet",
 "Feature interactions (inheritance x default constructors x generics x arrays) are combinatorial.",
 ["NULLC/ExpressionTree.cpp","NULLC/TypeTree.cpp","NULLC/InstructionTreeVm.cpp"],
 [("class analysis, default constructors and assignment functions","NULLC/ExpressionTree.cpp"),("virtual table functions","NULLC/ExpressionTree.cpp, NULLC/StdLib.cpp")],["host call trace"])

p("C24","Run-time errors and stack queries point at the true source position",
 "When a program stops with a run-time error, the reported call stack lists exactly the active calls in call order, each with the function and the source line that was executing, and stack queries made by host functions or breakpoint handlers show the same chain. This holds on every call path, including indirect calls, callbacks from the host, member functions and imported modules.",
 ["programs"],"all call chains up to a depth over all call forms, with the error placed at each statement",
 "Tests compare the text of a few fixed stack traces.",
 ["NULLC/Executor_Common.cpp","NULLC/Executor_RegVm.cpp","NULLC/Executor_X86.cpp","NULLC/Bytecode.cpp","NULLC/nullc.cpp","NULLC/InstructionTreeRegVm.cpp"],
 [("call stack recovery and source mapping","NULLC/Executor_Common.cpp GetNextAddress/PrintCallStack"),("source info generation","NULLC/InstructionTreeRegVm.cpp, NULLC/Compiler.cpp")],["nullcGetLastError, nullcDebugEnumStackFrame"])

p("C25","Translation to C++ preserves behaviour",
 "A program translated to C++ and built with the translation runtime prints the same output and returns the same result as running the program directly.",
 ["programs"],"all programs of a bounded grammar accepted by the translator",
 "The translation tests are not part of the regular suite; agreement is needed for every construct combination.",
 ["NULLC/ExpressionTranslate.cpp","NULLC/translation/runtime.cpp","NULLC/translation/runtime.h"],
 [("C++ emission","NULLC/ExpressionTranslate.cpp"),("translation runtime","NULLC/translation/runtime.cpp")],["stdout of the built program"])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
